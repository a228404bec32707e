//! C26: however a sequence is walked, it is the same sequence.
use super::c09::{repo, style};
use crate::engine::*;
use crate::world::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::signatures::Entry;
use ruplicity::{Backup, Snapshot};
use std::collections::BTreeSet;

/// A step that takes items off the front: the model is the same step on the numbers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Next,
    Nth(usize),
    /// by_ref().skip(n).next()
    Skip(usize),
    /// by_ref().step_by(n): the second item
    Every(usize),
    /// by_ref().take(n).last()
    Take(usize),
    /// find the n-th of those left by its position
    Position(usize),
    /// by_ref().fuse().next()
    Fused,
    /// peekable: a look ahead takes the item
    Peek,
}
use Step::*;
fn go<T, I: Iterator<Item = T>>(it: &mut I, s: Step) -> Option<T> {
    match s {
        Next => it.next(),
        Nth(n) => it.nth(n),
        Skip(n) => it.by_ref().skip(n).next(),
        Every(n) => it.by_ref().step_by(n).nth(1),
        Take(n) => it.by_ref().take(n).last(),
        Position(n) => {
            let mut k = 0;
            it.find(|_| {
                k += 1;
                k > n
            })
        }
        Fused => it.by_ref().fuse().next(),
        Peek => {
            let mut p = it.by_ref().peekable();
            let _ = p.peek();
            p.next()
        }
    }
}
/// The ways of finishing: all that is left, in order (or what can be told of it).
const ENDS: usize = 8;
fn finish<T: Clone, I: Iterator<Item = T>>(mut it: I, how: usize) -> (usize, Vec<T>, &'static str) {
    match how {
        0 => {
            let mut v = vec![];
            while let Some(x) = it.next() {
                v.push(x);
            }
            // the end stays the end
            let after = (0..3).filter(|_| it.next().is_some()).count() + it.by_ref().nth(1).is_some() as usize + it.count();
            (v.len() + after, v, "next, and again after the end")
        }
        1 => {
            let v: Vec<T> = it.collect();
            (v.len(), v, "collect")
        }
        2 => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            (v.len(), v, "for_each")
        }
        3 => {
            let v = it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            (v.len(), v, "fold")
        }
        4 => (it.count(), vec![], "count"),
        5 => {
            let l: Vec<T> = it.last().into_iter().collect();
            (usize::MAX, l, "last")
        }
        6 => {
            let (a, b): (Vec<(usize, T)>, Vec<(usize, T)>) = it.enumerate().partition(|(i, _)| i % 2 == 0);
            let mut v = [a, b].concat();
            v.sort_by_key(|x| x.0);
            (v.len(), v.into_iter().map(|x| x.1).collect(), "enumerate and partition")
        }
        _ => {
            let mut v = vec![];
            while let Some(x) = it.nth(0) {
                v.push(x);
            }
            (v.len(), v, "nth(0)")
        }
    }
}
fn hint<I: Iterator>(it: &I, left: usize) -> R {
    let (lo, hi) = it.size_hint();
    ensure!(lo <= left && hi.map_or(true, |h| h >= left), "{} are left, and size_hint says {:?}", left, (lo, hi));
    Ok(())
}

/// Walks `it` by the steps and the given finish, comparing each item with the one of that number.
fn walk<T: Clone, I: Iterator<Item = T>>(mut it: I, n: usize, steps: &[Step], end: usize, is: &dyn Fn(&T, usize) -> R) -> R {
    let mut model = 0..n;
    for (k, s) in steps.iter().enumerate() {
        let what = || format!("after {:?} on {}", &steps[..k + 1], n);
        hint(&it, model.len()).map_err(|e| format!("before {:?} of {:?} on {}: {}", s, steps, n, e))?;
        match (go(&mut it, *s), go(&mut model, *s)) {
            (None, None) => {}
            (Some(x), Some(i)) => is(&x, i).map_err(|e| format!("{}: {}", what(), e))?,
            (g, w) => return Err(format!("{}: {}, expected {:?}", what(), if g.is_some() { "an item" } else { "nothing" }, w)),
        }
    }
    hint(&it, model.len()).map_err(|e| format!("after {:?} on {}: {}", steps, n, e))?;
    let (want, items, _) = finish(model, end);
    let (got, left, how) = finish(it, end);
    let what = format!("{:?} on {}, then {}", steps, n, how);
    ensure_eq!(got, want, "items left after {}", what);
    ensure_eq!(left.len(), items.len(), "items left after {}", what);
    for (x, i) in left.iter().zip(items) {
        is(x, i).map_err(|e| format!("{}: {}", what, e))?;
    }
    Ok(())
}

/// A snapshot is no Clone: what can be told of it.
#[derive(Clone)]
struct Told {
    /// whether the listing and the manifest are those of the snapshot; not asked at a distance
    facts: Result<(i64, bool, bool, usize, String, usize), String>,
}
fn tell(s: &Snapshot, r: &Repo, deep: bool) -> Told {
    let set = s.as_backup_set();
    let i = match r.snaps.iter().position(|x| x.man_name == set.manifest_path()) {
        Some(i) => i,
        None => return Told { facts: Err(format!("no snapshot has the manifest {:?}", set.manifest_path())) },
    };
    let w = &r.snaps[i];
    let asked = || -> R {
        if deep {
            let e = s.entries().map_err(|e| format!("snapshot {}: {}", i, e))?;
            check_listing(e.as_signature(), &w.tree, &format!("snapshot {}", i))?;
            let m = s.manifest().map_err(|e| format!("snapshot {}: {}", i, e))?;
            check_manifest(&m, &w.man)?;
        }
        ensure_eq!((set.end_time().sec, set.start_time().sec, set.is_full(), set.num_volumes()), (w.end, w.start, w.full, w.vol_names.len()), "the set of snapshot {}", i);
        Ok(())
    };
    Told { facts: asked().map(|_| (s.time().sec, s.is_full(), s.is_incremental(), s.num_volumes(), set.manifest_path().to_string(), i)) }
}
fn is_snapshot(t: &Told, i: usize, r: &Repo) -> R {
    let w = &r.snaps[i];
    let f = t.facts.clone()?;
    ensure_eq!(f, (w.end, w.full, !w.full, w.vol_names.len(), w.man_name.clone(), i), "snapshot {}", i);
    Ok(())
}

fn shapes(most: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for n in 1..=most {
        for bits in 0..1usize << (n - 1) {
            let mut s = vec![1];
            for i in 0..n - 1 {
                if bits >> i & 1 == 1 {
                    s.push(1);
                } else {
                    *s.last_mut().unwrap() += 1;
                }
            }
            v.push(s);
        }
    }
    v
}

pub fn run(c: &mut Ctx) {
    c.rule = "more than one item is walked over in another way than one by one".into();
    let most = c.by_tier(5usize, 6);
    let all_shapes = shapes(most);
    let repos: Vec<Repo> = all_shapes.iter().map(|s| repo(s, 2)).collect();
    let depth = c.by_tier(2usize, 3);
    let steps: Vec<Step> = vec![Next, Nth(0), Nth(1), Nth(2), Nth(4), Nth(6), Nth(usize::MAX), Skip(1), Skip(3), Every(1), Every(2), Every(3), Take(2), Take(3), Position(1), Fused, Peek];
    c.explore("snapshots", &format!("every shape of up to {} snapshots in chains ({}), every sequence of {} steps of {} kinds, then one of {} ways to the end, what each gives asked for its entries and manifest", most, repos.len(), depth, steps.len(), ENDS), Opt::default(), &|ch| {
        let k = ch.pick(repos.len());
        let r = &repos[k];
        let s: Vec<Step> = (0..depth).map(|_| *ch.of(&steps)).collect();
        let end = ch.pick(ENDS);
        ch.state(&(k, &s, end));
        ch.outcome(&(k, end));
        ch.nontrivial();
        ch.note(|| format!("chains {:?}: {:?}, then {}", all_shapes[k], s, end));
        let b = Backup::new(Mem::new(&r.files)).map_err(|e| e.to_string())?;
        let it = b.snapshots().map_err(|e| e.to_string())?.into_iter();
        ensure_eq!(b.snapshots().unwrap().as_collections().num_snapshots(), r.snaps.len(), "num_snapshots");
        // entries are asked for one item of each walk only when it is long, so that walks over unread chains come about
        let mut n = 0;
        let it = Lifted(it, |s: Snapshot| {
            n += 1;
            tell(&s, r, n % 2 == 1)
        });
        walk(it, r.snaps.len(), &s, end, &|t, i| is_snapshot(t, i, r))
    });
    let small: Vec<usize> = (0..repos.len()).filter(|k| (3..=4).contains(&repos[*k].snaps.len())).collect();
    let two = [Next, Nth(1), Nth(2), Skip(1), Every(2)];
    c.explore("two_walks", &format!("two walks over the snapshots of one backup ({} shapes of three or four), every sequence of {} steps of {} kinds by either of them, items kept and asked at the end in reverse", small.len(), c.by_tier(4, 5), two.len()), Opt::default(), &|ch| {
        let k = *ch.of(&small);
        let r = &repos[k];
        let b = Backup::new(Mem::new(&r.files)).map_err(|e| e.to_string())?;
        let mut its: Vec<_> = (0..2).map(|_| b.snapshots().unwrap().into_iter()).collect();
        let mut models = [0..r.snaps.len(), 0..r.snaps.len()];
        let mut kept = vec![];
        let mut log = vec![];
        for _ in 0..small_depth(most) {
            let (who, s) = (ch.pick(2), *ch.of(&two));
            log.push((who, s));
            match (go(&mut its[who], s), go(&mut models[who], s)) {
                (None, None) => {}
                (Some(x), Some(i)) => kept.push((x, i)),
                (g, w) => return Err(format!("after {:?} on {:?}: {}, expected {:?}", log, all_shapes[k], if g.is_some() { "a snapshot" } else { "nothing" }, w)),
            }
        }
        ch.state(&(k, &log));
        ch.outcome(&(k, kept.iter().map(|x| x.1).collect::<Vec<_>>()));
        ch.nontrivial();
        ch.note(|| format!("chains {:?}: {:?}", all_shapes[k], log));
        for (x, i) in kept.iter().rev() {
            is_snapshot(&tell(x, r, true), *i, r).map_err(|e| format!("after {:?} on {:?}: {}", log, all_shapes[k], e))?;
        }
        for (it, m) in its.into_iter().zip(models) {
            ensure_eq!(it.count(), m.count(), "left after {:?}", log);
        }
        Ok(())
    });
    // the views of a backup agree
    c.explore("views", "every shape: the snapshots walked are the full and incremental sets of the chains, in their order; chains and sets walked from either end, by nth and rev", Opt::default(), &|ch| {
        let k = ch.pick(repos.len());
        let r = &repos[k];
        ch.state(&k);
        ch.outcome(&k);
        ch.nontrivial();
        ch.note(|| format!("chains {:?}", all_shapes[k]));
        let b = Backup::new(Mem::new(&r.files)).map_err(|e| e.to_string())?;
        let all = b.snapshots().map_err(|e| e.to_string())?;
        let coll = all.as_collections();
        ensure_eq!(coll.backup_chains().len(), all_shapes[k].len(), "number of chains");
        let mut sets = vec![];
        for (chain, n) in coll.backup_chains().zip(&all_shapes[k]) {
            ensure_eq!(chain.inc_sets().len(), n - 1, "increments of a chain");
            sets.push(chain.full_set());
            sets.extend(chain.inc_sets());
            let back: Vec<&str> = chain.inc_sets().rev().map(|s| s.manifest_path()).collect();
            let mut forth: Vec<&str> = chain.inc_sets().map(|s| s.manifest_path()).collect();
            forth.reverse();
            ensure_eq!(back, forth, "increments from the end");
        }
        let a: Vec<*const _> = sets.iter().map(|s| *s as *const _).collect();
        let b2: Vec<*const _> = b.snapshots().unwrap().into_iter().map(|s| s.as_backup_set() as *const _).collect();
        ensure_eq!(a.len(), b2.len(), "snapshots and sets");
        ensure!(a == b2, "the sets of the snapshots are not those of the chains, in their order");
        for (i, s) in sets.iter().enumerate() {
            ensure_eq!((s.manifest_path(), s.end_time().sec), (&r.snaps[i].man_name[..], r.snaps[i].end), "set {}", i);
        }
        let sigs: Vec<String> = coll.signature_chains().flat_map(|s| std::iter::once(s.full_signature().file_name.clone()).chain(s.inc_signatures().map(|f| f.file_name.clone()).collect::<Vec<_>>())).collect();
        ensure_eq!(sigs, r.snaps.iter().map(|s| s.sig_name.clone()).collect::<Vec<_>>(), "signature files of the chains");
        Ok(())
    });
    // long ones
    let long: Vec<Vec<usize>> = c.by_tier(vec![vec![270], vec![2; 132], vec![1; 260], vec![64, 65]], vec![vec![520], vec![2; 260], vec![1; 520], vec![256, 257], vec![3; 90]]);
    let big: Vec<Repo> = long.iter().map(|s| repo(s, 1)).collect();
    c.explore("long", &format!("{:?} snapshots of each chain: from every position, one step by every distance, then to the end", long.iter().map(|s| (s.len(), s[0])).collect::<Vec<_>>()), Opt::default(), &|ch| {
        let k = ch.pick(big.len());
        let r = &big[k];
        let n = r.snaps.len();
        let from = ch.pick(n + 1);
        ch.state(&(k, from));
        ch.outcome(&(k, from));
        ch.nontrivial();
        ch.note(|| format!("{} snapshots, from {}", n, from));
        let b = Backup::new(Mem::new(&r.files)).map_err(|e| e.to_string())?;
        for by in 0..=n - from {
            for end in [4, 5] {
                let it = Lifted(b.snapshots().unwrap().into_iter(), |s: Snapshot| tell(&s, r, false));
                let s = if from == 0 { vec![Nth(by)] } else { vec![Nth(from - 1), Nth(by)] };
                walk(it, n, &s, end, &|t, i| is_snapshot(t, i, r))?;
                ch.step();
            }
        }
        // and one that is asked what it holds
        let mut it = b.snapshots().unwrap().into_iter();
        if let Some(s) = it.nth(from) {
            is_snapshot(&tell(&s, r, true), from, r)?;
        } else {
            ensure_eq!(from, n, "nothing at a position");
        }
        Ok(())
    });
    // entries
    let paths = c.by_tier(3usize, 4);
    let pool = ["a", "a/b", "a/c d", "b", "é"];
    // what a path is in the two snapshots: never, first, second, both
    let trees: Vec<Vec<Tree>> = (0..4usize.pow(paths as u32)).map(|code| {
        (0..2).map(|s| {
            let mut t = Tree::new();
            t.insert(vec![], Node::new(Kind::Dir, 0));
            for (j, p) in pool[..paths].iter().enumerate() {
                if code / 4usize.pow(j as u32) % 4 >> s & 1 == 1 {
                    t.insert(comps(p), Node::new(Kind::File, (s * 10 + j) as u64));
                }
            }
            t
        }).collect()
    }).collect();
    let backups: Vec<Repo> = trees.iter().enumerate().map(|(i, ts)| {
        let mut r = Repo::default();
        r.backup(true, at(0), ts[0].clone(), 1, &style(i));
        r.backup(false, at(1), ts[1].clone(), 1, &style(i + 1));
        r
    }).collect();
    let esteps = [Next, Nth(1), Nth(2), Nth(usize::MAX), Skip(1), Every(2), Take(2), Peek];
    c.explore("entries", &format!("{} paths each never, first, later or always there, the entries of both snapshots walked by every sequence of {} steps of {} kinds, then one of {} ways to the end, on a copy made before or after a step, the original going on; the rest printed", paths, depth, esteps.len(), ENDS), Opt::default(), &|ch| {
        let k = ch.pick(backups.len());
        let i = ch.pick(2);
        let s: Vec<Step> = (0..depth).map(|_| *ch.of(&esteps)).collect();
        let end = ch.pick(ENDS);
        let copy = ch.pick(depth + 1);
        ch.state(&(k, i, &s, end, copy));
        ch.outcome(&(k, i, end));
        ch.nontrivial();
        let want = expected_listing(&trees[k][i]);
        ch.note(|| format!("{}, {:?}, copied after {}, then {}", show(&want), s, copy, end));
        let b = Backup::new(Mem::new(&backups[k].files)).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        let e = snaps[i].entries().map_err(|e| e.to_string())?;
        let n = want.len();
        let is = |x: &Seen, i: usize| -> R {
            ensure!(*x == want[i], "entry {} is {}, not {}", i, show(&[x.clone()]), show(&[want[i].clone()]));
            Ok(())
        };
        let mut it = e.as_signature();
        let mut model = 0..n;
        for x in &s[..copy] {
            go(&mut it, *x);
            go(&mut model, *x);
        }
        // the copy and the original go the rest of the way on their own
        let twin = it.clone();
        let at = model.start;
        let left = model.len();
        let told = |x: Entry| seen(&x);
        walk(Lifted(twin, told), left, &s[copy..], end, &|x, i| is(x, at + i)).map_err(|e| format!("a copy: {}", e))?;
        let printed = it.clone().into_display().to_string();
        walk(Lifted(it, told), left, &s[copy..], end, &|x, i| is(x, at + i)).map_err(|e| format!("after its copy: {}", e))?;
        let lines: Vec<&str> = printed.lines().collect();
        ensure_eq!(lines.len(), left, "lines of the rest printed:\n{}", printed);
        for (l, w) in lines.iter().zip(&want[at..]) {
            let p = String::from_utf8_lossy(&w.path).into_owned();
            let p = if p.is_empty() { ".".to_string() } else { p };
            ensure!(l.ends_with(&p), "{:?} printed as the line of {:?}", l, p);
        }
        Ok(())
    });
    // names in a directory
    let root = std::env::temp_dir().join(format!("mc-c26-{}", std::process::id()));
    std::fs::create_dir(&root).expect("scratch root");
    let files = 6usize;
    for n in 0..=files {
        std::fs::create_dir(root.join(n.to_string())).expect("scratch directory");
        for i in 0..n {
            std::fs::write(root.join(n.to_string()).join(format!("duplicity-full.2020010{}T000000Z.manifest", i + 1)), b"x").expect("scratch file");
        }
    }
    c.explore("names", &format!("the names of a local directory of up to {} files, in any order, walked by every sequence of {} steps, then one of {} ways to the end", files, depth, ENDS), Opt::default(), &|ch| {
        let n = ch.pick(files + 1);
        let s: Vec<Step> = (0..depth).map(|_| *ch.of(&steps)).collect();
        let end = ch.pick(ENDS);
        ch.state(&(n, &s, end));
        ch.outcome(&(n, end));
        ch.nontrivial();
        ch.note(|| format!("{} files, {:?}, then {}", n, s, end));
        let be = LocalBackend::new(root.join(n.to_string()));
        let it = be.file_names().map_err(|e| e.to_string())?.into_iter();
        let met = std::cell::RefCell::new(BTreeSet::new());
        let is = |x: &std::ffi::OsString, _: usize| -> R {
            let x = x.to_string_lossy().into_owned();
            ensure!(x.len() == "duplicity-full.20200101T000000Z.manifest".len() && x.starts_with("duplicity-full.2020010"), "a name that is not in the directory: {:?}", x);
            ensure!(met.borrow_mut().insert(x.clone()), "{:?} is named twice", x);
            Ok(())
        };
        walk(it, n, &s, end, &is)
    });
    let _ = std::fs::remove_dir_all(&root);
}

fn small_depth(most: usize) -> usize {
    if most > 5 { 5 } else { 4 }
}

/// Maps the items of an iterator without giving up what it does by itself: each call goes to the same call of the iterator.
struct Lifted<I, F>(I, F);
impl<I: Iterator, T, F: FnMut(I::Item) -> T> Iterator for Lifted<I, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next().map(&mut self.1)
    }
    fn nth(&mut self, n: usize) -> Option<T> {
        self.0.nth(n).map(&mut self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn last(mut self) -> Option<T> {
        self.0.last().map(&mut self.1)
    }
    fn fold<B, G: FnMut(B, T) -> B>(self, init: B, mut g: G) -> B {
        let mut f = self.1;
        self.0.fold(init, move |b, x| g(b, f(x)))
    }
}

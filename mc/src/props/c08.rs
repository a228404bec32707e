//! C08: access order and open handles never change answers.
use crate::engine::*;
use crate::world::*;
use ruplicity::manifest::Manifest;
use ruplicity::signatures::SnapshotEntries as Files;
use ruplicity::{Backup, ManifestRef, Snapshot, SnapshotEntries, SnapshotsIter};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op {
    /// list the snapshots and drop the list
    List,
    /// start iterating over the snapshots and keep the iterator
    Iter,
    /// open the entries of a snapshot and keep them
    Entries(u8),
    Manifest(u8),
    /// use the n-th handle held: advance an iterator, start iterating over entries, read a manifest
    Use(u8),
    Drop(u8),
}

/// What the handles held look like to the model.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Hold {
    Iter(u8),         // snapshots already taken
    Entries(u8),      // of a snapshot
    Files(u8, u8),    // iterating over the entries of a snapshot, entries already taken
    Man(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
struct State {
    chains: BTreeSet<u8>,
    mans: BTreeSet<u8>,
    held: Vec<Hold>,
}

/// What a freshly opened backup answers.
struct Answers {
    times: Vec<(i64, bool, usize)>,
    chain_of: Vec<u8>,
    entries: Vec<Result<Vec<Seen>, String>>,
    mans: Vec<Result<Vec<String>, String>>,
}

fn man_text(m: &Manifest) -> Vec<String> {
    let mut v = vec![m.hostname().to_string(), format!("{:?}", m.local_dir())];
    for i in 1..=m.last_volume_index() {
        v.push(format!("{:?}", m.volume(i)));
    }
    v
}

fn fresh(files: &BTreeMap<String, Arc<Vec<u8>>>, repo: &Repo) -> Result<Answers, String> {
    let mut a = Answers { times: vec![], chain_of: repo.snaps.iter().map(|s| s.chain as u8).collect(), entries: vec![], mans: vec![] };
    for i in 0..repo.snaps.len() {
        // every answer from a backup of its own
        let b = Backup::new(Mem::new(files)).map_err(|e| e.to_string())?;
        let s = b.snapshots().map_err(|e| e.to_string())?.into_iter().nth(i).ok_or("a snapshot is missing")?;
        a.times.push((s.time().sec, s.is_full(), s.num_volumes()));
        a.entries.push(s.entries().map(|e| e.as_signature().map(|x| seen(&x)).collect()).map_err(|e| e.to_string()));
        a.mans.push(s.manifest().map(|m| man_text(&m)).map_err(|e| e.to_string()));
    }
    Ok(a)
}

enum Handle<'a> {
    Iter(SnapshotsIter<'a>),
    // the iterator borrows from the boxed entries and is dropped first
    Entries(Option<Files<'static>>, *mut SnapshotEntries<'a>),
    Man(ManifestRef<'a>),
}
impl<'a> Drop for Handle<'a> {
    fn drop(&mut self) {
        if let Handle::Entries(f, p) = self {
            *f = None;
            unsafe { drop(Box::from_raw(*p)) }
        }
    }
}

const HOLD_MAX: usize = 8;

/// Applies the operation to the model. None: not enabled.
fn step_model(s: &State, op: Op, a: &Answers) -> Option<State> {
    let mut n = s.clone();
    match op {
        Op::List => {}
        Op::Iter => n.held.push(Hold::Iter(0)),
        Op::Entries(i) => {
            if a.entries[i as usize].is_ok() {
                n.chains.insert(a.chain_of[i as usize]);
                n.held.push(Hold::Entries(i));
            }
        }
        Op::Manifest(i) => {
            if a.mans[i as usize].is_ok() {
                n.mans.insert(i);
                n.held.push(Hold::Man(i));
            }
        }
        Op::Use(h) => {
            let x = n.held.get_mut(h as usize)?;
            *x = match *x {
                Hold::Iter(k) => Hold::Iter((k + 1).min(a.times.len() as u8 + 1)),
                Hold::Entries(i) => Hold::Files(i, 0),
                Hold::Files(i, k) => Hold::Files(i, (k + 1).min(a.entries[i as usize].as_ref().unwrap().len() as u8 + 1)),
                m => m,
            };
        }
        Op::Drop(h) => {
            if h as usize >= n.held.len() {
                return None;
            }
            n.held.remove(h as usize);
        }
    }
    Some(n)
}

/// Runs the operations on a fresh backup, comparing every answer with the fresh one.
fn run_ops(files: &BTreeMap<String, Arc<Vec<u8>>>, a: &Answers, ops: &[Op], once: bool) -> R {
    let mem = Mem::new(files);
    let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
    let snaps: Vec<Snapshot> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
    let mut held: Vec<Handle> = vec![];
    let mut model = State::default();
    for (n, op) in ops.iter().enumerate() {
        let at = |m: String| format!("operation {} of {:?}: {}", n, ops, m);
        match *op {
            Op::List => {
                let t: Vec<_> = b.snapshots().map_err(|e| at(e.to_string()))?.into_iter().map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect();
                ensure_eq!(t, a.times, "{}", at("snapshots".into()));
            }
            Op::Iter => held.push(Handle::Iter(b.snapshots().map_err(|e| at(e.to_string()))?.into_iter())),
            Op::Entries(i) => {
                let s: &Snapshot = &snaps[i as usize];
                let r = s.entries();
                let got: Result<Vec<Seen>, String> = r.as_ref().map(|e| e.as_signature().map(|x| seen(&x)).collect()).map_err(|e| e.to_string());
                ensure_eq!(got, a.entries[i as usize], "{}", at(format!("entries of snapshot {}", i)));
                if let Ok(e) = r {
                    held.push(Handle::Entries(None, Box::into_raw(Box::new(e))));
                }
            }
            Op::Manifest(i) => {
                let r = snaps[i as usize].manifest();
                let got = r.as_ref().map(|m| man_text(m)).map_err(|e| e.to_string());
                ensure_eq!(got, a.mans[i as usize], "{}", at(format!("manifest of snapshot {}", i)));
                if let Ok(m) = r {
                    held.push(Handle::Man(m));
                }
            }
            Op::Use(h) => match (&mut held[h as usize], model.held[h as usize]) {
                (Handle::Iter(it), Hold::Iter(k)) => {
                    let got = it.next().map(|s| (s.time().sec, s.is_full(), s.num_volumes()));
                    ensure_eq!(got, a.times.get(k as usize).cloned(), "{}", at("next snapshot".into()));
                }
                (Handle::Entries(f, p), Hold::Entries(_)) => {
                    // SAFETY: the iterator is dropped before the box in Handle::drop
                    let e: &'static SnapshotEntries<'static> = unsafe { &*(*p as *const SnapshotEntries<'static>) };
                    *f = Some(e.as_signature());
                }
                (Handle::Entries(Some(f), _), Hold::Files(i, k)) => {
                    let got = f.next().map(|e| seen(&e));
                    ensure_eq!(got, a.entries[i as usize].as_ref().unwrap().get(k as usize).cloned(), "{}", at("next entry".into()));
                }
                (Handle::Man(m), Hold::Man(i)) => {
                    ensure_eq!(Ok(man_text(m)), a.mans[i as usize], "{}", at("held manifest".into()));
                }
                _ => unreachable!(),
            },
            Op::Drop(h) => drop(held.remove(h as usize)),
        }
        model = step_model(&model, *op, a).expect("enabled");
        if once {
            let e = mem.0.borrow();
            for (f, k) in &e.opens {
                ensure!(*k <= 1, "{}", at(format!("{} was opened {} times", f, k)));
            }
        }
    }
    // what is still held must still give the same answers
    for (h, m) in held.iter_mut().zip(&model.held) {
        let at = |w: String| format!("after {:?}: {}", ops, w);
        match (h, *m) {
            (Handle::Iter(it), Hold::Iter(k)) => {
                let rest: Vec<_> = it.map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect();
                ensure_eq!(rest, a.times[(k as usize).min(a.times.len())..].to_vec(), "{}", at("rest of the snapshots".into()));
            }
            (Handle::Entries(f, p), Hold::Entries(i)) | (Handle::Entries(f, p), Hold::Files(i, _)) => {
                let w = a.entries[i as usize].as_ref().unwrap();
                let e: &SnapshotEntries = unsafe { &**p };
                let all: Vec<_> = e.as_signature().map(|x| seen(&x)).collect();
                ensure_eq!(&all, w, "{}", at(format!("held entries of snapshot {}", i)));
                if let (Some(f), Hold::Files(_, k)) = (f, *m) {
                    let rest: Vec<_> = f.map(|x| seen(&x)).collect();
                    ensure_eq!(rest, w[(k as usize).min(w.len())..].to_vec(), "{}", at(format!("rest of the entries of snapshot {}", i)));
                }
            }
            (Handle::Man(m), Hold::Man(i)) => ensure_eq!(Ok(man_text(m)), a.mans[i as usize], "{}", at("held manifest".into())),
            _ => unreachable!(),
        }
    }
    Ok(())
}

/// Two chains (full + incrementals), every snapshot with entries and a manifest of its own.
fn repo(shape: &[usize]) -> Repo {
    let mut r = Repo::default();
    let mut k = 0;
    for (c, n) in shape.iter().enumerate() {
        for i in 0..*n {
            let mut t = Tree::new();
            t.insert(comps("c"), Node::new(Kind::Sym, c as u64));
            t.insert(comps(&format!("f{}", k)), Node::new(Kind::File, k as u64));
            r.backup(i == 0, at(k), t, 1 + i, &SigStyle { dialect: Dialect::Gnu, gz: if c % 2 == 0 { None } else { Some(1) } });
            k += 1;
        }
    }
    r
}

const DAMAGE: [&str; 5] = ["complete", "last signature missing", "a manifest missing", "a signature damaged", "a manifest damaged"];
fn damage(r: &Repo, how: usize) -> BTreeMap<String, Arc<Vec<u8>>> {
    let mut f = r.files.clone();
    let first_inc = r.snaps.iter().find(|s| !s.full);
    match how {
        0 => {}
        1 => drop(f.remove(&r.snaps.last().unwrap().sig_name)),
        2 => drop(f.remove(&r.snaps[0].man_name)),
        3 => {
            let s = &first_inc.unwrap_or(&r.snaps[0]).sig_name;
            let d = f[s][..40].to_vec();
            f.insert(s.clone(), Arc::new(d));
        }
        _ => drop(f.insert(r.snaps[1].man_name.clone(), Arc::new(b"Hostname x\nLocaldir /\nVolume 2:\n".to_vec()))),
    }
    f
}

fn alphabet(n: usize, held: usize, cap: usize) -> Vec<Op> {
    let mut v = vec![Op::List];
    if held < cap {
        v.push(Op::Iter);
        for i in 0..n as u8 {
            v.push(Op::Entries(i));
            v.push(Op::Manifest(i));
        }
    }
    for h in 0..held as u8 {
        v.push(Op::Use(h));
        v.push(Op::Drop(h));
    }
    v
}

pub fn run(c: &mut Ctx) {
    c.rule = "at least one result is still held while another operation runs".into();
    c.assumptions = vec![
        "explicit-state search: two operation sequences are merged when the model state (what is loaded, which handles are held in which order and how far they have advanced) is the same; the sequence search merges nothing".into(),
    ];
    // chains, handles held at once in the state search, length of the sequences
    let shapes: Vec<(Vec<usize>, usize, usize)> = c.by_tier(vec![(vec![2, 1], 2, 4), (vec![1, 1, 1], 2, 3)], vec![(vec![2, 1], 3, 5), (vec![1, 1, 1], 3, 4), (vec![2, 2], 2, 5), (vec![1, 2, 1], 2, 4)]);
    for (shape, cap, depth) in &shapes {
        let (cap, depth) = (*cap, *depth);
        let r = repo(shape);
        let label = shape.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("-");
        // all sequences, nothing merged
        c.explore(Box::leak(format!("sequences_{}", label).into_boxed_str()), &format!("every sequence of {} operations on chains of {:?} snapshots, for a complete backup and {} damaged ones", depth, shape, DAMAGE.len() - 1), Opt::default(), &|ch| {
            let how = ch.pick(DAMAGE.len());
            let files = damage(&r, how);
            let a = fresh_cached(&files, &r, how)?;
            let mut ops = vec![];
            let mut s = State::default();
            for _ in 0..depth {
                let al = alphabet(r.snaps.len(), s.held.len(), HOLD_MAX);
                let op = *ch.of(&al);
                s = step_model(&s, op, &a).unwrap();
                ops.push(op);
                ch.step();
                ch.state(&(how, &s));
            }
            if s.held.len() > 0 {
                ch.nontrivial();
            }
            ch.note(|| format!("{}: {:?}", DAMAGE[how], ops));
            ch.outcome(&(how, &s));
            run_ops(&files, &a, &ops, how == 0).map_err(|e| format!("{} ({})", e, DAMAGE[how]))
        });
        // explicit-state search to a fixpoint
        for how in 0..if c.thorough() { DAMAGE.len() } else { 2 } {
            bfs(c, &r, &label, how, cap);
        }
    }
    // many chains at once, everything held
    let n = c.by_tier(5, 7);
    let many = repo(&vec![1; n]);
    c.explore("many_chains", &format!("every order of opening the entries or the manifests of {} chains while all that was opened before is held, then opening each again", n), Opt::default(), &|ch| {
        let files = damage(&many, 0);
        let a = fresh_cached(&files, &many, 0)?;
        let man = ch.flag();
        let again = ch.flag();
        let mut rest: Vec<u8> = (0..n as u8).collect();
        let mut ops = vec![];
        while !rest.is_empty() {
            let i = rest.remove(ch.pick(rest.len()));
            ops.push(if man { Op::Manifest(i) } else { Op::Entries(i) });
        }
        if again {
            // in the other order, after half of the handles are gone
            let more: Vec<Op> = ops.iter().rev().cloned().collect();
            ops.extend((0..n / 2).map(|_| Op::Drop(0)));
            ops.extend(more);
        }
        ch.nontrivial();
        ch.state(&ops);
        ch.outcome(&ops);
        ch.note(|| format!("{:?}", ops));
        run_ops(&files, &a, &ops, true)
    });
    // chains opened one after the other, nothing held in between
    let lens: Vec<usize> = c.by_tier(vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 33], (1..=70).collect());
    c.explore("chains_in_turn", &format!("{} numbers of chains up to {}: every chain opened in order, held or not, then each again with its manifest, and the manifests twice more, no file opened twice", lens.len(), lens.last().unwrap()), Opt::default(), &|ch| {
        let n = *ch.of(&lens);
        let (hold, back) = (ch.flag(), ch.flag());
        let r = repo(&vec![1; n]);
        let a = fresh_cached(&r.files, &r, 0)?;
        let mut ops = vec![];
        for i in 0..n {
            let i = if back { n - 1 - i } else { i } as u8;
            ops.push(Op::Entries(i));
            if !hold {
                ops.push(Op::Drop(0));
            }
        }
        for i in 0..n {
            ops.push(Op::Entries(i as u8));
            ops.push(Op::Manifest(i as u8));
        }
        for i in (0..n).chain((0..n).rev()) {
            ops.push(Op::Manifest(i as u8));
        }
        if hold {
            ch.nontrivial();
        }
        ch.state(&(n, hold, back));
        ch.outcome(&(n, hold, back));
        ch.note(|| format!("{} chains", n));
        run_ops(&r.files, &a, &ops, true)
    });
}

use std::cell::RefCell;
use std::rc::Rc;
thread_local! { static CACHE: RefCell<BTreeMap<(Vec<String>, usize), Rc<Answers>>> = RefCell::new(BTreeMap::new()); }
fn fresh_cached(files: &BTreeMap<String, Arc<Vec<u8>>>, r: &Repo, how: usize) -> Result<Rc<Answers>, String> {
    let key = (r.names(), how);
    if let Some(a) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
        return Ok(a);
    }
    let a = Rc::new(fresh(files, r)?);
    if how == 0 {
        for (i, s) in r.snaps.iter().enumerate() {
            ensure_eq!(a.entries[i], Ok(expected_listing(&s.tree)), "entries of snapshot {} of a fresh backup", i);
            ensure_eq!(a.times[i], (s.end, s.full, s.vol_names.len()), "snapshot {} of a fresh backup", i);
            ensure_eq!(a.mans[i].as_ref().map(|m| m[0].clone()), Ok(s.man.host.clone()), "manifest of snapshot {} of a fresh backup", i);
        }
    }
    CACHE.with(|c| c.borrow_mut().insert(key, a.clone()));
    Ok(a)
}

/// Breadth-first search over model states; each transition is executed on the real code by replaying a
/// shortest operation sequence to its source state.
fn bfs(c: &mut Ctx, r: &Repo, label: &str, how: usize, cap: usize) {
    let name: &'static str = Box::leak(format!("state_search_{}_{}", label, how).into_boxed_str());
    if c.violation.is_some() || c.only.as_ref().map_or(false, |o| !name.contains(o.as_str())) {
        return;
    }
    if c.replay.is_some() {
        // the choices of a violation found here are the operations leading to it
        c.explore(name, "", Opt::default(), &|ch| {
            let files = damage(r, how);
            let a = fresh_cached(&files, r, how)?;
            let (mut s, mut ops) = (State::default(), vec![]);
            loop {
                let al = alphabet(r.snaps.len(), s.held.len(), cap);
                let k = ch.pick(al.len() + 1);
                if k == 0 {
                    break;
                }
                s = step_model(&s, al[k - 1], &a).unwrap();
                ops.push(al[k - 1]);
            }
            ch.note(|| format!("{}: {:?}", DAMAGE[how], ops));
            run_ops(&files, &a, &ops, how == 0)
        });
        return;
    }
    let t = Instant::now();
    let files = damage(r, how);
    let a = match fresh_cached(&files, r, how) {
        Ok(a) => a,
        Err(e) => {
            c.violation = Some(Violation { harness: "state_search", choices: vec![], msg: e, trace: vec![], stable: true });
            return;
        }
    };
    let mut seen_states: HashSet<State> = HashSet::new();
    let mut level: Vec<(State, Vec<Op>)> = vec![(State::default(), vec![])];
    seen_states.insert(State::default());
    let (mut transitions, mut depth, mut nontrivial) = (0u64, 0usize, 0u64);
    let mut last = String::new();
    while !level.is_empty() {
        // all transitions of this level
        let mut jobs: Vec<(Vec<Op>, State)> = vec![];
        for (s, path) in &level {
            for op in alphabet(r.snaps.len(), s.held.len(), cap) {
                if let Some(n) = step_model(s, op, &a) {
                    let mut p = path.clone();
                    p.push(op);
                    jobs.push((p, n));
                }
            }
        }
        transitions += jobs.len() as u64;
        nontrivial += jobs.iter().filter(|j| j.1.held.len() > 1).count() as u64;
        // executed through the explorer: one choice, the job
        c.explore(name, "", Opt { quiet: true, ..Opt::default() }, &|ch| {
            let j = &jobs[ch.pick(jobs.len())];
            let a = fresh_cached(&files, r, how)?;
            ch.note(|| format!("{}: {:?}", DAMAGE[how], j.0));
            run_ops(&files, &a, &j.0, how == 0).map_err(|e| format!("{} ({})", e, DAMAGE[how]))
        });
        if let Some(v) = &mut c.violation {
            let ops = &jobs[v.choices.first().copied().unwrap_or(0) as usize].0;
            let (mut s, mut choices) = (State::default(), vec![]);
            for op in ops {
                choices.push(1 + alphabet(r.snaps.len(), s.held.len(), cap).iter().position(|o| o == op).unwrap() as u32);
                s = step_model(&s, *op, &a).unwrap();
            }
            v.choices = choices;
            return;
        }
        last = format!("{:?}", jobs.last().map(|j| &j.0));
        let mut next = vec![];
        for (p, n) in jobs {
            if seen_states.insert(n.clone()) {
                next.push((n, p));
            }
        }
        level = next;
        depth += 1;
    }
    c.add_stats(HarnessStats {
        name,
        bound: format!("all reachable states (fixpoint at depth {}) with at most {} handles held, chains of {} snapshots, {}", depth, cap, label, DAMAGE[how]),
        execs: transitions, transitions, states: seen_states.len() as u64, outcomes: seen_states.len() as u64, faults: 0, nontrivial, max_depth: depth, wall: t.elapsed().as_secs_f64(),
        samples: vec![last],
    });
}


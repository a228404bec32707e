//! C04: listing order and repetitions do not matter.
use super::coll;
use crate::engine::*;
use crate::world::*;
use ruplicity::collections::Collections;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

pub fn run(c: &mut Ctx) {
    c.rule = "the listing is not the reference one".into();
    c.assumptions = vec!["two listings are compared by everything the public accessors report, including which file is named when several claim one role".into()];
    let (t0, t1, t2, t3) = (at(0), at(1), at(2), at(3));
    // files competing for the same snapshot
    let one: Vec<String> = vec![
        full_name(t0, "manifest"), full_name(t0, "manifest.part"), full_name(t0, "manifest.gpg"), full_name(t0, "vol1.difftar.gz"), full_name(t0, "vol2.difftar.gpg"),
        full_name(t0, "vol1.difftar"), fullsig_name(t0, "sigtar.gz"), fullsig_name(t0, "sigtar.gpg"), fullsig_name(t0, "sigtar.part"), full_name(t0, "VOL1.DIFFTAR.GZ"),
        "unrelated".into(), full_name(t0, "manifest").to_uppercase(),
    ];
    // sets competing for chains: forks, equal ends, interleaved chains, replaced incrementals
    let many: Vec<String> = vec![
        full_name(t0, "manifest"), inc_name(t0, t1, "manifest"), inc_name(t0, t2, "vol1.difftar.gz"), inc_name(t1, t2, "manifest"), full_name(t1, "vol1.difftar"), full_name(t2, "manifest"),
        inc_name(t2, t3, "manifest.gpg"), fullsig_name(t0, "sigtar.gz"), newsig_name(t0, t1, "sigtar.gz"), newsig_name(t0, t2, "sigtar.gz"), fullsig_name(t2, "sigtar.gz"), newsig_name(t2, t3, "sigtar"),
        newsig_name(t1, t2, "sigtar.gpg"),
    ];
    let k = c.by_tier(4, 5);
    for (name, pool) in [("one_snapshot", &one), ("many_snapshots", &many)] {
        c.explore(name, &format!("every ordered choice of up to {} names out of {} (all permutations of all subsets), one of them possibly repeated", k, pool.len()), Opt::default(), &|ch| {
            // choose a sorted subset first, then its order
            let mut sub: Vec<usize> = vec![];
            let mut from = 0;
            while sub.len() < k && from < pool.len() {
                let x = ch.pick(pool.len() - from + 1);
                if x == 0 {
                    break;
                }
                sub.push(from + x - 1);
                from += x;
            }
            let reference: Vec<String> = sub.iter().map(|i| pool[*i].clone()).collect();
            let mut rest = reference.clone();
            let mut perm = vec![];
            while !rest.is_empty() {
                perm.push(rest.remove(ch.pick(rest.len())));
            }
            if sub.len() < k && !perm.is_empty() && ch.flag() {
                // repeat the first name at the end, or the last at the front
                if ch.flag() { perm.push(perm[0].clone()) } else { perm.insert(0, perm[perm.len() - 1].clone()) }
            }
            ch.state(&perm);
            let p = coll::probes(&reference);
            let b = Collections::from_filenames(&perm);
            let db = coll::describe(&b, &p);
            ch.outcome(&db);
            if perm == reference {
                return coll::check(&b, &reference);
            }
            ch.nontrivial();
            let a = coll::describe(&Collections::from_filenames(&reference), &p);
            ch.note(|| format!("{:?} against {:?}", perm, reference));
            ensure!(a == db, "the same files listed in another order give another backup\n  {:?}\n{}\n  {:?}\n{}", reference, a, perm, db);
            Ok(())
        });
    }
    // names that are not text
    let odd: Vec<OsString> = [&b"\xff"[..], b"caf\xe9", b"duplicity-full.\xff.manifest", b"duplicity-full.20160101T000000Z.manifest\xff", b"\x00", b"", b"a/b", b"\xed\xa0\x80"].iter().map(|b| OsString::from_vec(b.to_vec())).collect();
    let base = vec![full_name(t0, "manifest"), full_name(t0, "vol1.difftar.gz"), fullsig_name(t0, "sigtar.gz"), inc_name(t0, t1, "manifest"), newsig_name(t0, t1, "sigtar.gz")];
    let m = c.by_tier(2, 3);
    c.explore("foreign_names", &format!("up to {} names that are not duplicity's, most of them not UTF-8, at every position of every rotation of a listing, given as OS strings", m), Opt::default(), &|ch| {
        let p = coll::probes(&base);
        let r = ch.pick(base.len());
        let mut l: Vec<OsString> = base.iter().map(OsString::from).collect();
        l.rotate_left(r);
        if ch.flag() {
            l.reverse();
        }
        let k = 1 + ch.pick(m);
        for _ in 0..k {
            let x = ch.of(&odd).clone();
            let at = ch.pick(l.len() + 1);
            l.insert(at, x);
        }
        ch.state(&l);
        ch.nontrivial();
        let a = coll::describe(&Collections::from_filenames(&base), &p);
        let b = coll::describe(&Collections::from_filenames(&l), &p);
        ch.outcome(&b);
        ch.note(|| format!("{:?}", l));
        ensure!(a == b, "names that are not duplicity's change the backup\n  {:?}\n{}\n  instead of\n{}", l, b, a);
        Ok(())
    });
    // longer listings, with the same competitions at several places
    let sizes = c.by_tier(vec![4usize, 11], vec![4, 11, 25]);
    let large: Vec<(Vec<String>, Vec<usize>, String)> = sizes.iter().map(|n| {
        let mut v = vec![];
        for i in 0..*n as i64 {
            let (s, e) = (at(3 * i), at(3 * i + 3));
            if i % 4 == 0 {
                v.extend([full_name(s, "manifest"), full_name(s, "manifest.part"), full_name(s, "vol1.difftar.gz"), fullsig_name(s, "sigtar.gz"), fullsig_name(s, "sigtar.part")]);
            }
            v.extend([inc_name(s, e, "manifest"), inc_name(s, e, "vol1.difftar.gz"), inc_name(s, e, "vol1.difftar.gpg"), inc_name(s, e, "vol2.difftar.gz"), newsig_name(s, e, "sigtar.gz"), newsig_name(s, e, "sigtar.gpg")]);
            v.extend([inc_name(s, at(3 * i + 1), "manifest"), inc_name(at(3 * i + 1), e, "manifest"), newsig_name(s, at(3 * i + 2), "sigtar.gz")]);
        }
        let p = coll::probes(&v);
        let d = coll::describe(&Collections::from_filenames(&v), &p);
        (v, p, d)
    }).collect();
    c.explore("large_listings", &format!("listings of {:?} names with forks, ties and competing files: every rotation forwards and backwards, every stride, every name moved to the front, the middle or the end, every pair of halves swapped", large.iter().map(|l| l.0.len()).collect::<Vec<_>>()), Opt::default(), &|ch| {
        let (v, p, d) = ch.of(&large);
        let n = v.len();
        let how = ch.pick(7);
        let k = ch.pick(n);
        let mut l: Vec<String> = v.clone();
        match how {
            0 => l.rotate_left(k),
            1 => {
                l.reverse();
                l.rotate_left(k);
            }
            2 => {
                // every (k+1)-th name, then the ones after them
                l = (0..=k).flat_map(|r| v.iter().skip(r).step_by(k + 1).cloned()).collect();
            }
            3 => {
                let x = l.remove(k);
                l.insert(0, x);
            }
            4 => {
                let x = l.remove(k);
                l.push(x);
            }
            5 => {
                let x = l.remove(k);
                l.insert(n / 2, x);
            }
            _ => {
                l[..k].reverse();
                l[k..].reverse();
            }
        }
        ch.state(&l);
        ch.nontrivial();
        let got = coll::describe(&Collections::from_filenames(&l), p);
        ch.outcome(&got);
        ch.note(|| format!("way {} with {}: {:?}", how, k, l));
        ensure!(*d == got, "the same {} files listed in another order (way {}, {}) give another backup\n{}\n  instead of\n{}", n, how, k, got, d);
        Ok(())
    });
    // the same for listings beyond any round number
    let sizes: Vec<usize> = c.by_tier(vec![1001, 4097, 10_001, 65_537], vec![1001, 4095, 4096, 4097, 10_001, 32_769, 65_535, 65_536, 65_537, 100_001, 262_145]);
    let chain_sizes: Vec<usize> = c.by_tier(vec![1001, 4097], vec![1001, 4097, 10_001]);
    let mut huge: Vec<(Vec<String>, String)> = vec![];
    for (shape, n) in (0..2).flat_map(|k| sizes.iter().map(move |n| (k, *n))).chain((2..4).flat_map(|k| chain_sizes.iter().map(move |n| (k, *n)))) {
        let mut v: Vec<String> = vec![];
        match shape {
            // volumes of one snapshot, every third one claimed twice
            0 => {
                v.push(full_name(t0, "manifest"));
                v.extend((1..=n).map(|i| full_name(t0, &format!("vol{}.difftar.gz", i))));
                v.extend((1..=n).step_by(3).map(|i| full_name(t0, &format!("vol{}.difftar.gpg", i))));
                v.extend([inc_name(t0, t1, "manifest"), fullsig_name(t0, "sigtar.gz"), newsig_name(t0, t1, "sigtar.gz")]);
            }
            // two snapshots among other files
            1 => {
                for tail in ["manifest", "manifest.part", "vol1.difftar.gz", "vol2.difftar.gz"] {
                    v.extend([full_name(t0, tail), inc_name(t0, t1, tail)]);
                }
                v.extend([fullsig_name(t0, "sigtar.gz"), newsig_name(t0, t1, "sigtar.gz")]);
                v.extend((0..n).map(|i| format!("other{}", i)));
            }
            // one long chain, or a new one every third snapshot
            k => {
                for i in 0..n as i64 {
                    let full = i == 0 || (k == 3 && i % 3 == 0);
                    v.push(span_name(full, at((i - 1).max(0)), at(i), "manifest"));
                    v.push(sig_name(full, at((i - 1).max(0)), at(i), "sigtar.gz"));
                }
            }
        }
        let d = coll::describe(&Collections::from_filenames(&v), &huge_probes(&v));
        huge.push((v, d));
    }
    c.explore("huge_orders", &format!("listings of {:?} volumes or other files and of {:?} snapshots in one or many chains: backwards, rotated by a third, odd places before even ones, dealt into 7 and 256 hands, halves exchanged name by name, sorted, sorted by the reversed name", sizes, chain_sizes), Opt::default(), &|ch| {
        let (v, d) = ch.of(&huge);
        let n = v.len();
        let deal = |k: usize| -> Vec<String> { (0..k).flat_map(|r| v.iter().skip(r).step_by(k).cloned()).collect() };
        let how = ch.pick(8);
        let mut l = v.clone();
        match how {
            0 => l.reverse(),
            1 => l.rotate_left(n / 3),
            2 => l = [v.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>(), v.iter().step_by(2).cloned().collect()].concat(),
            3 => l = deal(7),
            4 => l = deal(256),
            5 => (0..n / 2).step_by(2).for_each(|i| l.swap(i, n - 1 - i)),
            6 => l.sort(),
            _ => l.sort_by_key(|s| s.bytes().rev().collect::<Vec<_>>()),
        }
        ch.state(&(v.len(), how, &l[0]));
        ch.nontrivial();
        let got = coll::describe(&Collections::from_filenames(&l), &huge_probes(v));
        ch.outcome(&got);
        ch.note(|| format!("way {} of {} names starting with {:?}", how, n, v[1]));
        if *d != got {
            let (a, b) = d.lines().zip(got.lines()).find(|(a, b)| a != b).unwrap_or((d.lines().last().unwrap_or(""), got.lines().last().unwrap_or("")));
            return Err(format!("the same {} files listed in another order (way {}) give another backup\n  {}\n  instead of\n  {}", n, how, b, a));
        }
        Ok(())
    });
    // end to end: what is read does not depend on the order either
    let mut repo = Repo::default();
    let mk = |rev: u64| -> Tree {
        let mut t = Tree::new();
        t.insert(vec![], Node::new(Kind::Dir, rev));
        t.insert(comps("a"), Node::new(Kind::File, rev));
        t.insert(comps(&format!("f{}", rev)), Node::new(Kind::Sym, rev));
        t
    };
    for (i, full) in [true, false, true, false].iter().enumerate() {
        repo.backup(*full, at(i as i64), mk(i as u64), 1, &SigStyle::default());
    }
    let files = repo.names();
    let groups: Vec<Vec<String>> = c.by_tier(2, 1).max(1).pipe(|g| {
        // quick: files of one role move together; thorough: every signature and manifest moves by itself
        let sigs: Vec<String> = files.iter().filter(|n| n.contains("signatures")).cloned().collect();
        let mans: Vec<String> = files.iter().filter(|n| n.ends_with("manifest")).cloned().collect();
        let vols: Vec<String> = files.iter().filter(|n| n.contains("difftar")).cloned().collect();
        let mut v: Vec<Vec<String>> = sigs.into_iter().map(|s| vec![s]).collect();
        if g == 2 {
            v.push(mans);
            v.push(vols);
        } else {
            v.extend(mans.into_iter().map(|m| vec![m]));
            v.push(vols);
        }
        v
    });
    let (repo, groups) = (&repo, &groups);
    c.explore("read_back", &format!("every order of {} groups of files of a two-chain backup, read end to end", groups.len()), Opt::default(), &|ch| {
        let mut rest = groups.clone();
        let mut listing = vec![];
        while !rest.is_empty() {
            let mut g = rest.remove(ch.pick(rest.len()));
            if rest.len() % 2 == 0 {
                g.reverse();
            }
            listing.extend(g);
        }
        let mem = Mem::new(&repo.files);
        mem.0.borrow_mut().listing = listing.clone();
        ch.state(&listing);
        ch.nontrivial();
        let b = ruplicity::Backup::new(mem).map_err(|e| e.to_string())?;
        let mut n = 0;
        for (s, w) in b.snapshots().map_err(|e| e.to_string())?.into_iter().zip(&repo.snaps) {
            ensure_eq!((s.time().sec, s.is_full()), (w.end, w.full), "snapshot");
            let e = s.entries().map_err(|e| format!("entries: {} with listing {:?}", e, listing))?;
            check_listing(e.as_signature(), &w.tree, "entries")?;
            let m = s.manifest().map_err(|e| format!("manifest: {}", e))?;
            check_manifest(&m, &w.man)?;
            n += 1;
        }
        ch.outcome(&n);
        ensure_eq!(n, repo.snaps.len(), "number of snapshots");
        Ok(())
    });
}

/// A few volume numbers of a large listing.
fn huge_probes(v: &[String]) -> Vec<usize> {
    let n = v.len();
    vec![1, 2, 3, 4, 5, 255, 256, 257, 999, 1000, 1001, 4096, 4097, n / 2, n * 3 / 4 - 3, 65_535, 65_536, 65_537]
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl Pipe for i32 {}

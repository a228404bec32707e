//! C19: chains of any length stay addressable.
use crate::engine::*;
use crate::world::*;
use ruplicity::signatures::{Chain, Snapshot};
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::sync::Arc;

/// The tree of the i-th snapshot: one file that changes every time, one that comes and goes, one that never changes,
/// and one that exists in this snapshot only.
pub fn tree(i: usize) -> Tree {
    let mut t = Tree::new();
    let mut always = Node::new(Kind::File, i as u64);
    always.len = i as u64 % 1100;
    t.insert(comps("always"), always);
    if i % 2 == 0 {
        t.insert(comps("even"), Node::new(Kind::Sym, 1));
    }
    t.insert(comps("first"), Node::new(Kind::Dir, 0));
    t.insert(comps(&format!("only{}", i)), Node::new(Kind::Fifo, 2));
    t
}

/// The signature files of a chain that starts at `from`.
pub fn write_chain(files: &mut BTreeMap<String, Arc<Vec<u8>>>, from: usize, n: usize) {
    for i in 0..n {
        let prev = if i == 0 { None } else { Some(tree(from + i - 1)) };
        let tar = sigtar(&diff(prev.as_ref(), &tree(from + i)), Dialect::Gnu);
        let name = if i == 0 { fullsig_name(at(from as i64), "sigtar") } else { newsig_name(at((from + i - 1) as i64), at((from + i) as i64), "sigtar") };
        files.insert(name, Arc::new(tar));
        let man = if i == 0 { full_name(at(from as i64), "manifest") } else { inc_name(at((from + i - 1) as i64), at((from + i) as i64), "manifest") };
        let m = Man { host: format!("h{}", from + i), dir: b"/".to_vec(), vols: vec![] };
        files.insert(man, Arc::new(m.bytes()));
    }
}

fn chain(n: usize) -> Result<Chain, String> {
    if n == 0 {
        return Ok(Chain::new());
    }
    let mut files = BTreeMap::new();
    write_chain(&mut files, 0, n);
    let coll = ruplicity::collections::Collections::from_filenames(files.keys());
    let mut chains = coll.signature_chains();
    let c = chains.next().ok_or("no signature chain")?;
    ensure!(chains.next().is_none(), "{} signature files in a row make more than one chain", n);
    Chain::from_sigchain(c, &Mem::new(&files)).map_err(|e| format!("reading a chain of {}: {}", n, e))
}

fn is(s: Snapshot, i: usize, n: usize) -> R {
    check_listing(s.files(), &tree(i), &format!("snapshot {} of {}", i, n))
}

pub fn run(c: &mut Ctx) {
    c.rule = "the chain has more than 64 snapshots".into();
    c.assumptions = vec!["at most one chain of the stated length at a time; each snapshot changes four paths".into()];
    let around = |k: usize| -> Vec<usize> { (k - 1..=k + 1).collect() };
    let mut lengths: Vec<usize> = vec![0, 1, 2, 3];
    for k in [128usize, 256, 512] {
        lengths.extend(around(k));
    }
    let max = c.by_tier(520, 1100);
    let all: Vec<usize> = if c.thorough() { (0..=max).step_by(1).filter(|n| *n <= 520 || n % 29 == 0 || (1022..1027).contains(n)).collect() } else { (0..=40).chain(60..70).chain(125..132).chain(250..262).chain([300, 320, 383, 384, 400, 510, 511, 512, 513]).collect() };
    c.explore("every_length", &format!("{} chain lengths up to {}: all snapshots in order with their contents, counts agree", all.len(), all.last().unwrap()), Opt::default(), &|ch| {
        let n = *ch.of(&all);
        ch.state(&n);
        if n > 64 {
            ch.nontrivial();
        }
        let c = chain(n)?;
        let mut it = c.snapshots();
        for i in 0..n {
            ensure_eq!((it.len(), it.size_hint()), (n - i, (n - i, Some(n - i))), "remaining length after {} of {}", i, n);
            let s = it.next().ok_or_else(|| format!("snapshot {} of {} is missing", i, n))?;
            is(s, i, n)?;
            ch.step();
        }
        for _ in 0..3 {
            ensure_eq!((it.len(), it.size_hint(), it.next().is_none()), (0, (0, Some(0)), true), "after the last of {}", n);
        }
        ensure_eq!(c.snapshots().count(), n, "count of {}", n);
        match c.snapshots().last() {
            Some(s) => is(s, n - 1, n)?,
            None => ensure!(n == 0, "no last snapshot of {}", n),
        }
        for i in (0..n + 2).step_by(1 + n / 40) {
            match c.snapshots().nth(i) {
                Some(s) if i < n => is(s, i, n)?,
                None if i >= n => {}
                s => return Err(format!("nth({}) of {} is {}", i, n, if s.is_some() { "a snapshot" } else { "nothing" })),
            }
        }
        ch.outcome(&n);
        Ok(())
    });
    // every sequence of steps
    let chains: Vec<(usize, Chain)> = {
        let mut v = vec![];
        for n in &lengths {
            match chain(*n) {
                Ok(c) => v.push((*n, c)),
                Err(_) => continue, // reported by the harness above
            }
        }
        v
    };
    let depth = c.by_tier(4, 5);
    c.explore("steps", &format!("every sequence of {} next/nth/step_by/skip steps with strides around every power of two, on {} lengths, compared with a plain sequence", depth, chains.len()), Opt::default(), &|ch| {
        let (n, c) = ch.of(&chains);
        let n = *n;
        let strides = [0usize, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, 63, 127, 254, 255, 256, 257, 511, 512, 65535, 65536, usize::MAX - 1, usize::MAX];
        if n > 64 {
            ch.nontrivial();
        }
        let mut it = c.snapshots();
        let mut model = 0..n;
        let mut text = vec![];
        for _ in 0..depth {
            let k = ch.pick(strides.len() + 2);
            let (got, want) = match k {
                0 => {
                    text.push("next".to_string());
                    (it.next(), model.next())
                }
                1 => {
                    text.push("by_ref().skip(3).next()".to_string());
                    (it.by_ref().skip(3).next(), model.by_ref().skip(3).next())
                }
                k => {
                    let s = strides[k - 2];
                    text.push(format!("nth({})", s));
                    (it.nth(s), model.nth(s))
                }
            };
            match (got, want) {
                (None, None) => {}
                (Some(s), Some(i)) => is(s, i, n).map_err(|e| format!("after {:?}: {}", text, e))?,
                (g, w) => return Err(format!("after {:?} on {} snapshots: got {}, expected {:?}", text, n, if g.is_some() { "a snapshot" } else { "nothing" }, w)),
            }
            ensure_eq!((it.len(), it.size_hint()), (model.len(), model.size_hint()), "remaining length after {:?} on {} snapshots", text, n);
            ch.state(&(n, model.clone()));
        }
        ch.note(|| format!("{} snapshots: {:?}", n, text));
        ch.outcome(&(n, model.start));
        ensure_eq!(it.count(), model.count(), "snapshots left after {:?} on {} snapshots", text, n);
        Ok(())
    });
    // far beyond what every_length covers
    let long: Vec<usize> = c.by_tier(vec![600, 767, 768, 769, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8193], vec![1535, 1536, 1537, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10_000, 10_001, 16_383, 16_384, 16_385, 20_000]);
    c.explore("long_chains", &format!("chains of {:?} snapshots: contents around every power of two, at both ends and at regular distances, in order and by nth", long), Opt::default(), &|ch| {
        let n = *ch.of(&long);
        ch.state(&n);
        ch.nontrivial();
        let c = chain(n)?;
        ensure_eq!((c.snapshots().len(), c.snapshots().count()), (n, n), "number of snapshots");
        let mut at: Vec<usize> = vec![0, 1, n - 2, n - 1];
        let mut p = 2;
        while p < n {
            at.extend((p - 1..=p + 1).filter(|i| *i < n));
            p *= 2;
        }
        at.extend((0..n).step_by(n / 16 + 1));
        at.sort();
        at.dedup();
        for i in &at {
            is(c.snapshots().nth(*i).ok_or_else(|| format!("no snapshot {} of {}", i, n))?, *i, n)?;
            ch.step();
        }
        let mut k = 0;
        for (i, s) in c.snapshots().enumerate() {
            if at.binary_search(&i).is_ok() {
                is(s, i, n)?;
            }
            k += 1;
        }
        ensure_eq!(k, n, "snapshots in order");
        ensure!(c.snapshots().nth(n).is_none() && c.snapshots().nth(n + 1).is_none() && c.snapshots().nth(2 * n).is_none(), "a snapshot after the last of {}", n);
        ch.outcome(&n);
        Ok(())
    });
    // as many snapshots as a number of 16 bits can count and more, of two paths
    let huge: Vec<usize> = c.by_tier(vec![16_385, 65_537], vec![16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001, 100_001]);
    let widest = c.by_tier(20_000, 70_001);
    c.explore("huge_chains", &format!("chains of {:?} snapshots of two paths, one changed by every backup and one by every second or thousandth, read through Chain and (up to {} snapshots) through Backup", huge, widest), Opt::default(), &|ch| {
        let n = *ch.of(&huge);
        let every = *ch.of(&[2usize, 1000]);
        // the collection looks through all known sets for each name
        let through = n <= widest && every == 2;
        let tree = |i: usize| -> Tree {
            let mut t = Tree::new();
            let mut a = Node::new(Kind::Dir, i as u64);
            a.uid = 7;
            a.uname = format!("u{}", i).into_bytes();
            t.insert(comps("a"), a);
            if (i / every) % 2 == 0 {
                t.insert(comps("b"), Node::new(Kind::Sym, (i / every) as u64));
            }
            t
        };
        let mut files = BTreeMap::new();
        for i in 0..n {
            let prev = if i == 0 { None } else { Some(tree(i - 1)) };
            let name = if i == 0 { fullsig_name(at(0), "sigtar") } else { newsig_name(at(i as i64 - 1), at(i as i64), "sigtar") };
            files.insert(name, Arc::new(sigtar(&diff(prev.as_ref(), &tree(i)), Dialect::Gnu)));
            if through {
                let name = if i == 0 { full_name(at(0), "manifest") } else { inc_name(at(i as i64 - 1), at(i as i64), "manifest") };
                files.insert(name, Arc::new(vec![]));
            }
        }
        ch.state(&(n, every));
        ch.nontrivial();
        let coll = ruplicity::collections::Collections::from_filenames(files.keys());
        let mut chains = coll.signature_chains();
        let c = chains.next().ok_or("no signature chain")?;
        ensure!(chains.next().is_none(), "{} signature files in a row make more than one chain", n);
        let c = Chain::from_sigchain(c, &Mem::new(&files)).map_err(|e| format!("reading a chain of {}: {}", n, e))?;
        ensure_eq!((c.snapshots().len(), c.snapshots().count()), (n, n), "number of snapshots");
        for (i, s) in c.snapshots().enumerate() {
            if i % 64 < 2 || i % 1000 < 2 || i + 3 > n {
                check_listing(s.files(), &tree(i), &format!("snapshot {} of {}", i, n))?;
            }
        }
        for k in (0..17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|k| *k < n) {
            let s = c.snapshots().nth(k).ok_or_else(|| format!("no snapshot {} of {}", k, n))?;
            check_listing(s.files(), &tree(k), &format!("snapshot {} of {} by nth", k, n))?;
            ch.step();
        }
        ensure!(c.snapshots().nth(n).is_none(), "a snapshot after the last of {}", n);
        if !through {
            ch.outcome(&(n, every));
            return Ok(());
        }
        drop(c);
        let b = Backup::new(Mem::new(&files)).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), n, "snapshots of the backup");
        for k in (0..17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([n - 2, n - 1]).filter(|k| *k < n) {
            ensure_eq!(snaps[k].time().sec, at(k as i64), "time of snapshot {} of {}", k, n);
            let e = snaps[k].entries().map_err(|e| format!("snapshot {} of {}: {}", k, n, e))?;
            check_listing(e.as_signature(), &tree(k), &format!("snapshot {} of {} through Backup", k, n))?;
            ch.step();
        }
        ch.outcome(&(n, every));
        Ok(())
    });
    // many snapshots through Backup: only manifests, so that the number of files does not matter
    let many: Vec<usize> = c.by_tier(vec![600, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5001, 8193, 10_001, 65_537], vec![1025, 2049, 4097, 5001, 8191, 8192, 8193, 10_001, 16_385, 32_769, 65_537]);
    c.explore("many_manifests", &format!("{:?} snapshots in one chain, in two or all full: times, kinds and manifests around every power of two, at both ends and at regular distances, forwards or backwards", many), Opt::default(), &|ch| {
        let n = *ch.of(&many);
        let shape = ch.pick(3);
        let back = ch.flag();
        ch.state(&(n, shape));
        ch.nontrivial();
        let full = |i: usize| i == 0 || shape == 1 && i == n / 2 || shape == 2;
        let mut files = BTreeMap::new();
        for i in 0..n {
            let name = if full(i) { full_name(at(i as i64), "manifest") } else { inc_name(at(i as i64 - 1), at(i as i64), "manifest") };
            files.insert(name, Arc::new(Man { host: format!("h{}", i), dir: b"/".to_vec(), vols: vec![] }.bytes()));
        }
        let b = Backup::new(Mem::new(&files)).map_err(|e| e.to_string())?;
        let coll = b.snapshots().map_err(|e| e.to_string())?.as_collections();
        ensure_eq!((coll.num_snapshots(), coll.backup_chains().len()), (n, [1, 2, n][shape]), "snapshots and chains");
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), n, "number of snapshots");
        for (i, s) in snaps.iter().enumerate() {
            ensure_eq!((s.time().sec, s.is_full()), (at(i as i64), full(i)), "snapshot {} of {}", i, n);
        }
        let mut probes: Vec<usize> = vec![0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1];
        let mut p = 2;
        while p < n {
            probes.extend((p - 1..=p + 1).filter(|i| *i < n));
            p *= 2;
        }
        probes.extend((0..n).step_by(n / 16 + 1));
        probes.sort();
        probes.dedup();
        if back {
            probes.reverse();
        }
        for round in 0..2 {
            for i in &probes {
                let m = snaps[*i].manifest().map_err(|e| format!("manifest {} of {}, round {}: {}", i, n, round, e))?;
                ensure_eq!(m.hostname(), format!("h{}", i), "manifest of snapshot {} of {}, round {}", i, n, round);
                ch.step();
            }
        }
        ch.outcome(&(n, shape));
        Ok(())
    });
    // end to end, with a chain before and after the long one
    let lens: Vec<usize> = c.by_tier(vec![1, 2, 100, 255, 256, 257], vec![1, 2, 3, 64, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600]);
    c.explore("backup", &format!("the long chain alone or between two short ones, lengths {:?}, read through Backup forwards or backwards, with every stride of a set", lens), Opt::default(), &|ch| {
        let n = *ch.of(&lens);
        let before = ch.pick(3);
        let after = ch.pick(2);
        let back = ch.flag();
        if n > 64 {
            ch.nontrivial();
        }
        let mut files = BTreeMap::new();
        let mut from = 0;
        for len in [before, n, after] {
            if len > 0 {
                write_chain(&mut files, from, len);
                from += len;
            }
        }
        ch.state(&(n, before, after));
        ch.note(|| format!("chains of {}, {}, {}", before, n, after));
        let b = Backup::new(Mem::new(&files)).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), from, "number of snapshots");
        ensure_eq!(b.snapshots().unwrap().as_collections().num_snapshots(), from, "num_snapshots");
        let order: Vec<usize> = if back { (0..from).rev().collect() } else { (0..from).collect() };
        for i in order {
            let s = &snaps[i];
            ensure_eq!((s.time().sec, s.is_full()), (at(i as i64), i == 0 && before > 0 || i == before || i == before + n), "snapshot {} of {}", i, from);
            let e = s.entries().map_err(|e| format!("snapshot {} of {}: {}", i, from, e))?;
            check_listing(e.as_signature(), &tree(i), &format!("snapshot {} of {}", i, from))?;
            let m = s.manifest().map_err(|e| format!("manifest {} of {}: {}", i, from, e))?;
            ensure_eq!(m.hostname(), format!("h{}", i), "manifest of snapshot {}", i);
            ch.step();
        }
        let mut it = b.snapshots().unwrap().into_iter();
        let mut k = 0;
        while let Some(s) = it.nth(6) {
            ensure_eq!(s.time().sec, at(k * 7 + 6), "every seventh snapshot");
            k += 1;
        }
        ensure_eq!(k as usize, from / 7, "number of steps of seven");
        ensure!(it.next().is_none() && it.next().is_none(), "the iterator goes on after its end");
        ch.outcome(&(n, before, after));
        Ok(())
    });
}

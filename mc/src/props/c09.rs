//! C09: missing files never produce wrong contents.
use crate::engine::*;
use crate::world::*;
use ruplicity::Backup;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Files = BTreeMap<String, Arc<Vec<u8>>>;

/// A tree of its own for the n-th backup: something created, something removed, something modified.
pub fn tree(n: i64) -> Tree {
    let mut t = Tree::new();
    t.insert(vec![], Node::new(Kind::Dir, 0));
    t.insert(comps("c"), Node::new(Kind::File, n as u64));
    t.insert(comps(&format!("f{}", n)), Node::new(Kind::File, n as u64));
    t.insert(comps("same"), Node::new(Kind::Sym, 7));
    if n % 2 == 0 {
        t.insert(comps("even"), Node::new(Kind::Dir, n as u64));
    }
    t
}

pub fn style(n: usize) -> SigStyle {
    SigStyle { dialect: [Dialect::Gnu, Dialect::Pax][n % 2], gz: if n % 2 == 0 { None } else { Some(1) } }
}

pub fn repo(shape: &[usize], volumes: usize) -> Repo {
    let mut r = Repo::default();
    let mut k = 0;
    for n in shape {
        for i in 0..*n {
            r.backup(i == 0, at(k), tree(k), volumes, &style(k as usize));
            k += 1;
        }
    }
    r
}

/// Reads everything there is, in both directions, and checks that what is read is right.
/// `listed`: what the backend lists; `files`: what can be read, whole except for `damaged`.
pub fn check_reads(r: &Repo, listed: &[String], files: &Files, damaged: &BTreeSet<String>, ch: &mut Ch) -> R {
    let mem = Mem::new(files);
    mem.0.borrow_mut().listing = listed.to_vec();
    let b = Backup::new(mem).map_err(|e| format!("opening failed: {}", e))?;
    let has = |n: &String| listed.contains(n);
    let whole = |n: &String| has(n) && files.contains_key(n) && !damaged.contains(n);
    let any_of = |s: &Snap| has(&s.man_name) || has(&s.sig_name) || s.vol_names.iter().any(|v| has(v));
    // a snapshot is listed when something is left of every backup from its full one on
    let mut want = vec![];
    let mut alive = false;
    for (i, s) in r.snaps.iter().enumerate() {
        alive = (s.full || alive) && any_of(s);
        if alive {
            want.push(i);
        }
    }
    let list = || -> Result<Vec<ruplicity::Snapshot>, String> { Ok(b.snapshots().map_err(|e| e.to_string())?.into_iter().collect()) };
    let snaps = list()?;
    ensure_eq!(snaps.iter().map(|s| (s.is_full(), s.time().sec)).collect::<Vec<_>>(), want.iter().map(|i| (r.snaps[*i].full, r.snaps[*i].end)).collect::<Vec<_>>(), "snapshots listed");
    let mut order: Vec<usize> = (0..snaps.len()).collect();
    order.extend((0..snaps.len()).rev());
    let mut res = vec![];
    for k in order {
        let (s, i) = (&snaps[k], want[k]);
        let w = &r.snaps[i];
        let chain: Vec<&Snap> = r.snaps.iter().filter(|x| x.chain == w.chain).collect();
        let own = chain.iter().filter(|x| x.end <= w.end).all(|x| whole(&x.sig_name));
        // a signature file that is listed but cannot be read may spoil its chain
        let spoiled = chain.iter().any(|x| has(&x.sig_name) && !whole(&x.sig_name));
        match s.entries() {
            Ok(e) => {
                check_listing(e.as_signature(), &w.tree, &format!("snapshot {}", i))?;
                ensure!(e.to_string().lines().count() == w.tree.len(), "snapshot {}: printed as {:?}", i, e.to_string());
            }
            Err(e) => ensure!(!own || spoiled, "snapshot {}: all its signature files are there but it cannot be listed: {}", i, e),
        }
        let got = s.entries().is_ok();
        match s.manifest() {
            Ok(m) => {
                let d = damaged.contains(&w.man_name);
                let r = check_manifest(&m, &w.man);
                ensure!(d || r.is_ok(), "snapshot {}: wrong manifest: {}", i, r.unwrap_err());
                ensure!(m.hostname().is_empty() || w.man.host.starts_with(m.hostname()), "snapshot {}: manifest of another snapshot", i);
            }
            Err(e) => ensure!(!whole(&w.man_name), "snapshot {}: its manifest is there but cannot be read: {}", i, e),
        }
        res.push((i, got, s.manifest().is_ok()));
    }
    ch.outcome(&res);
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "at least one file is missing, and at least one is left".into();
    c.assumptions = vec![
        "backups are taken one after the other, so signature chains do not fork".into(),
        "a signature file that is listed but missing or damaged may make its whole chain report an error".into(),
    ];
    let shapes: Vec<(Vec<usize>, usize)> = c.by_tier(
        vec![(vec![2, 2], 1), (vec![4], 1), (vec![1, 1, 2], 1), (vec![1, 2], 2), (vec![2, 2, 1], 1)],
        vec![(vec![3, 3], 1), (vec![2, 2, 2], 1), (vec![5], 1), (vec![6], 1), (vec![1, 1, 1, 2], 1), (vec![2, 2], 2), (vec![1, 2, 1], 2)]);
    for (shape, vols) in &shapes {
        let r = repo(shape, *vols);
        let label = shape.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("-");
        let order = r.order.clone();
        c.explore(Box::leak(format!("subsets_{}_{}", label, vols).into_boxed_str()), &format!("every subset of the {} files of chains of {:?} snapshots with {} volume(s) each", order.len(), shape, vols), Opt::default(), &|ch| {
            let mut f = Files::new();
            for n in &order {
                if !ch.flag() {
                    f.insert(n.clone(), r.files[n].clone());
                }
            }
            if f.len() > 0 && f.len() < order.len() {
                ch.nontrivial();
            }
            let listed: Vec<String> = f.keys().cloned().collect();
            ch.state(&listed);
            ch.note(|| format!("left: {:?}", listed));
            check_reads(&r, &listed, &f, &BTreeSet::new(), ch).map_err(|e| format!("{}\n  files left: {:?}", e, listed))
        });
    }
    // files that are listed but cannot be read
    let r = repo(&c.by_tier(vec![2, 1], vec![2, 2]), 1);
    c.explore("unlisted_or_unreadable", "every assignment of there / not listed / listed but gone to the signature files and manifests", Opt::default(), &|ch| {
        let mut f = Files::new();
        let mut listed = vec![];
        for n in &r.order {
            if n.contains("vol") {
                listed.push(n.clone());
                continue;
            }
            match ch.pick(3) {
                0 => {
                    listed.push(n.clone());
                    f.insert(n.clone(), r.files[n].clone());
                }
                1 => {}
                _ => listed.push(n.clone()),
            }
        }
        ch.nontrivial();
        ch.state(&(&listed, f.keys().collect::<Vec<_>>()));
        ch.note(|| format!("listed {:?}, readable {:?}", listed, f.keys()));
        check_reads(&r, &listed, &f, &BTreeSet::new(), ch).map_err(|e| format!("{}\n  listed: {:?}, readable: {:?}", e, listed, f.keys()))
    });
    // a further backup stops part-way: after any number of files, the last of which may be torn at any byte
    let bases: Vec<Vec<usize>> = c.by_tier(vec![vec![], vec![1], vec![2, 1], vec![1, 3]], vec![vec![], vec![1], vec![2], vec![1, 1], vec![2, 1], vec![1, 2], vec![3, 2], vec![1, 1, 3], vec![2, 2, 2, 2]]);
    let torn_step = c.by_tier(7, 1);
    c.explore("interrupted_backup", &format!("a further full or incremental backup of two volumes stopped after any number of files, the last one torn at every {}th byte, with any one older file missing, and followed by another full backup or not", torn_step), Opt::default(), &|ch| {
        let shape = ch.of(&bases);
        let mut r = repo(shape, 1);
        let old = r.order.len();
        let full = r.snaps.is_empty() || ch.flag();
        let k = r.snaps.len() as i64;
        // the interrupted backup may be far from or close to the previous one
        r.backup(full, at(k) - if ch.flag() { 86_400 * 3 } else { 0 }, tree(k), 2, &style(ch.pick(2)));
        let written = ch.pick(r.order.len() - old + 1);
        let mut f = Files::new();
        let mut damaged = BTreeSet::new();
        for n in &r.order[..old + written] {
            f.insert(n.clone(), r.files[n].clone());
        }
        if written > 0 {
            let last = &r.order[old + written - 1];
            if !last.contains("vol") {
                let len = f[last].len();
                // 0: whole
                let cut = ch.pick(len / torn_step + 1);
                if cut > 0 {
                    let d = f[last][..(cut - 1) * torn_step].to_vec();
                    f.insert(last.clone(), Arc::new(d));
                    damaged.insert(last.clone());
                }
            }
        }
        // and then another full backup is taken
        let after = r.order.len();
        if ch.flag() {
            r.backup(true, at(k + 2), tree(k + 2), 1, &style(1));
            for n in &r.order[after..] {
                f.insert(n.clone(), r.files[n].clone());
            }
        }
        if damaged.is_empty() && old > 0 {
            let gone = ch.pick(old + 1);
            if gone > 0 {
                f.remove(&r.order[gone - 1]);
            }
        }
        ch.nontrivial();
        let listed: Vec<String> = f.keys().cloned().collect();
        ch.state(&(&listed, &damaged, f.values().map(|v| v.len()).sum::<usize>()));
        ch.note(|| format!("left: {:?}, torn: {:?}", listed, damaged));
        check_reads(&r, &listed, &f, &damaged, ch).map_err(|e| format!("{}\n  files: {:?}\n  torn: {:?}", e, listed, damaged))
    });
    // backups that overlap, fork or lack their predecessors: whatever is shown is what there was at that instant
    let spans = |clock: i64| -> Vec<(bool, i64, i64)> { (0..clock).flat_map(|e| (0..=e).map(move |s| (s == e, s, e))).collect() };
    let mut made: BTreeMap<(bool, i64, i64), (String, Arc<Vec<u8>>, String, Arc<Vec<u8>>, Man)> = BTreeMap::new();
    for (full, s, e) in spans(5) {
        let recs = diff(if full { None } else { Some(tree(s)) }.as_ref(), &tree(e));
        let man = Man { host: format!("host{}{}", s, e), dir: format!("/{}/{}", s, e).into_bytes(), vols: vec![] };
        made.insert((full, s, e), (sig_name(full, at(s), at(e), "sigtar"), Arc::new(sigtar(&recs, [Dialect::Gnu, Dialect::Pax][(e % 2) as usize])), span_name(full, at(s), at(e), "manifest"), Arc::new(man.bytes()), man));
    }
    let made = &made;
    let overlap = |ch: &mut Ch, clock: i64, any: bool| -> R {
        let mut files = Files::new();
        let (mut have, mut sigs) = (vec![], vec![]);
        for sp in spans(clock) {
            let (sn, sb, mn, mb, _) = &made[&sp];
            // nothing, everything, without signature, without manifest
            let what = ch.pick(if any { 4 } else { 3 });
            if what == 1 || what == 3 {
                files.insert(sn.clone(), sb.clone());
                sigs.push(sp);
            }
            if what == 1 || what == 2 {
                files.insert(mn.clone(), mb.clone());
            }
            if what != 0 {
                have.push(sp);
            }
        }
        ch.state(&(&have, &sigs));
        if have.len() > 1 {
            ch.nontrivial();
        }
        ch.note(|| format!("spans (full, start, end) {:?}, of these with signatures {:?}", have, sigs));
        let tell = |e: String| format!("{}\n  spans (full, start, end) listed: {:?}\n  with signatures: {:?}", e, have, sigs);
        // no two backups continue or end at the same instant, and every one has its signatures: all must be shown
        let mut starts: Vec<i64> = have.iter().filter(|x| !x.0).map(|x| x.1).collect();
        let mut ends: Vec<i64> = have.iter().map(|x| x.2).collect();
        let (a, b) = (starts.len(), ends.len());
        starts.sort();
        starts.dedup();
        ends.sort();
        ends.dedup();
        let plain = a == starts.len() && b == ends.len() && sigs.len() == have.len();
        let b = Backup::new(Mem::new(&files)).map_err(|e| e.to_string())?;
        let when = |t: i64| (0..clock).find(|i| at(*i) == t).ok_or_else(|| format!("a snapshot of {}", t));
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        let mut res = vec![];
        for k in (0..snaps.len()).rev().chain(0..snaps.len()) {
            let s = &snaps[k];
            let sp = (s.is_full(), when(s.as_backup_set().start_time().sec).map_err(tell)?, when(s.time().sec).map_err(tell)?);
            let what = format!("{:?}", sp);
            match s.entries() {
                Ok(e) => check_listing(e.as_signature(), &tree(sp.2), &what).map_err(tell)?,
                Err(e) => ensure!(!plain, "{}", tell(format!("{} cannot be listed: {}", what, e))),
            }
            match s.manifest() {
                Ok(m) => check_manifest(&m, &made[&sp].4).map_err(|e| tell(format!("manifest of {}: {}", what, e)))?,
                Err(e) => ensure!(!files.contains_key(&made[&sp].2), "{}", tell(format!("manifest of {}: {}", what, e))),
            }
            res.push((sp, s.entries().is_ok()));
        }
        ch.outcome(&res);
        Ok(())
    };
    c.explore("overlapping", "every assignment of {absent, whole, without signature, without manifest} to the full and incremental spans over 3 instants", Opt::default(), &|ch| overlap(ch, 3, true));
    let any = c.by_tier(false, true);
    c.explore("overlapping_more", &format!("every assignment of {{absent, whole, without signature{}}} to the full and incremental spans over 4 instants", if any { ", without manifest" } else { "" }), Opt::default(), &|ch| overlap(ch, 4, any));
    // long chains with a gap far from their start
    let lens = c.by_tier(vec![20usize, 66, 130, 260, 400], vec![20, 34, 66, 130, 260, 514, 1030, 2050, 4100]);
    c.explore("long_gaps", &format!("chains of {:?} snapshots in which one signature file is missing, two are replaced by one that spans both, or one ends at another instant, at the start, the end and around every power of two", lens), Opt::default(), &|ch| {
        let n = *ch.of(&lens);
        let mut at_: Vec<usize> = vec![1, 2, n / 2, n - 2, n - 1];
        let mut p = 4;
        while p + 2 < n {
            at_.extend([p - 1, p, p + 1]);
            p *= 2;
        }
        at_.sort();
        at_.dedup();
        let p = *ch.of(&at_);
        let how = ch.pick(3);
        let mut files = BTreeMap::new();
        super::c19::write_chain(&mut files, 0, n);
        let sig = |s: usize, e: usize| newsig_name(at(s as i64), at(e as i64), "sigtar");
        let lone = files.remove(&sig(p - 1, p)).ok_or("no such file")?;
        if how == 1 && p + 1 < n {
            let next = files.remove(&sig(p, p + 1)).ok_or("no such file")?;
            files.insert(sig(p - 1, p + 1), next);
        }
        if how == 2 {
            // taken ten seconds later than the backup it belongs to, followed by the others
            let other = at(p as i64) + 10;
            files.insert(newsig_name(at(p as i64 - 1), other, "sigtar"), lone);
            if p + 1 < n {
                let next = files.remove(&sig(p, p + 1)).ok_or("no such file")?;
                files.insert(newsig_name(other, at(p as i64 + 1), "sigtar"), next);
            }
        }
        ch.state(&(n, p, how));
        ch.nontrivial();
        ch.note(|| format!("{} snapshots, signature {} (way {})", n, p, how));
        let b = Backup::new(Mem::new(&files)).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        // files of other times make snapshots of their own, of which no more is asked than an answer
        ensure!(how > 0 || snaps.len() == n, "{} snapshots instead of {}", snaps.len(), n);
        let mut probes: Vec<usize> = at_.iter().flat_map(|q| [q - 1, *q]).chain([p - 1, p, (p + 1).min(n - 1), n - 1]).collect();
        probes.sort();
        probes.dedup();
        let mut shown = 0;
        for (k, s) in snaps.iter().enumerate() {
            let i = ((s.time().sec - at(0)) / (at(1) - at(0))) as usize;
            if s.time().sec != at(i as i64) || i > p {
                if k + 3 > snaps.len() || (k > p && k < p + 5) {
                    let e = s.entries();
                    ensure!(how > 0 || e.is_err(), "snapshot {} of {} without the signature file of {}: entries are shown", i, n, p);
                }
                continue;
            }
            if probes.binary_search(&i).is_err() {
                continue;
            }
            let what = format!("snapshot {} of {} without the signature file of {} (way {})", i, n, p, how);
            match s.entries() {
                Ok(e) => {
                    shown += 1;
                    ensure!(i < p, "{}: entries are shown", what);
                    check_listing(e.as_signature(), &super::c19::tree(i), &what)?
                }
                Err(e) => ensure!(i >= p, "{}: {}", what, e),
            }
        }
        ch.outcome(&(n, p, how, shown));
        Ok(())
    });
}

//! C05: every snapshot lists exactly the tree that was backed up.
use crate::engine::*;
use crate::world::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use ruplicity::Backup;

/// What can be at one place: nothing, or a node of some kind and revision, with children if it is a directory.
struct Place {
    name: &'static [u8],
    /// alternatives besides "absent"
    alts: Vec<(Kind, u64)>,
    /// asked for when this place holds a directory
    below: Vec<Place>,
}
fn pl(name: &'static [u8], alts: &[(Kind, u64)], below: Vec<Place>) -> Place {
    Place { name, alts: alts.to_vec(), below }
}

fn grow(ch: &mut Ch, at: &Comps, places: &[Place], t: &mut Tree) {
    for p in places {
        let k = ch.pick(p.alts.len() + 1);
        if k == 0 {
            continue;
        }
        let (kind, rev) = p.alts[k - 1];
        let mut path = at.clone();
        path.push(p.name.to_vec());
        t.insert(path.clone(), Node::new(kind, rev));
        if kind == Kind::Dir {
            grow(ch, &path, &p.below, t);
        }
    }
}

use Kind::*;
/// (name, places under the root, tree count)
fn alphabets() -> Vec<(&'static str, Vec<Place>)> {
    let long: &'static [u8] = Box::leak(vec![b'l'; 120].into_boxed_slice());
    let long2: &'static [u8] = Box::leak([vec![b'l'; 120], b".x".to_vec()].concat().into_boxed_slice());
    vec![
        // byte order: a < a.b < a/b; path order: a < a/b < a.b
        ("dot_before_slash", vec![pl(b"a", &[(File, 0), (File, 1), (Dir, 0)], vec![pl(b"b", &[(File, 0)], vec![])]), pl(b"a.b", &[(File, 0), (Sym, 1)], vec![])]),
        ("space_and_digit", vec![pl(b"a", &[(Dir, 0)], vec![pl(b"x", &[(File, 0), (File, 1)], vec![])]), pl(b"a b", &[(File, 0)], vec![]), pl(b"a0", &[(Fifo, 0)], vec![])]),
        ("nested", vec![pl(b"d", &[(File, 0), (Dir, 0)], vec![pl(b"d", &[(Dir, 0)], vec![pl(b"e", &[(File, 0)], vec![])]), pl(b"d-e", &[(File, 0)], vec![])]), pl(b"d-e", &[(Dir, 0)], vec![])]),
        ("reserved_words", vec![pl(b"deleted", &[(Dir, 0)], vec![pl(b"signature", &[(File, 0)], vec![])]), pl(b"signature", &[(File, 0), (File, 1)], vec![]), pl(b"snapshot", &[(Dir, 0)], vec![pl(b"deleted", &[(Sym, 0)], vec![])])]),
        ("not_utf8", vec![pl(b"\xc3", &[(File, 0)], vec![]), pl(b"\xc3\xa9", &[(Dir, 0)], vec![pl(b"\x80", &[(File, 0), (File, 1)], vec![])]), pl(b"\xff", &[(File, 0), (Sym, 0)], vec![])]),
        ("long_names", vec![pl(long, &[(File, 0), (Dir, 0)], vec![pl(b"x", &[(File, 0), (File, 1)], vec![])]), pl(long2, &[(File, 0), (Sym, 1)], vec![])]),
        ("spaces_dots", vec![pl(b" ", &[(File, 0), (File, 1)], vec![]), pl(b"...", &[(Dir, 0)], vec![pl(b"..x", &[(File, 0)], vec![])]), pl(b".a", &[(File, 0), (Dir, 1)], vec![])]),
        ("siblings", ["b", "c", "e", "g"].iter().map(|n| pl(n.as_bytes(), &[(File, 0)], vec![])).collect()),
        ("case", vec![pl(b"A", &[(File, 0)], vec![]), pl(b"Z", &[(File, 0), (Dir, 0)], vec![pl(b"a", &[(File, 0)], vec![])]), pl(b"a", &[(File, 0), (File, 1)], vec![])]),
    ]
}

/// A signature chain of a full and n-1 incrementals, taken once from real file names.
pub fn chain_of(n: usize, tail: &str) -> (Collections, Vec<String>) {
    let names: Vec<String> = (0..n as i64).map(|i| if i == 0 { fullsig_name(at(0), tail) } else { newsig_name(at(i - 1), at(i), tail) }).collect();
    (Collections::from_filenames(&names), names)
}

pub fn check_chain(coll: &Collections, names: &[String], trees: &[Tree], dialect: Dialect, gzl: Option<u32>) -> R {
    let mut files = std::collections::BTreeMap::new();
    for (i, t) in trees.iter().enumerate() {
        let tar = sigtar(&diff(if i == 0 { None } else { Some(&trees[i - 1]) }, t), dialect);
        files.insert(names[i].clone(), std::sync::Arc::new(match gzl {
            Some(l) => gz(&tar, l),
            None => tar,
        }));
    }
    let mem = Mem::new(&files);
    let chain = Chain::from_sigchain(coll.signature_chains().next().unwrap(), &mem).map_err(|e| format!("reading a good signature chain failed: {}", e))?;
    ensure_eq!(chain.snapshots().count(), trees.len(), "number of snapshots in the chain");
    for (i, s) in chain.snapshots().enumerate() {
        check_listing(s.files(), &trees[i], &format!("snapshot {} of {}", i, trees.len()))?;
    }
    Ok(())
}

fn explain(trees: &[Tree]) -> String {
    trees.iter().map(|t| show(&expected_listing(t))).collect::<Vec<_>>().join("  ==>  ")
}

pub fn run(c: &mut Ctx) {
    c.rule = "the tree changes at least once in the history".into();
    c.assumptions = vec![
        "the writer follows duplicity: records in component-wise path order, one record per changed path, every path below a removed directory recorded as deleted".into(),
    ];
    // number of trees over a list of places
    fn count(places: &[Place]) -> u64 {
        places.iter().map(|p| 1 + p.alts.iter().map(|a| if a.0 == Dir { count(&p.below) } else { 1 }).sum::<u64>()).product()
    }
    super::fixtures::archives(c);
    let budget = c.by_tier(300_000u64, 6_000_000);
    let (coll, names) = chain_of(16, "sigtar");
    let dialects = [Dialect::Gnu, Dialect::Pax, Dialect::GnuNoSlash];
    for (name, places) in alphabets() {
        let k = count(&places);
        let d = (2..).take_while(|d| k.pow(*d) <= budget).last().unwrap() as usize;
        let (coll_d, _) = chain_of(d, "sigtar");
        c.explore(name, &format!("every history of {} trees over the name alphabet '{}'", d, name), Opt::default(), &|ch| {
            let mut trees = vec![];
            for i in 0..d {
                let mut t = Tree::new();
                // the root is always there and changes with every second backup
                t.insert(vec![], Node::new(Dir, i as u64 / 2));
                grow(ch, &vec![], &places, &mut t);
                ch.state(&(i, &t));
                trees.push(t);
            }
            if trees.windows(2).any(|w| w[0] != w[1]) {
                ch.nontrivial();
            }
            ch.note(|| explain(&trees));
            let dialect = dialects[trees[0].len() % 3];
            ch.outcome(&trees);
            check_chain(&coll_d, &names, &trees, dialect, None).map_err(|e| format!("{}\n  history: {}", e, explain(&trees)))
        });
    }
    // one path over a long history, with neighbours that never change
    let n = c.by_tier(7, 8);
    let (coll_n, _) = chain_of(n, "sigtar");
    c.explore("one_path_long", &format!("every sequence of states of one path over {} backups, with constant and changing neighbours", n), Opt::default(), &|ch| {
        let mut trees = vec![];
        for i in 0..n {
            let mut t = Tree::new();
            t.insert(comps("m"), Node::new(Dir, 0));
            t.insert(comps("m.z"), Node::new(File, 0));
            t.insert(comps("n"), Node::new(File, i as u64 % 2));
            match ch.pick(4) {
                0 => {}
                1 => drop(t.insert(comps("m/k"), Node::new(File, 1))),
                2 => drop(t.insert(comps("m/k"), Node::new(File, 2))),
                _ => {
                    t.insert(comps("m/k"), Node::new(Dir, 3));
                    t.insert(comps("m/k/l"), Node::new(Sym, 3));
                }
            }
            ch.state(&(i, &t));
            trees.push(t);
        }
        ch.nontrivial();
        ch.note(|| explain(&trees));
        ch.outcome(&trees);
        check_chain(&coll_n, &names, &trees, Dialect::Gnu, None).map_err(|e| format!("{}\n  history: {}", e, explain(&trees)))
    });
    // one path recorded by very many backups
    let lens: Vec<usize> = c.by_tier((8..=20).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258]).collect(), (8..=140).chain([254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025]).collect());
    let chains: Vec<Collections> = lens.iter().map(|n| chain_of(*n, "sigtar").0).collect();
    let (_, all_names) = chain_of(*lens.last().unwrap(), "sigtar");
    c.explore("long_histories", &format!("{:?} backups of paths that are changed, or removed and created again, by every backup, every 2nd, 3rd or n/2-th, or only by the first or the last ones; every backup listed", lens), Opt::default(), &|ch| {
        let k = ch.pick(lens.len());
        let n = lens[k];
        let period = *ch.of(&[1usize, 2, 3, n / 2]);
        let off = ch.pick(period.min(3));
        let toggles = ch.flag();
        let mut trees = vec![];
        let (mut rev, mut there) = (0, true);
        for i in 0..n {
            if i % period == off {
                rev = i as u64;
                there = !toggles || !there;
            }
            let mut t = Tree::new();
            t.insert(vec![], Node::new(Dir, 0));
            t.insert(comps("a"), Node::new(File, i.min(9) as u64));
            t.insert(comps("c"), Node::new(File, i.max(n.saturating_sub(9)) as u64));
            if there {
                t.insert(comps("b"), Node::new(if i % 7 == 3 { Sym } else { File }, rev));
                t.insert(comps("b.d"), Node::new(File, rev));
            }
            trees.push(t);
        }
        ch.state(&(n, period, off, toggles));
        ch.outcome(&(n, period, off, toggles));
        ch.nontrivial();
        ch.note(|| format!("{} backups, a change every {} from {}{}", n, period, off, if toggles { ", removing or creating" } else { "" }));
        check_chain(&chains[k], &all_names, &trees, Dialect::Gnu, None).map_err(|e| format!("{} backups, a change every {} from {}: {:.2000}", n, period, off, e))
    });
    // few changes among many paths: positions in the merge
    let m = c.by_tier(9, 11);
    let (coll3, _) = chain_of(3, "sigtar");
    c.explore("merge_positions", &format!("every pair of subsets (changed in the 2nd, changed in the 3rd backup) of {} ordered paths in a row, changed meaning created, removed or modified", m), Opt::default(), &|ch| {
        let pool = ["a", "a/a", "a/b", "a/b/c", "a!", "a!/x", "a-", "a.b", "a/", "aa", "b", "b/a", "b c", "c"];
        let paths: Vec<Comps> = pool.iter().filter(|p| !p.ends_with('/')).take(m).map(|p| comps(p)).collect();
        let mut t = Tree::new();
        for (i, p) in paths.iter().enumerate() {
            if i % 3 != 2 {
                t.insert(p.clone(), Node::new(File, 0));
            }
        }
        let mut trees = vec![t.clone()];
        for r in 1..3u64 {
            for (i, p) in paths.iter().enumerate() {
                if ch.flag() {
                    match (t.contains_key(p), (i as u64 + r) % 2) {
                        (true, 0) => drop(t.remove(p)),
                        _ => drop(t.insert(p.clone(), Node::new(File, r))),
                    }
                }
            }
            ch.state(&(r, &t));
            trees.push(t.clone());
        }
        ch.nontrivial();
        ch.note(|| explain(&trees));
        ch.outcome(&trees);
        check_chain(&coll3, &names, &trees, Dialect::Gnu, None).map_err(|e| format!("{}\n  history: {}", e, explain(&trees)))
    });
    // many paths, a run of them changing in each backup
    let counts = c.by_tier(vec![31usize, 32, 33, 64, 65, 127, 129, 255, 257, 513, 1025], vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097, 8193]);
    c.explore("many_paths", &format!("{:?} paths in directories of ten; in the 2nd and in the 3rd backup a run of them (one, a few, half, all but one, all; at the start, in the middle, at the end) is created, removed or modified", counts), Opt::default(), &|ch| {
        let n = *ch.of(&counts);
        let path = |i: usize| comps(&format!("d{:04}/f{}", i / 10, i % 10));
        let all: Vec<usize> = (0..n).collect();
        // the paths of the last run created later do not exist at first
        let mut trees = vec![];
        let mut runs = vec![];
        for r in 1..3u64 {
            let len = *ch.of(&[1, 7, n / 2, n - 1, n]);
            let from = if len == n { 0 } else { [0, (n - len) / 2, n - len][ch.pick(3)] };
            runs.push((from, len.min(n), ch.pick(3), r));
        }
        let mut t = Tree::new();
        for i in &all {
            let absent = runs.iter().find(|(f, l, _, _)| *i >= *f && *i < f + l).map_or(false, |r| r.2 == 0);
            if !absent {
                t.insert(path(*i), Node::new(File, 0));
            }
        }
        trees.push(t.clone());
        for (from, len, what, r) in &runs {
            for i in *from..from + len {
                if *what == 1 {
                    t.remove(&path(i));
                } else {
                    t.insert(path(i), Node::new(File, *r));
                }
            }
            trees.push(t.clone());
        }
        ch.state(&(n, &runs));
        ch.outcome(&(n, &runs));
        ch.nontrivial();
        ch.note(|| format!("{} paths, runs of changes (from, length, 0 created 1 removed 2 modified, backup) {:?}", n, runs));
        check_chain(&coll3, &names, &trees, Dialect::Gnu, None).map_err(|e| format!("{} paths, {:?}: {:.2000}", n, runs, e))
    });
    // as many paths as a large backup has
    let huge: Vec<usize> = c.by_tier(vec![4096, 4097, 16_385, 32_769, 65_537, 70_001], vec![4095, 4096, 4097, 8191, 8192, 8193, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001, 100_001, 131_073]);
    c.explore("huge_trees", &format!("{:?} paths; the 2nd backup removes, creates or changes one at the start, around the middle or at the end, every second, all or none, the 3rd reverts half of that", huge), Opt { threads: 4, ..Opt::default() }, &|ch| {
        let n = *ch.of(&huge);
        let path = |i: usize| comps(&format!("d{:04}/f{:02}", i / 100, i % 100));
        let shape = ch.pick(4);
        let what = ch.pick(3);
        let hit: Vec<usize> = match shape {
            0 => vec![0, n - 1],
            1 => [n / 2, 4095, 4096, 8191, 8192, 16_383, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536].into_iter().filter(|i| *i < n).collect(),
            2 => (0..n).step_by(2).collect(),
            _ => (0..n).collect(),
        };
        // a tree of which nothing is kept need not be removed and created and changed at each size
        if shape == 3 && what == 0 && n % 4 == 0 {
            return Ok(());
        }
        let mut t: Tree = (0..n).map(|i| (path(i), Node::new(File, 0))).collect();
        if what == 1 {
            for i in &hit {
                t.remove(&path(*i));
            }
        }
        let mut trees = vec![t.clone()];
        for i in &hit {
            if what == 0 {
                t.remove(&path(*i));
            } else {
                t.insert(path(*i), Node::new(File, 1));
            }
        }
        trees.push(t.clone());
        for i in hit.iter().step_by(2) {
            if what == 1 {
                t.remove(&path(*i));
            } else {
                t.insert(path(*i), Node::new(File, 2));
            }
        }
        trees.push(t);
        ch.state(&(n, shape, what));
        ch.outcome(&(n, shape, what));
        ch.nontrivial();
        check_chain(&coll3, &names, &trees, Dialect::Gnu, None).map_err(|e| format!("{} paths, shape {}, change {}: {:.2000}", n, shape, what, e))
    });
    // long and deep paths
    let depths = c.by_tier(vec![1usize, 2, 15, 16, 17, 33, 64, 127, 128, 129, 257, 1025, 2049], (1..=130).chain([255, 256, 257, 511, 513, 1000, 1025, 2049]).collect());
    let widths = c.by_tier(vec![1usize, 2, 98, 99, 100, 101, 154, 155, 156, 254, 255, 256, 1000, 1025, 4096, 4097], (1..=300).chain([510, 511, 512, 513, 1000, 1023, 1024, 1025, 4094, 4095, 4096, 4097]).collect());
    for (name, sizes) in [("deep_paths", depths), ("long_components", widths)] {
        c.explore(name, &format!("three backups of two paths that share all but the last of {} sizes up to {} and differ before, at or after it, with every choice of present or absent, in both dialects", sizes.len(), sizes.last().unwrap()), Opt::default(), &|ch| {
            let k = *ch.of(&sizes);
            let dialect = if ch.flag() { Dialect::Pax } else { Dialect::Gnu };
            let shared: Comps = if name == "deep_paths" { vec![b"d".to_vec(); k] } else { vec![vec![b'n'; k]] };
            let other: Comps = match ch.pick(4) {
                // a child, a sibling that differs at the last byte, one that is longer, one that is shorter
                0 => [shared.clone(), vec![b"x".to_vec()]].concat(),
                1 => { let mut s = shared.clone(); *s.last_mut().unwrap().last_mut().unwrap() = b'.'; s }
                2 => { let mut s = shared.clone(); s.last_mut().unwrap().push(b'!'); s }
                _ => { let mut s = shared.clone(); if s.len() > 1 { s.pop(); } else { s[0].pop(); } s }
            };
            let mut trees = vec![];
            for r in 0..3u64 {
                let mut t = Tree::new();
                t.insert(comps("zz"), Node::new(File, 0));
                let which = ch.pick(4);
                for (bit, p) in [(1, &shared), (2, &other)] {
                    if which & bit != 0 && !p[0].is_empty() {
                        t.insert(p.clone(), Node::new(Dir, r));
                    }
                }
                trees.push(t);
            }
            ch.state(&trees);
            ch.outcome(&trees);
            ch.nontrivial();
            check_chain(&coll3, &names, &trees, dialect, None).map_err(|e| format!("size {}: {:.2000}", k, e))
        });
    }
    // every pattern of records, whatever a differ would write: the last one at or before a snapshot counts
    for (name, paths, snaps) in c.by_tier(vec![("records_3x3", 3usize, 3usize), ("records_2x4", 2, 4), ("records_1x8", 1, 8)], vec![("records_4x3", 4, 3), ("records_3x4", 3, 4), ("records_2x5", 2, 5), ("records_1x10", 1, 10)]) {
        let (coll_r, _) = chain_of(snaps, "sigtar");
        c.explore(name, &format!("every assignment of a record (none, signature, snapshot, deletion) to {} paths in {} backups", paths, snaps), Opt::default(), &|ch| {
            let pool = ["a", "a/b", "a.b", "c"];
            let mut trees: Vec<Tree> = vec![];
            let mut files = std::collections::BTreeMap::new();
            let mut t = Tree::new();
            for i in 0..snaps {
                let mut recs = vec![];
                for p in &pool[..paths] {
                    let (d, node) = match ch.pick(4) {
                        0 => continue,
                        1 => (Diff::Signature, Some(Node::new(File, i as u64 + 1))),
                        2 => (Diff::Snapshot, Some(Node::new(if i % 2 == 0 { Sym } else { Dir }, i as u64 + 1))),
                        _ => (Diff::Deleted, None),
                    };
                    match &node {
                        Some(n) => drop(t.insert(comps(p), n.clone())),
                        None => drop(t.remove(&comps(p))),
                    }
                    recs.push(Rec { diff: d, path: comps(p), node, block_len: BLOCK, strong: 8 });
                }
                recs.sort_by(|a, b| a.path.cmp(&b.path));
                files.insert(names[i].clone(), std::sync::Arc::new(sigtar(&recs, Dialect::Gnu)));
                ch.state(&(i, &t));
                trees.push(t.clone());
            }
            ch.nontrivial();
            ch.note(|| explain(&trees));
            ch.outcome(&trees);
            let chain = Chain::from_sigchain(coll_r.signature_chains().next().unwrap(), &Mem::new(&files)).map_err(|e| format!("reading a good signature chain failed: {}", e))?;
            ensure_eq!(chain.snapshots().count(), trees.len(), "number of snapshots in the chain");
            for (i, s) in chain.snapshots().enumerate() {
                check_listing(s.files(), &trees[i], &format!("snapshot {} of {}", i, trees.len())).map_err(|e| format!("{}\n  history: {}", e, explain(&trees)))?;
            }
            Ok(())
        });
    }
    // end to end: arrangements of full and incremental backups, through names, gzip and Backup
    let k = c.by_tier(3, 4);
    c.explore("arrangements", &format!("every arrangement of full/incremental over every history of {} backups, end to end", k + 1), Opt::default(), &|ch| {
        let mut repo = Repo::default();
        for i in 0..=k {
            let full = i == 0 || ch.flag();
            let mut t = Tree::new();
            t.insert(vec![], Node::new(Dir, 0));
            for (n, rev) in [("a", 1), ("a.b", 2), ("c", 3)] {
                // the last backup of a long history changes two paths only
                if ch.flag() {
                    t.insert(comps(n), Node::new(if n == "c" { Sym } else { File }, rev));
                }
            }
            if t.contains_key(&comps("a")) && (i + t.len() as i64) % 2 == 0 {
                t.insert(comps("a"), Node::new(Dir, i as u64));
                t.insert(comps("a/x"), Node::new(File, i as u64));
            }
            ch.state(&(i, full, &t));
            repo.backup(full, at(i), t, 1, &SigStyle { dialect: dialects[i as usize % 3], gz: if i % 2 == 0 { Some(1) } else { None } });
        }
        ch.nontrivial();
        let fulls: Vec<bool> = repo.snaps.iter().map(|s| s.full).collect();
        let trees: Vec<Tree> = repo.snaps.iter().map(|s| s.tree.clone()).collect();
        ch.note(|| format!("full {:?}: {}", fulls, explain(&trees)));
        ch.outcome(&(&fulls, &trees));
        let b = Backup::new(Mem::new(&repo.files)).map_err(|e| e.to_string())?;
        let mut n = 0;
        for (s, w) in b.snapshots().map_err(|e| e.to_string())?.into_iter().zip(&repo.snaps) {
            ensure_eq!((s.time().sec, s.is_full(), s.is_incremental()), (w.end, w.full, !w.full), "snapshot {}", n);
            let e = s.entries().map_err(|e| format!("snapshot {}: {}", n, e))?;
            check_listing(e.as_signature(), &w.tree, &format!("snapshot {} (full: {:?}; history {})", n, fulls, explain(&trees)))?;
            n += 1;
        }
        ensure_eq!(n, repo.snaps.len(), "number of snapshots");
        ensure_eq!(b.snapshots().unwrap().into_iter().count(), repo.snaps.len(), "number of snapshots");
        Ok(())
    });
    let _ = coll;
}

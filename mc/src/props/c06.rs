//! C06: entry metadata is what the snapshot recorded.
use super::c05::{chain_of, check_chain};
use crate::engine::*;
use crate::world::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;

fn name_of(n: usize) -> Vec<u8> {
    match n {
        0 => vec![],
        1 => b"root".to_vec(),
        2 => vec![b'u'; 31],
        3 => "d\u{e9}j\u{e0}".as_bytes().to_vec(),
        // no room for a final NUL; not text; too long for the header, with and without other characters
        4 => vec![b'v'; 32],
        5 => b"\xff\xfe".to_vec(),
        6 => b"a rather long name that is not shortened".to_vec(),
        8 => " \u{e9}\u{a0}".as_bytes().to_vec(),
        _ => "trop long pour un en-t\u{ea}te, et accentu\u{e9}".as_bytes().to_vec(),
    }
}

fn read_one(coll: &Collections, names: &[String], n: &Node, path: &[u8]) -> Result<Vec<Seen>, String> {
    let rec = Rec { diff: Diff::Snapshot, path: vec![path.to_vec()], node: Some(n.clone()), block_len: BLOCK, strong: 8 };
    let files = [(names[0].clone(), std::sync::Arc::new(sigtar(&[rec], Dialect::Pax)))].into_iter().collect();
    let chain = Chain::from_sigchain(coll.signature_chains().next().unwrap(), &Mem::new(&files)).map_err(|e| e.to_string())?;
    let v = chain.snapshots().next().map(|s| s.files().map(|e| seen(&e)).collect()).ok_or("no snapshot")?;
    Ok(v)
}

pub fn run(c: &mut Ctx) {
    c.rule = "some recorded value differs from the default node".into();
    c.assumptions = vec![
        "within one backup a numeric id has one name, as duplicity looks it up in one user database".into(),
        "GNU archives hold names of up to 32 bytes; pax archives hold in records whatever does not fit the header, as python's tarfile writes them; names that are not UTF-8 count as not recorded".into(),
    ];
    let (coll1, names) = chain_of(1, "sigtar");
    let one = |n: Node, path: Comps, d: Dialect| -> R {
        let mut t = Tree::new();
        t.insert(path, n);
        check_chain(&coll1, &names, &[t], d, None)
    };
    let uids: Vec<u64> = c.by_tier(vec![0, 1000, 65534, 0o7777777, 0o10000000, u32::MAX as u64], vec![0, 1, 1000, 65534, 0o7777777, 0o10000000, u32::MAX as u64, 1 << 32, 1 << 40, (1 << 62) + 5]);
    let modes: Vec<u32> = c.by_tier(vec![0, 0o644, 0o755, 0o7777, 0o4755, 0o1777], vec![0, 1, 0o10, 0o100, 0o400, 0o644, 0o755, 0o777, 0o1777, 0o2755, 0o4755, 0o7777, 0o100644, 0o7777777]);
    c.explore("owners", "every combination of kind, mode, uid, gid, user name, group name, dialect over edge values", Opt::default(), &|ch| {
        let mut n = Node::new(*ch.of(&KINDS), 1);
        n.mode = *ch.of(&modes);
        n.uid = *ch.of(&uids);
        n.gid = *ch.of(&uids);
        let d = *ch.of(&[Dialect::Gnu, Dialect::Pax]);
        if d == Dialect::Gnu && n.uid.max(n.gid) >> 56 != 0 {
            return Ok(());
        }
        // a header holds 32 bytes of a name, a pax record any
        let k = if d == Dialect::Gnu { 6 } else { 9 };
        n.uname = name_of(ch.pick(k));
        n.gname = name_of(ch.pick(k));
        ch.state(&n);
        ch.nontrivial();
        ch.note(|| format!("{:?}", n));
        ch.outcome(&n);
        if n.kind == Kind::Hard {
            n.link = b"other".to_vec();
        }
        one(n, comps("f"), d)
    });
    c.explore("modes", "every one of the 4096 permission values for every kind", Opt::default(), &|ch| {
        let mut n = Node::new(*ch.of(&KINDS), 0);
        n.mode = ch.pick(4096) as u32;
        ch.state(&n);
        ch.nontrivial();
        ch.outcome(&n.mode);
        one(n, comps("f"), Dialect::Gnu)
    });
    // ids and times one by one
    let powers = |max: u32| -> Vec<u64> { (0..max).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]).collect() };
    // the 8-byte field of GNU tar holds 56 bits, a pax record any number
    let edge_ids = [powers(56), powers(63)];
    let low = c.by_tier(0x40000usize, 0x400000);
    c.explore("ids", &format!("every user and group id below {} and around every power of two up to 2^55 (GNU) or 2^62 (pax)", low), Opt::default(), &|ch| {
        let block = ch.pick(low / 64 + 2);
        let v: Vec<u64> = if block >= low / 64 { edge_ids[block % 2].clone() } else { (block as u64 * 64..block as u64 * 64 + 64).collect() };
        let mut t = Tree::new();
        let n = v.len();
        for (i, id) in v.iter().enumerate() {
            let mut x = Node::new(KINDS[i % 4], 0);
            x.uid = *id;
            x.gid = v[n - 1 - i];
            // an id has one name within a backup
            x.uname = if id % 3 == 0 { vec![] } else { format!("u{}", id).into_bytes() };
            x.gname = if x.gid % 3 == 1 { vec![] } else { format!("g{}", x.gid).into_bytes() };
            t.insert(vec![format!("{:05}", i).into_bytes()], x);
        }
        ch.state(&v);
        ch.nontrivial();
        ch.outcome(&v);
        check_chain(&coll1, &names, &[t], [Dialect::Gnu, Dialect::Pax][block % 2], None)
    });
    let edge_times: Vec<i64> = powers(60).into_iter().map(|v| v as i64).chain(powers(40).into_iter().map(|v| -(v as i64))).collect();
    c.explore("mtimes", "every modification time around every power of two from -2^40 to 2^59, each for every kind", Opt::default(), &|ch| {
        let mut n = Node::new(*ch.of(&KINDS), 0);
        n.mtime = *ch.of(&edge_times);
        ch.state(&n);
        ch.nontrivial();
        ch.outcome(&n.mtime);
        one(n, comps("f"), *ch.of(&[Dialect::Gnu, Dialect::Pax]))
    });
    let long = |k: usize| -> Vec<u8> { (0..k).map(|i| b"abcdefghij"[i % 10]).collect() };
    let deep: Comps = (0..40).map(|i| long(3 + i % 5)).collect();
    let mut paths: Vec<Comps> = vec![
        vec![], comps("a"), comps("a b/c\td"), vec![b"\xff\xfe".to_vec(), b"\x80".to_vec()], vec![long(88)], vec![long(89)], vec![long(90)], vec![long(91)], vec![long(92)], vec![long(100)], vec![long(250)], deep,
        comps("snapshot/deleted/signature"), vec![b"new\nline".to_vec(), b"q\"'\\".to_vec()], vec![vec![0xc3, 0x28], b"  ".to_vec()],
    ];
    if c.thorough() {
        paths.extend((85..=110).map(|k| vec![long(k)]));
        paths.extend((1..=255u8).filter(|b| *b != b'/').map(|b| vec![vec![b'x', b]]));
        paths.push((0..400).map(|i| long(1 + i % 7)).collect());
    }
    let links: Vec<Vec<u8>> = vec![b"t".to_vec(), long(99), long(100), long(101), long(300), b"\xff/\xfe".to_vec(), b"../a b".to_vec(), b"dir/".to_vec(), b"/".to_vec(), b"./a//b/.".to_vec(), b" t ".to_vec(), [long(120), b"/".to_vec()].concat()];
    let times: Vec<i64> = vec![0, 1, 1_434_565_545, 0o77777777777, 0o100000000000, -1, -86_400 * 365];
    c.explore("paths", "every combination of kind, path shape, link target, modification time and dialect", Opt::default(), &|ch| {
        let kind = *ch.of(&KINDS[..5]);
        let p = ch.of(&paths).clone();
        let mut n = Node::new(kind, 1);
        n.mtime = *ch.of(&times);
        if kind == Kind::Sym {
            n.link = ch.of(&links).clone();
        }
        let d = *ch.of(&[Dialect::Gnu, Dialect::Pax, Dialect::GnuNoSlash]);
        ch.state(&(&p, &n));
        ch.nontrivial();
        ch.note(|| format!("{} {:?}", String::from_utf8_lossy(&join(&p)), n));
        ch.outcome(&(&p, &n));
        one(n, p, d)
    });
    c.explore("ustar_prefix", "paths split between the ustar name and prefix fields at every length", Opt::default(), &|ch| {
        let a = 1 + ch.pick(120);
        let b = *ch.of(&[1usize, 50, 90, 99]);
        let n = Node::new(*ch.of(&[Kind::File, Kind::Sym]), 1);
        ch.state(&(a, b));
        ch.nontrivial();
        ch.outcome(&(a, b));
        one(n, vec![long(a), long(b)], Dialect::Ustar)
    });
    // texts of every length
    let lens: Vec<usize> = c.by_tier((1..=300).chain([499, 500, 501, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 131_073, 1_048_577]).collect(), (1..=1100).chain([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10_000, 65_535, 65_536, 65_537, 131_071, 131_072, 131_073, 262_145, 524_289, 1_048_575, 1_048_576, 1_048_577, 4_194_305]).collect());
    c.explore("lengths", &format!("a path, a link target, a user name and a group name of {} lengths up to {}", lens.len(), lens.last().unwrap()), Opt::default(), &|ch| {
        let k = *ch.of(&lens);
        let d = *ch.of(&[Dialect::Gnu, Dialect::Pax]);
        let mut n = Node::new(Kind::Sym, 1);
        let mut p = comps("p");
        match ch.pick(5) {
            0 => p = vec![long(k)],
            1 => n.link = long(k),
            // a header holds 32 bytes of a name
            2 if k <= 32 || d == Dialect::Pax => n.uname = long(k),
            3 if k <= 32 || d == Dialect::Pax => n.gname = long(k),
            4 if k <= 1100 => {
                // everything at once
                p = vec![long(k), long(k)];
                n.link = long(k + 1);
                n.uname = long(k.min(32));
                n.gname = long(k.min(31));
            }
            _ => return Ok(()),
        }
        ch.state(&(k, &p, &n));
        ch.nontrivial();
        ch.outcome(&(k, &p, &n));
        one(n, p, d)
    });
    let many = c.by_tier(vec![15usize, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 65_537], vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4097, 8193, 16_385, 65_537]);
    c.explore("many_owners", &format!("{:?} entries of as many users and groups, with ids rising, falling or spread, each with a name of its own, in one backup or renamed by a second", many), Opt::default(), &|ch| {
        let k = *ch.of(&many);
        let how = ch.pick(3);
        let backups = 1 + ch.pick(2);
        let id = |i: usize| -> u64 {
            match how {
                0 => i as u64,
                1 => (k - i) as u64,
                _ => (i as u64).wrapping_mul(0x9e37_79b1) & 0xffff_ffff,
            }
        };
        let mut trees = vec![];
        for b in 0..backups {
            let mut t = Tree::new();
            for i in 0..k {
                let mut n = Node::new(Kind::Dir, b as u64);
                n.uid = id(i);
                n.gid = id(k - 1 - i);
                n.uname = format!("u{}.{}", n.uid, b).into_bytes();
                n.gname = format!("g{}.{}", n.gid, b).into_bytes();
                t.insert(comps(&format!("{:06}", i)), n);
            }
            trees.push(t);
        }
        ch.state(&(k, how, backups));
        ch.nontrivial();
        ch.outcome(&(k, how, backups));
        let coll = chain_of(backups, "sigtar").0;
        check_chain(&coll, &chain_of(backups, "sigtar").1, &trees, Dialect::Gnu, None).map_err(|e| format!("{} owners: {:.1000}", k, e))
    });
    // an id that is renamed again and again
    let most = c.by_tier(300usize, 1100);
    let (long_coll, long_names) = chain_of(most, "sigtar");
    let mut once: Vec<usize> = vec![0, 1, 2, 3, 5, most - 2, most - 1];
    once.extend((2..11).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]));
    once.retain(|j| *j < most);
    once.sort();
    once.dedup();
    c.explore("renamed_often", &format!("{} backups in which one path is recorded by every backup, or by every 1st/2nd/64th, with another name for the same id each time, and another path by one of {} backups", most, once.len()), Opt::default(), &|ch| {
        let j = *ch.of(&once);
        let every = *ch.of(&[1usize, 2, 64]);
        let named = ch.flag();
        let mut trees = vec![];
        let mut t = Tree::new();
        for b in 0..most {
            let mut n = Node::new(Kind::Dir, b as u64);
            n.uid = 7;
            n.gid = 8;
            n.uname = format!("u{}", b).into_bytes();
            n.gname = format!("g{}", b).into_bytes();
            if b % every == 0 {
                t.insert(comps("a"), n.clone());
            }
            if b == j {
                if !named {
                    n.gname = vec![];
                    if b % every == 0 {
                        // one name for an id
                        n.gid = 9;
                    }
                }
                t.insert(comps("b"), n);
            }
            trees.push(t.clone());
        }
        ch.state(&(j, every, named));
        ch.nontrivial();
        ch.outcome(&(j, every, named));
        check_chain(&long_coll, &long_names, &trees, Dialect::Gnu, None).map_err(|e| format!("recorded by backup {} and by every {}: {:.1000}", j, every, e))
    });
    // a pax record may hold line feeds
    let cap = c.by_tier(4, 6);
    c.explore("pax_line_feeds", &format!("paths and link targets in pax records: every string of up to {} characters over a letter, a line feed and a character that is not ASCII", cap), Opt::default(), &|ch| {
        let text = |ch: &mut Ch| -> Vec<u8> {
            let k = 1 + ch.pick(cap);
            let mut v = b"\xc3\xa9".to_vec();
            for _ in 0..k {
                v.extend_from_slice(*ch.of(&[&b"a"[..], b"\n", b"\xc3\xa9"]));
            }
            v
        };
        let mut n = Node::new(Kind::Sym, 1);
        n.uid = 1000;
        let which = ch.pick(2);
        let t = text(ch);
        let path = if which == 0 { t.clone() } else { b"p".to_vec() };
        if which == 1 {
            n.link = t.clone();
        }
        ch.state(&(which, &t));
        ch.nontrivial();
        ch.outcome(&(which, &t));
        let note = String::from_utf8_lossy(&t).into_owned();
        ch.note(|| format!("{:?}", note));
        match one(n.clone(), vec![path.clone()], Dialect::Pax) {
            Err(e) if t.contains(&b'\n') => {
                // is it just the header's text that is shown?
                let shown: Vec<u8> = t.iter().map(|c| if c.is_ascii() { *c } else { b'?' }).collect();
                let mut tree = Tree::new();
                let mut m = n.clone();
                if which == 1 {
                    m.link = shown.clone();
                }
                tree.insert(vec![if which == 0 { shown } else { path }], m);
                let got = read_one(&coll1, &names, &n, if which == 0 { &t } else { b"p" })?;
                if got == expected_listing(&tree) {
                    return Err(format!("a pax {} record with a line feed is ignored for the header's text: {:?}", ["path", "linkpath"][which], note));
                }
                Err(e)
            }
            r => r,
        }
    });
    // names and ids across records and snapshots
    let snaps = 3;
    let (coll3, names3) = chain_of(snaps, "sigtar");
    let ids = [1u64, 2];
    let (kq, kn) = c.by_tier((2usize, 3usize), (2, 4));
    c.explore("renamed_owners", "two paths over three backups, each re-recorded or not with every choice of owner id, the id's name being chosen for every backup (absent, same, changed)", Opt::default(), &|ch| {
        let mut trees: Vec<Tree> = vec![];
        for i in 0..snaps {
            // names of the two ids in this backup
            let un: Vec<Vec<u8>> = ids.iter().map(|_| [&b""[..], b"old", b"new", b"o"][ch.pick(kn)].to_vec()).collect();
            let mut t = if i == 0 { Tree::new() } else { trees[i - 1].clone() };
            for p in ["a", "b"] {
                let k = ch.pick(if i == 0 { kq } else { kq + 1 });
                if k == kq {
                    continue; // unchanged
                }
                let mut n = Node::new(if p == "a" { Kind::File } else { Kind::Dir }, i as u64);
                n.uid = ids[k];
                n.gid = ids[1 - k];
                n.uname = un[k].clone();
                n.gname = if un[1 - k].is_empty() { vec![] } else { [b"g".to_vec(), un[1 - k].clone()].concat() };
                t.insert(comps(p), n);
            }
            ch.state(&(i, &t));
            trees.push(t);
        }
        ch.nontrivial();
        let text = || trees.iter().map(|t| t.iter().map(|(p, n)| format!("{}:{}({})/{}({})", String::from_utf8_lossy(&join(p)), n.uid, String::from_utf8_lossy(&n.uname), n.gid, String::from_utf8_lossy(&n.gname))).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ==> ");
        ch.note(text);
        ch.outcome(&trees);
        check_chain(&coll3, &names3, &trees, Dialect::Gnu, None).map_err(|e| format!("{}\n  history: {}", e, text()))
    });
    // a record that differs from the one before in some aspects only, and not at all in the others
    c.explore("aspects", "one path re-recorded with every set of changed aspects (mode, time, user id, group id, user name, group name, length, link target), then with every other set", Opt::default(), &|ch| {
        let kind = *ch.of(&[Kind::File, Kind::Dir, Kind::Sym]);
        let first = ch.pick(256);
        let k = ch.pick(256);
        let second = first ^ k;
        let node = |set: usize| {
            let on = |bit: usize| set >> bit & 1 == 1;
            let mut n = Node::new(kind, 0);
            n.mode = if on(0) { 0o600 } else { 0o640 };
            n.mtime = if on(1) { 1_000_000_000 } else { 1_000_000_001 };
            n.uid = if on(2) { 7 } else { 8 };
            n.gid = if on(3) { 9 } else { 10 };
            n.uname = if on(4) { b"anna".to_vec() } else { b"otto".to_vec() };
            n.gname = if on(5) { b"staff".to_vec() } else { b"wheel".to_vec() };
            if kind == Kind::File {
                n.len = if on(6) { 3 } else { 4 };
            }
            if kind == Kind::Sym {
                n.link = if on(7) { b"x".to_vec() } else { b"y".to_vec() };
            }
            n
        };
        let trees: Vec<Tree> = [0, first, second].iter().map(|s| {
            let mut t = Tree::new();
            t.insert(comps("p"), node(*s));
            t.insert(comps("q"), Node::new(Kind::File, 0));
            t
        }).collect();
        ch.state(&(kind, first, second));
        ch.nontrivial();
        ch.note(|| format!("{:?} {:08b} {:08b}", kind, first, second));
        ch.outcome(&trees);
        check_chain(&coll3, &names3, &trees, Dialect::Gnu, None)
    });
    // every field re-recorded for the same path
    c.explore("rerecorded", "one path recorded in two backups with every pair of metadata drawn from small sets, and read in both", Opt::default(), &|ch| {
        let (coll2, _) = (&coll3, 0);
        let mut trees = vec![];
        for _ in 0..2 {
            let mut n = Node::new(*ch.of(&[Kind::File, Kind::Dir, Kind::Sym, Kind::Fifo]), 0);
            n.mode = *ch.of(&[0o600, 0o7777]);
            n.mtime = *ch.of(&[5, -5]);
            n.uid = *ch.of(&[7, 1 << 33]);
            n.gid = *ch.of(&[7, 1 << 33]);
            if n.kind == Kind::Sym {
                n.link = ch.of(&[b"x".to_vec(), long(150)]).clone();
            }
            // a name is tied to its id
            n.uname = format!("u{}", n.uid % 10).into_bytes();
            n.gname = format!("g{}", n.gid % 10).into_bytes();
            let mut t = Tree::new();
            t.insert(comps("p"), n);
            t.insert(comps("q"), Node::new(Kind::File, 0));
            ch.state(&t);
            trees.push(t);
        }
        trees.push(trees[1].clone());
        ch.nontrivial();
        ch.outcome(&trees);
        check_chain(coll2, &names3, &trees, Dialect::Gnu, None)
    });
}

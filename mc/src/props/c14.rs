//! C14: looking up a path finds the volumes that hold it.
use crate::engine::*;
use crate::world::*;

/// Names whose byte order and component order differ, in component order.
fn sorted(names: &[&[u8]]) -> Vec<Comps> {
    let mut v: Vec<Comps> = names.iter().map(|n| if n.is_empty() { vec![] } else { n.split(|c| *c == b'/').map(|c| c.to_vec()).collect() }).collect();
    v.sort();
    v.dedup();
    v
}
/// How duplicity writes a path into a manifest.
fn spelled(c: &Comps) -> Vec<u8> {
    if c.is_empty() { b".".to_vec() } else { join(c) }
}
/// How the path of an entry reads.
fn query(c: &Comps) -> Vec<u8> {
    join(c)
}

fn show(m: &[(Comps, Option<usize>, Comps, Option<usize>)]) -> String {
    m.iter().map(|(s, a, e, b)| format!("[{}{}..{}{}]", String::from_utf8_lossy(&spelled(s)), a.map_or(String::new(), |x| format!("#{}", x)), String::from_utf8_lossy(&spelled(e)), b.map_or(String::new(), |x| format!("#{}", x)))).collect::<Vec<_>>().join(" ")
}

type Range = (Comps, Option<usize>, Comps, Option<usize>);

fn check(ranges: &[Range], queries: &[Comps]) -> R {
    let man = Man {
        host: "h".into(), dir: b"/".to_vec(),
        vols: ranges.iter().map(|(s, sb, e, eb)| Vol { start: spelled(s), sblock: *sb, end: spelled(e), eblock: *eb, hash_type: "SHA1".into(), hash: vec![1] }).collect(),
    };
    let m = parse_manifest(&man.bytes()).map_err(|e| format!("rejected: {}", e))?;
    for q in queries {
        let holds: Vec<usize> = ranges.iter().enumerate().filter(|(_, (s, _, e, _))| s <= q && q <= e).map(|(i, _)| i + 1).collect();
        let mut spellings = vec![query(q)];
        if q.is_empty() {
            spellings.push(b".".to_vec());
        }
        for b in spellings {
            let name = String::from_utf8_lossy(&b).into_owned();
            ensure_eq!(m.first_volume_of_path(&b), holds.first().cloned(), "first volume of '{}' in {}", name, show(ranges));
            ensure_eq!(m.last_volume_of_path(&b), holds.last().cloned(), "last volume of '{}' in {}", name, show(ranges));
        }
    }
    Ok(())
}

/// Chooses volumes that cover consecutive ranges: each boundary is either between two paths or inside a file.
fn volumes(ch: &mut Ch, names: &[Comps], n: usize, blocks: bool) -> Option<Vec<Range>> {
    let mut v = vec![];
    let mut lo = 0; // the next path that may start a volume
    let mut inside = false; // the previous volume ended inside names[lo]
    let mut block = 0;
    for k in 0..n {
        if lo >= names.len() {
            return None;
        }
        // gaps are possible: duplicity's ranges skip paths that did not change
        let s = if inside { lo } else { lo + ch.pick(names.len() - lo) };
        let sb = if inside {
            // the continuation may carry no block number
            if blocks && ch.flag() { None } else { Some(block + 1) }
        } else {
            None
        };
        let e = s + ch.pick(names.len() - s);
        let splits = k + 1 < n && ch.flag();
        // a file that ends in the volume may still have a block number
        let eb = if splits || (blocks && ch.flag()) { Some(if e == s && inside { block + 3 } else { 3 + k }) } else { None };
        v.push((names[s].clone(), sb, names[e].clone(), eb));
        if splits {
            inside = true;
            block = eb.unwrap();
            lo = e;
        } else {
            inside = false;
            lo = e + 1;
        }
    }
    Some(v)
}

pub fn run(c: &mut Ctx) {
    c.rule = "some path is held by no volume and some by more than one, or byte order and component order of the names differ".into();
    c.assumptions = vec!["volumes are in order and their ranges do not overlap except in the file split between two of them; the root is spelled '.' in manifests and as the empty path in entries".into()];
    let sets: Vec<(&str, Vec<Comps>, Vec<Comps>)> = vec![
        ("dots", sorted(&[b"", b"a", b"a/b", b"a/b/c", b"a.b", b"a.b/c"]), sorted(&[b"a!", b"a/a", b"a/c", b"a/b/b", b"a/b.c", b"b", b"a.b/b", b"a.b/d", b"A", b"a.a"])),
        ("spaces", sorted(&[b"a", b"a/x", b"a b", b"a b/y", b"a0"]), sorted(&[b"", b"a/w", b"a/x/z", b"a b/x", b"a ", b"b", b"a/y", b"a!"])),
        ("bytes", sorted(&[b"\x01", b"d/\xff", b"d", b"d-e", b"\xff", b"\xff/a"]), sorted(&[b"", b"d/\xfe", b"d/\xff/x", b"d-", b"\xfe", b"\xff/b", b"\x00", b"d+e"])),
        ("plain", sorted(&[b"b", b"d", b"f", b"h", b"j", b"l"]), sorted(&[b"", b"a", b"c", b"e", b"g", b"i", b"k", b"m", b"d/x", b"f/x", b"l/x"])),
        ("hidden", sorted(&[b"", b".a", b".a/.b", b"a", b"a/..b", b"a/.b", b"a/b"]), sorted(&[b"...", b"..a", b".a/..", b".a/b", b".b", b"a/...", b"a/.a", b"a/.b/.c", b"a/.c", b"a/a", b"b", b"b/.a"])),
        ("nested", sorted(&[b"", b"x", b"x/x", b"x/x/x", b"x/x/x/x", b"x/x-", b"x-"]), sorted(&[b"x/x/w", b"x/y", b"x/w", b"x/x/x-", b"y", b"x!"])),
    ];
    let n = c.by_tier(4, 5);
    for (label, names, more) in &sets {
        let mut queries = names.clone();
        queries.extend(more.iter().cloned());
        for (blocks, n) in [(false, n + 1), (true, n)] {
            c.explore(Box::leak(format!("{}_{}", label, if blocks { "blocks" } else { "splits" }).into_boxed_str()), &format!("every assignment of range boundaries out of {} names to up to {} volumes, each boundary between paths or inside a file{}, queried with {} names", names.len(), n, if blocks { ", block numbers present or absent wherever both are possible" } else { "" }, queries.len()), Opt::default(), &|ch| {
                let k = 1 + ch.pick(n);
                let Some(v) = volumes(ch, names, k, blocks) else { return Ok(()) };
                ch.state(&v);
                ch.nontrivial();
                ch.outcome(&v);
                ch.note(|| show(&v));
                check(&v, &queries)
            });
        }
    }
    // many volumes: every run length pattern
    let m = c.by_tier(12, 14);
    c.explore("many_volumes", &format!("{} volumes, each boundary between two paths or inside a file, for every pattern of splits", m), Opt::default(), &|ch| {
        let mut v: Vec<Range> = vec![];
        let mut q = vec![vec![]];
        let mut cur = 1;
        let name = |i: i32| -> Comps { vec![b"d".to_vec(), format!("{:03}", i).into_bytes()] };
        let mut inside = false;
        for _ in 0..m {
            let s = name(cur);
            let sb = if inside { Some(4) } else { None };
            let split = ch.flag();
            // a volume may hold a part of one file only
            let one = inside && ch.flag();
            if !one {
                cur += 4;
            }
            let e = name(cur);
            v.push((s, sb, e, if split { Some(3) } else { None }));
            if !split {
                cur += 2;
            }
            inside = split;
        }
        q.extend((0..cur + 4).map(name));
        ch.state(&v);
        ch.nontrivial();
        ch.outcome(&v);
        check(&v, &q)
    });
    // as many volumes as a large backup has
    let most = c.by_tier(700usize, 3000);
    let around = |max: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (1..40).collect();
        v.extend((6..17).flat_map(|k| (1usize << k) - 2..(1 << k) + 3));
        v.extend([max / 3, max - 1, max]);
        v.retain(|n| *n >= 1 && *n <= max);
        v.sort();
        v.dedup();
        v
    };
    let mut sizes = around(most);
    sizes.extend(c.by_tier(vec![1025, 4097, 8193, 32_769, 65_537], vec![4095, 4096, 4097, 8191, 8192, 8193, 10_001, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001]));
    c.explore("hundreds", &format!("up to {} volumes and some more ({} counts): each holding a file, all parts of one file, files split over two or three of them, or only the last or the first apart", most, sizes.len()), Opt::default(), &|ch| {
        let n = *ch.of(&sizes);
        let how = ch.pick(6);
        // the number of the file that starts and ends each volume
        let span = |i: usize| match how {
            0 => (i, i),
            1 => (0, 0),
            2 => (i / 2, i / 2),
            3 => (i / 3, i / 3),
            4 => if i + 1 == n { (1, 1) } else { (0, 0) },
            _ => if i == 0 { (0, 0) } else { (1, 1) },
        };
        let name = |i: usize| -> Comps { vec![b"d".to_vec(), format!("{:07}", 10 * i + 5).into_bytes()] };
        let v: Vec<Range> = (0..n).map(|i| {
            let (s, e) = span(i);
            let sb = if i > 0 && span(i - 1).1 == s { Some(i * 10 + 1) } else { None };
            let eb = if i + 1 < n && span(i + 1).0 == e { Some(i * 10 + 10) } else { None };
            (name(s), sb, name(e), eb)
        }).collect();
        let mut at: Vec<usize> = around(n).into_iter().chain(1..4).map(|i| span(i.min(n) - 1).0).collect();
        at.push(0);
        at.sort();
        at.dedup();
        let mut q: Vec<Comps> = vec![vec![], vec![b"c".to_vec()], vec![b"d".to_vec()], vec![b"e".to_vec()]];
        for i in at {
            q.push(name(i));
            q.push(vec![b"d".to_vec(), format!("{:07}", 10 * i).into_bytes()]);
            q.push(vec![b"d".to_vec(), format!("{:07}", 10 * i + 9).into_bytes()]);
            let mut below = name(i);
            below.push(b"x".to_vec());
            q.push(below);
        }
        ch.state(&v);
        ch.nontrivial();
        ch.note(|| format!("{} volumes, shape {}", n, how));
        ch.outcome(&v);
        check(&v, &q).map_err(|e| format!("{} volumes: {}", n, if e.len() > 400 { let mut k = 400; while !e.is_char_boundary(k) { k -= 1 } e[..k].to_string() } else { e }))
    });
    // paths that differ far from their start
    let far = c.by_tier(260usize, 2000);
    let mut depths: Vec<usize> = (0..far).step_by(c.by_tier(3, 1)).collect();
    depths.extend((2..c.by_tier(13, 16)).flat_map(|k| (1usize << k) - 2..(1 << k) + 3));
    depths.sort();
    depths.dedup();
    c.explore("far_differences", &format!("paths that have up to {} components, or up to {} bytes of a component, in common ({} counts), and differ in a last component or byte", depths.last().unwrap(), depths.last().unwrap(), depths.len()), Opt::default(), &|ch| {
        let n = *ch.of(&depths);
        let how = ch.pick(4);
        let name = |last: &[u8]| -> Comps {
            match how {
                0 => (0..n).map(|_| b"d".to_vec()).chain([last.to_vec()]).collect(),
                1 => (0..n).map(|i| format!("dir{}", i % 7).into_bytes()).chain([last.to_vec(), b"f".to_vec()]).collect(),
                2 => vec![[vec![b'n'; n], last.to_vec()].concat()],
                _ => vec![b"d".to_vec(), [vec![0xc3; n], last.to_vec()].concat(), b"f".to_vec()],
            }
        };
        let splits = ch.flag();
        let (b2, b1) = if splits { (Some(7), Some(6)) } else { (None, None) };
        let v: Vec<Range> = vec![
            (vec![], None, name(b"b"), None),
            (name(b"b."), None, name(b"c"), b1),
            (if splits { name(b"c") } else { name(b"c\x01") }, b2, name(b"d"), None),
            (name(b"e"), None, name(b"\xff"), None),
        ];
        let mut q: Vec<Comps> = vec![vec![], name(b"")];
        for l in [&b"a"[..], b"b", b"b ", b"b.", b"b/", b"b0", b"bb", b"c", b"c\x01", b"cc", b"d", b"dd", b"e", b"f", b"\x80", b"\xff", b"\xff\xff"] {
            if l.contains(&b'/') {
                continue;
            }
            q.push(name(l));
            let mut below = name(l);
            below.push(b"x".to_vec());
            q.push(below);
            let mut above = name(l);
            above.pop();
            q.push(above);
        }
        for p in &mut q {
            p.retain(|c| !c.is_empty());
        }
        ch.state(&(n, how, splits));
        ch.nontrivial();
        ch.outcome(&(n, how, splits));
        ch.note(|| format!("{} in common, way {}", n, how));
        check(&v, &q).map_err(|e| format!("{} in common, way {}: {:.600}", n, how, e))
    });
}

//! C17: listings print one faithful line per entry.
use super::c05::chain_of;
use super::c16::{shown, Zone, ZONES};
use crate::engine::*;
use crate::model;
use crate::world::*;
use ruplicity::collections::{BackupSet, Collections};
use ruplicity::signatures::{Chain, EntryType};
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::sync::Arc;

const NOW: i64 = 1_434_565_545 + 86_400;

/// One member to be written, with what the listing must say about it.
#[derive(Clone)]
struct Row {
    path: Comps,
    node: Node,
    /// fields that hold no number
    bad_mode: bool,
    bad_uid: bool,
    bad_sig: bool,
}

fn rwx(mode: u32) -> String {
    let mut s = String::new();
    for (who, special, on, off) in [(6, 0o4000, 's', 'S'), (3, 0o2000, 's', 'S'), (0, 0o1000, 't', 'T')] {
        let b = mode >> who;
        s.push(if b & 4 != 0 { 'r' } else { '-' });
        s.push(if b & 2 != 0 { 'w' } else { '-' });
        s.push(match (b & 1 != 0, mode & special != 0) {
            (true, false) => 'x',
            (false, false) => '-',
            (true, true) => on,
            (false, true) => off,
        });
    }
    s
}

impl Row {
    fn new(path: Comps, node: Node) -> Row {
        Row { path, node, bad_mode: false, bad_uid: false, bad_sig: false }
    }
    fn cells(&self, z: &Zone) -> Vec<String> {
        let n = &self.node;
        let name = |b: &[u8]| if b.is_empty() { "?".to_string() } else { String::from_utf8(b.to_vec()).unwrap() };
        let size = if self.bad_sig {
            "?".into()
        } else if n.kind == Kind::File {
            ((n.len + BLOCK as u64 - 1) / BLOCK as u64 * BLOCK as u64).to_string()
        } else {
            "0".into()
        };
        let path = if self.path.is_empty() { ".".into() } else { String::from_utf8(join(&self.path)).unwrap_or("?".into()) };
        vec![
            format!("{}{}", n.kind.letter(), if self.bad_mode { "?".into() } else { rwx(n.mode) }),
            if self.bad_uid { "?".into() } else { name(&n.uname) },
            name(&n.gname), size, shown(n.mtime, NOW, z), path,
        ]
    }
    fn write(&self, out: &mut Vec<u8>) {
        let at = out.len();
        let diff = if self.node.kind == Kind::File { Diff::Signature } else { Diff::Snapshot };
        write_member(out, &Rec { diff, path: self.path.clone(), node: Some(self.node.clone()), block_len: BLOCK, strong: 8 }, Dialect::Pax);
        // the member's own header is the last one with its type at a 512 byte boundary; here it is the first unless a pax header precedes it
        let mut h = at;
        if out[h + 156] == b'x' {
            let size = usize::from_str_radix(std::str::from_utf8(&out[h + 124..h + 135]).unwrap(), 8).unwrap();
            h += 512 + (size + 511) / 512 * 512;
        }
        if self.bad_mode {
            out[h + 100..h + 108].copy_from_slice(b"garbage\0");
        }
        if self.bad_uid {
            out[h + 108..h + 116].copy_from_slice(b"garbage\0");
        }
        if self.bad_sig {
            out[h + 512] = 0;
        }
        checksum(&mut out[h..h + 512]);
    }
}

/// Whether `text` is these rows, one line each, every column starting at the same place in all lines.
fn check_table(text: &str, rows: &[Vec<String>], what: &str) -> R {
    if rows.is_empty() {
        ensure_eq!(text, "", "{}: listing of nothing", what);
        return Ok(());
    }
    let fail = |why: String| {
        if rows.len() > 20 {
            return Err(format!("{}: {} (of {} entries)", what, why, rows.len()));
        }
        Err(format!("{}: {}\n  printed:\n{}\n  for the entries: {:?}", what, why, text, rows))
    };
    if !text.ends_with('\n') {
        return fail("the last line does not end".into());
    }
    let lines: Vec<Vec<char>> = text[..text.len() - 1].split('\n').map(|l| l.chars().collect()).collect();
    if lines.len() != rows.len() {
        return fail(format!("{} lines for {} entries", lines.len(), rows.len()));
    }
    let len = |s: &String| s.chars().count();
    let mut pos = 0;
    for k in 0..rows[0].len() {
        for (l, r) in lines.iter().zip(rows) {
            let cell: Vec<char> = r[k].chars().collect();
            if l.len() < pos + cell.len() || l[pos..pos + cell.len()] != cell[..] {
                return fail(format!("column {} of {:?} is not {:?} at {}", k + 1, l.iter().collect::<String>(), r[k], pos));
            }
        }
        if k + 1 == rows[0].len() {
            if let Some((l, _)) = lines.iter().zip(rows).find(|(l, r)| l.len() != pos + len(&r[k])) {
                return fail(format!("trailing characters in {:?}", l.iter().collect::<String>()));
            }
            break;
        }
        let width = rows.iter().map(|r| len(&r[k])).max().unwrap();
        // a cell may itself begin with spaces
        let next = lines.iter().zip(rows).map(|(l, r)| pos + len(&r[k]) + l[pos + len(&r[k])..].iter().take_while(|c| **c == ' ').count()).min().unwrap();
        if next <= pos + width {
            return fail(format!("no space after column {}", k + 1));
        }
        for (l, r) in lines.iter().zip(rows) {
            if l.len() < next || l[pos + len(&r[k])..next].iter().any(|c| *c != ' ') {
                return fail(format!("column {} is not aligned", k + 2));
            }
        }
        pos = next;
    }
    Ok(())
}

fn show_rows(coll: &Collections, name: &str, rows: &[Row], z: &Zone) -> R {
    crate::sys::set_now(NOW);
    let mut tar = vec![];
    for r in rows {
        r.write(&mut tar);
    }
    tar.extend([0u8; 1024]);
    let mut files = BTreeMap::new();
    files.insert(name.to_string(), Arc::new(tar));
    let chain = Chain::from_sigchain(coll.signature_chains().next().unwrap(), &Mem::new(&files)).map_err(|e| format!("reading failed: {}", e))?;
    let s = chain.snapshots().next().unwrap();
    let cells: Vec<Vec<String>> = rows.iter().map(|r| r.cells(z)).collect();
    let n = s.files().count();
    ensure_eq!(n, rows.len(), "number of entries");
    for (e, c) in s.files().zip(&cells) {
        let text = e.to_string();
        let got: Vec<&str> = text.split('\t').collect();
        ensure_eq!(got, c.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "the entry printed alone");
    }
    let table = s.files().into_display().to_string();
    check_table(&table, &cells, "listing")?;
    ensure_eq!(s.to_string(), table, "Snapshot printed, compared with its entries printed");
    // an iterator that has moved on prints what is left
    let mut it = s.files();
    it.next();
    check_table(&it.into_display().to_string(), &cells[1.min(cells.len())..], "rest of the listing")
}

fn norm(l: &str) -> Vec<&str> {
    l.split_whitespace().collect()
}

fn check_sets(lines: &[&str], sets: &[&BackupSet], z: &Zone) -> R {
    ensure_eq!(lines.len(), sets.len(), "number of snapshot lines");
    let mut ends = vec![];
    for (l, s) in lines.iter().zip(sets) {
        let kind = if s.is_full() { "Full" } else { "Incremental" };
        let time = shown(s.end_time().sec, NOW, z);
        let vols = s.num_volumes().to_string();
        let mut want = vec![kind];
        want.extend(norm(&time));
        want.push(&vols);
        ensure_eq!(norm(l), want, "line of a snapshot");
        ensure!(l.starts_with(kind) && l.contains(&time), "line of a snapshot: {:?}", l);
        let alone = s.to_string();
        ensure_eq!(norm(&alone), want, "snapshot printed alone");
        ends.push((l.len(), l.find(&time)));
    }
    ensure!(ends.windows(2).all(|w| w[0] == w[1]), "columns are not aligned: {:?}", lines);
    Ok(())
}

fn check_collections(c: &Collections, z: &Zone) -> R {
    crate::sys::set_now(NOW);
    let text = c.to_string();
    let mut lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let mut all_sets = 0;
    for ch in c.backup_chains() {
        let sets: Vec<&BackupSet> = std::iter::once(ch.full_set()).chain(ch.inc_sets()).collect();
        all_sets += sets.len();
        let vols: usize = sets.iter().map(|s| s.num_volumes()).sum();
        let need = 5 + sets.len();
        ensure!(lines.len() >= need, "a chain of {} snapshots is printed in {} lines:\n{}", sets.len(), lines.len(), text);
        let mine: Vec<&str> = lines.drain(..need).collect();
        let want = [
            format!("Chain start time: {}", shown(ch.start_time().sec, NOW, z)),
            format!("Chain end time: {}", shown(ch.end_time().sec, NOW, z)),
            format!("Number of contained backup sets: {}", sets.len()),
            format!("Total number of contained volumes: {}", vols),
            "Type of backup set: Time: Num volumes:".to_string(),
        ];
        for (g, w) in mine.iter().zip(&want) {
            ensure_eq!(norm(g), norm(w), "line of a chain");
        }
        check_sets(&mine[5..], &sets, z)?;
        let alone = ch.to_string();
        ensure_eq!(alone.lines().filter(|l| !l.trim().is_empty()).collect::<Vec<_>>(), mine, "chain printed alone");
    }
    ensure!(lines.is_empty(), "lines that belong to no chain: {:?}", lines);
    ensure_eq!(all_sets, c.num_snapshots(), "snapshots in the chains printed");
    for ch in c.signature_chains() {
        let text = ch.to_string();
        let lines: Vec<&str> = text.lines().collect();
        let head = format!("start time: {}, end time: {}", shown(ch.start_time().sec, NOW, z), shown(ch.end_time().sec, NOW, z));
        let mut want = vec![head];
        want.extend(std::iter::once(ch.full_signature()).chain(ch.inc_signatures()).map(|s| s.file_name.clone()));
        ensure_eq!(lines.iter().map(|l| norm(l)).collect::<Vec<_>>(), want.iter().map(|w| norm(w)).collect::<Vec<_>>(), "signature chain printed");
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "at least one entry or snapshot is printed".into();
    c.assumptions = vec![
        "paths and names are printable (no tab or line break) and, for the alignment of columns, one column wide per character".into(),
        "a path that is not UTF-8 is unknown to the display and printed as \"?\"; the clock and the zone are the checker's".into(),
    ];
    let (coll, names) = chain_of(1, "sigtar");
    let utc = ZONES[0];
    c.explore("modes", "every one of the 4096 permission values for every type of entry, with and without file-type bits above them", Opt::default(), &|ch| {
        let mut n = Node::new(*ch.of(&KINDS), 0);
        n.mode = ch.pick(4096) as u32 | *ch.of(&[0u32, 0o170000]);
        ch.state(&n);
        ch.nontrivial();
        ch.outcome(&rwx(n.mode));
        let mut m = Node::new(Kind::Dir, 0);
        m.mode = !n.mode & 0o7777;
        show_rows(&coll, &names[0], &[Row::new(comps("f"), n), Row::new(comps("g"), m)], &utc)
    });
    c.explore("types", "the letter of every type byte", Opt::default(), &|ch| {
        let b = ch.pick(256) as u8;
        ch.state(&b);
        ch.nontrivial();
        let want = match b {
            0 | b'0' | b'1' => "-",
            b'2' => "l",
            b'5' => "d",
            b'6' => "p",
            _ => "?",
        };
        ensure_eq!(EntryType::new(b).to_string(), want, "letter of type {}", b);
        ch.outcome(&want);
        Ok(())
    });
    let unames: [&[u8]; 5] = [b"", b"u", b"a-rather-long-user-name-of-32-ch", "d\u{e9}j\u{e0}".as_bytes(), b"with space"];
    let unames = unames.map(|u| u[..u.len().min(32)].to_vec());
    let paths: Vec<Comps> = vec![vec![], comps("f"), comps("dir/sub dir/file name"), comps("trailing "), comps("two  spaces  "), vec![b"\xff\xfe".to_vec()], vec!["\u{e9}t\u{e9}".as_bytes().to_vec()], vec![vec![b'p'; 120], vec![b'q'; 30]]];
    let lens = [0u64, 1, 512, 513, 1_000_000];
    let times = [NOW - 3600, model::instant(2014, 12, 31, 23, 59, 59), model::instant(2015, 1, 1, 0, 0, 0), 0, model::instant(1969, 12, 31, 23, 59, 59), 0o77777777777];
    c.explore("one_entry", "every combination of type, unknown mode, unknown owner, owner and group name, size, time and path for one entry, above a fixed one", Opt::default(), &|ch| {
        let kind = *ch.of(&KINDS[..4]);
        let mut r = Row::new(ch.of(&paths).clone(), Node::new(kind, 0));
        r.bad_mode = ch.flag();
        r.node.uname = ch.of(&unames).clone();
        r.node.gname = ch.of(&unames).clone();
        r.node.gid = 7777; // not the id of the other entry
        r.node.uid = 8888;
        r.bad_uid = ch.flag();
        if kind == Kind::File {
            r.node.len = *ch.of(&lens);
            r.bad_sig = r.node.len == 513 && ch.flag();
        }
        r.node.mtime = *ch.of(&times[..5]);
        ch.state(&(&r.path, &r.node, r.bad_mode, r.bad_uid, r.bad_sig));
        ch.nontrivial();
        ch.note(|| format!("{:?}", r.cells(&utc)));
        ch.outcome(&r.cells(&utc));
        show_rows(&coll, &names[0], &[r, Row::new(vec![vec![0xff, 0xff]], Node::new(Kind::Sym, 3))], &utc)
    });
    let k = c.by_tier(3, 4);
    c.explore("tables", &format!("every listing of up to {} entries drawn from short, long, unknown and wide rows: one line each, in order, aligned", k), Opt::default(), &|ch| {
        let n = ch.pick(k + 1);
        let mut rows = vec![];
        for i in 0..n {
            let mut node = Node::new(*ch.of(&[Kind::File, Kind::Dir, Kind::Chr]), i as u64);
            let (u, g) = *ch.of(&[(0usize, 1usize), (1, 2), (2, 0), (3, 4)]);
            node.uname = unames[u].clone();
            node.gname = unames[g].clone();
            node.uid = i as u64 + 1;
            node.gid = i as u64 + 1;
            if node.kind == Kind::File {
                node.len = *ch.of(&[0, 1_000_000]);
            }
            node.mtime = *ch.of(&[NOW, 5]);
            let p = if i == 0 && ch.flag() { vec![] } else { vec![format!("p{}", i).into_bytes(), if i % 2 == 0 { b"x y".to_vec() } else { b"\xff".to_vec() }] };
            let mut r = Row::new(p, node);
            r.bad_mode = i == 1 && ch.flag();
            rows.push(r);
        }
        let cells: Vec<_> = rows.iter().map(|r| r.cells(&utc)).collect();
        ch.state(&cells);
        ch.outcome(&cells);
        if n > 0 {
            ch.nontrivial();
        }
        ch.note(|| format!("{:?}", cells));
        show_rows(&coll, &names[0], &rows, &utc)
    });
    // what a path or a name is made of
    let pieces: Vec<Vec<u8>> = c.by_tier(&[". ", "-", "?", "~\"", "\\'", "a"][..], &[". ", "-?*", "~\"", "\\'", "a:"][..]).iter().flat_map(|s| s.bytes().map(|b| vec![b])).chain(["/".into(), "\u{e9}".into(), "\u{4e2d}".into(), "e\u{301}".into(), "\u{1f600}".into(), "\u{a0}".into(), vec![0x0b], vec![0x0c], vec![1], vec![0x1b], vec![b'\r'], vec![0x7f], vec![0xff], vec![0xc3]]).collect();
    let k = c.by_tier(3, 4);
    c.explore("texts", &format!("every path, owner and group name of up to {} pieces out of {} (dots, slashes, punctuation, spaces, letters of one to four bytes, bytes that are no text), and every printable ASCII character at the start, in the middle and at the end of each", k, pieces.len()), Opt::default(), &|ch| {
        let mut text: Vec<u8> = vec![];
        if ch.flag() {
            let b = b' ' + ch.pick(95) as u8;
            text = match ch.pick(4) { 0 => vec![b], 1 => vec![b, b'x'], 2 => vec![b'x', b, b'y'], _ => vec![b'x', b] };
        } else {
            for _ in 0..1 + ch.pick(k) {
                text.extend(ch.of(&pieces));
            }
        }
        let mut r = Row::new(comps("f"), Node::new(*ch.of(&[Kind::File, Kind::Dir]), 0));
        r.node.uid = 8888;
        r.node.gid = 7777;
        match ch.pick(3) {
            0 => {
                r.path = text.split(|b| *b == b'/').map(|c| c.to_vec()).collect();
                // these are no names of files
                if r.path.iter().any(|c| c.is_empty() || c == b"." || c == b"..") {
                    return Ok(());
                }
            }
            // the names of owners are texts of one column per character
            w => {
                match std::str::from_utf8(&text) {
                    Ok(t) if t.chars().all(|c| (c as u32) < 0x100 && !c.is_control()) => {}
                    _ => return Ok(()),
                }
                if text.first() == Some(&b' ') || text.last() == Some(&b' ') {
                    return Ok(());
                }
                if w == 1 { r.node.uname = text } else { r.node.gname = text }
            }
        }
        ch.state(&(&r.path, &r.node));
        ch.nontrivial();
        ch.note(|| format!("{:?}", r.cells(&utc)));
        ch.outcome(&r.cells(&utc));
        let other = Row::new(vec![vec![0xff; 9]], Node::new(Kind::Sym, 3));
        show_rows(&coll, &names[0], &[r, other], &utc)
    });
    let widest = c.by_tier(300usize, 3000);
    c.explore("widths", &format!("every length of a path, an owner name and a group name up to {}, in the first or last of three rows", widest), Opt::default(), &|ch| {
        let k = 1 + ch.pick(widest);
        let what = ch.pick(3);
        let first = ch.flag();
        let mut rows: Vec<Row> = (0..3).map(|i| {
            let mut n = Node::new(Kind::File, i as u64);
            n.uid = 10 + i as u64;
            n.gid = 20 + i as u64;
            Row::new(comps(["a", "b", "c"][i]), n)
        }).collect();
        let r = &mut rows[if first { 0 } else { 2 }];
        let long: Vec<u8> = (0..k).map(|i| b"n.m-"[i % 4]).collect();
        match what {
            0 => r.path = vec![[r.path[0].clone(), long].concat()],
            1 => r.node.uname = long,
            _ => r.node.gname = long,
        }
        ch.state(&(k, what, first));
        ch.nontrivial();
        ch.outcome(&(k, what, first));
        show_rows(&coll, &names[0], &rows, &utc)
    });
    // collections: shapes
    let shape = |ch: &mut Ch, max_chains: usize, max_incs: usize, vols: usize, bare: bool| -> Vec<String> {
        let mut v = vec![];
        let mut t = 0;
        for _ in 0..1 + ch.pick(max_chains) {
            let incs = ch.pick(max_incs + 1);
            for i in 0..=incs {
                let (s, e) = if i == 0 { (at(t), at(t)) } else { (at(t - 1), at(t)) };
                t += 1;
                let full = i == 0;
                for n in 1..=ch.pick(vols + 1) {
                    v.push(span_name(full, s, e, &format!("vol{}.difftar.gz", n * n * 7)));
                }
                // a snapshot is listed as soon as one of its files is
                let files = if bare { ch.pick(4) } else { 3 };
                if files & 1 != 0 {
                    v.push(span_name(full, s, e, "manifest"));
                }
                if files & 2 != 0 {
                    v.push(sig_name(full, s, e, "sigtar.gz"));
                }
            }
        }
        v
    };
    let (mc, mi, mv) = c.by_tier((2, 2, 3), (3, 2, 3));
    for (zi, zname, bare) in [(0usize, "collections", false), (0, "collections_bare", true), (1, "collections_ny", false), (4, "collections_in", false)] {
        let z = ZONES[zi];
        crate::sys::set_tz(z.tz);
        let (mc, mi, mv) = if bare { c.by_tier((2, 1, 1), (2, 2, 1)) } else if zi == 0 { (mc, mi, mv) } else { (1, 2, 1) };
        c.explore(zname, &format!("every collection of up to {} chains of up to {} snapshots of 0..={} volumes{}, TZ={}", mc, mi + 1, mv, if bare { " with or without manifest and signature" } else { "" }, z.tz), Opt::default(), &|ch| {
            let names = shape(ch, mc, mi, mv, bare);
            ch.state(&names);
            ch.nontrivial();
            ch.note(|| names.join(" "));
            let c = Collections::from_filenames(&names);
            ch.outcome(&c.num_snapshots());
            check_collections(&c, &z)
        });
    }
    let z = ZONES[1];
    crate::sys::set_tz(z.tz);
    c.explore("local_zone", "entries whose UTC and local dates differ, printed in a western zone", Opt::default(), &|ch| {
        let mut rows = vec![];
        for i in 0..2 {
            let mut n = Node::new(Kind::Dir, 0);
            n.mtime = model::instant(2015, 1 + i * 6, 1, 0, 0, 0) + ch.pick(13) as i64 * 1800 - 1;
            rows.push(Row::new(vec![vec![b'a' + i as u8]], n));
        }
        let cells: Vec<_> = rows.iter().map(|r| r.cells(&z)).collect();
        ch.state(&cells);
        ch.outcome(&cells);
        ch.nontrivial();
        show_rows(&coll, &names[0], &rows, &z)
    });
    crate::sys::set_tz("UTC");
    c.explore("empty", "nothing to print", Opt::default(), &|ch| {
        let k = ch.pick(2);
        ch.state(&k);
        ch.outcome(&k);
        if k == 0 {
            return check_collections(&Collections::new(), &utc);
        }
        show_rows(&coll, &names[0], &[], &utc)
    });
    // the columns are aligned over the whole listing, however long it is
    let mut lens: Vec<usize> = c.by_tier(vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4097, 8193, 32_769, 65_537, 100_001], (1..300).chain([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193, 10_001, 16_385, 32_769, 65_537]).collect());
    lens.dedup();
    c.explore("long_tables", &format!("listings of {} lengths up to {} entries with one entry wider than the others, in one of its columns or in none, at the start, the end and around the middle", lens.len(), lens.last().unwrap()), Opt::default(), &|ch| {
        let n = *ch.of(&lens);
        let col = ch.pick(6);
        let wide = if col == 0 { 0 } else { *ch.of(&[0, n / 2, n - 1]) };
        let mut rows = vec![];
        for i in 0..n {
            let mut node = Node::new(Kind::File, i as u64 % 7);
            node.len = 1;
            let mut path = format!("f{:06}", i);
            if i == wide {
                match col {
                    1 => (node.uname, node.uid) = (b"a_longer_user".to_vec(), 77),
                    2 => (node.gname, node.gid) = (b"a_longer_group".to_vec(), 77),
                    3 => node.len = 123_456_789,
                    4 => path += "_that_is_wider",
                    5 => path = format!("f{:06} \u{e9}\u{e9}\u{e9}\u{e9}", i),
                    _ => {}
                }
            }
            rows.push(Row::new(comps(&path), node));
        }
        ch.state(&(n, col, wide));
        ch.outcome(&(n, col, wide));
        ch.nontrivial();
        show_rows(&coll, &names[0], &rows, &utc)
    });
    let m = c.by_tier(3, 4);
    c.explore("snapshots", &format!("every history of {} backups of four paths: each snapshot prints its own entries, through Backup and through Chain", m), Opt::default(), &|ch| {
        crate::sys::set_now(NOW);
        let mut repo = Repo::default();
        for i in 0..m as i64 {
            let mut t = Tree::new();
            t.insert(vec![], Node::new(Kind::Dir, i as u64));
            for (p, k) in [("a", Kind::File), ("b b", Kind::Sym), ("c", Kind::Fifo)] {
                if ch.flag() {
                    let mut n = Node::new(k, i as u64 + 1);
                    n.uname = vec![b'u'; 1 + i as usize * 4];
                    n.uid = 100 + i as u64;
                    t.insert(comps(p), n);
                }
            }
            ch.state(&(i, &t));
            repo.backup(i == 2, at(i), t, 1, &SigStyle::default());
        }
        ch.nontrivial();
        let b = Backup::new(Mem::new(&repo.files)).map_err(|e| e.to_string())?;
        let mut n = 0;
        for (s, w) in b.snapshots().map_err(|e| e.to_string())?.into_iter().zip(&repo.snaps) {
            let rows: Vec<Vec<String>> = w.tree.iter().map(|(p, n)| Row::new(p.clone(), n.clone()).cells(&utc)).collect();
            let e = s.entries().map_err(|e| e.to_string())?;
            check_table(&e.to_string(), &rows, &format!("snapshot {}", n))?;
            check_table(&e.as_signature().into_display().to_string(), &rows, &format!("snapshot {} by its signature", n))?;
            ch.outcome(&rows);
            n += 1;
        }
        ensure_eq!(n, m, "number of snapshots");
        Ok(())
    });
    // a place to print to that fails part-way: the listing must not pass for whole
    let mut repo = Repo::default();
    for i in 0..5i64 {
        let mut t = Tree::new();
        t.insert(vec![], Node::new(Kind::Dir, i as u64));
        for (p, k) in [("a", Kind::File), ("b b", Kind::Sym), ("c", Kind::Fifo), ("d/e", Kind::Hard)] {
            t.insert(comps(p), Node::new(k, i as u64 + 1));
        }
        repo.backup(i % 3 == 0, at(i), t, 2, &SigStyle::default());
    }
    let b = Backup::new(Mem::new(&repo.files)).unwrap();
    let shown: Vec<String> = display_all(&b, &mut |d| d.to_string()).unwrap();
    let repo = &repo;
    c.explore("write_failures", "a place to print to that refuses the n-th piece, once or from then on, for every n and for every displayable part of a backup of two chains and every kind of error", Opt::default(), &|ch| {
        crate::sys::set_now(NOW);
        let once = ch.flag();
        let which = ch.pick(shown.len());
        let b = Backup::new(Mem::new(&repo.files)).map_err(|e| e.to_string())?;
        // how many pieces there are is up to the code
        let pieces = display_all(&b, &mut |d| {
            let mut w = Refuse { out: String::new(), at: usize::MAX, once, n: 0 };
            let _ = write!(w, "{}", d);
            w.n
        })?[which];
        ensure!(pieces > 0 || shown[which].is_empty(), "{:?} is printed without printing", shown[which]);
        if pieces == 0 {
            return Ok(());
        }
        let at = ch.pick(pieces);
        ch.state(&(which, at, once));
        ch.nontrivial();
        ch.faults(1);
        let (ok, out) = display_all(&b, &mut |d| {
            let mut w = Refuse { out: String::new(), at, once, n: 0 };
            let r = write!(w, "{}", d);
            (r.is_ok(), w.out)
        })?.swap_remove(which);
        ch.outcome(&(ok, &out));
        ch.note(|| format!("piece {} of {} of {:?}", at, pieces, shown[which]));
        ensure!(!ok, "piece {} of {} could not be written, printing said it was\n  written: {:?}\n  instead of {:?}", at, pieces, out, shown[which]);
        Ok(())
    });
}

/// Refuses one piece of what is printed to it, or all from there on.
struct Refuse {
    out: String,
    at: usize,
    once: bool,
    n: usize,
}

impl std::fmt::Write for Refuse {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.n += 1;
        if self.n - 1 == self.at || (!self.once && self.n > self.at) {
            return Err(std::fmt::Error);
        }
        self.out += s;
        Ok(())
    }
}

/// Hands everything that can be displayed to `f`, in a fixed order.
fn display_all<T>(b: &Backup<Mem>, f: &mut dyn FnMut(&dyn std::fmt::Display) -> T) -> Result<Vec<T>, String> {
    use ruplicity::manifest::ParseError;
    let mut v = vec![];
    for s in b.snapshots().map_err(|e| e.to_string())? {
        let e = s.entries().map_err(|e| e.to_string())?;
        v.push(f(&e));
        v.push(f(&e.as_signature().into_display()));
        for x in e.as_signature() {
            v.push(f(&x));
            v.push(f(&x.entry_type()));
            v.push(f(&ruplicity::timefmt::TimeDisplay::into_utc_display(x.mtime())));
        }
        v.push(f(s.as_backup_set()));
    }
    let c = b.snapshots().map_err(|e| e.to_string())?.as_collections();
    v.push(f(c));
    for x in c.backup_chains() {
        v.push(f(x));
    }
    for x in c.signature_chains() {
        v.push(f(x));
    }
    for e in [
        ParseError::Io(std::io::Error::new(std::io::ErrorKind::Other, "no")), ParseError::MissingKeyword("Hash".into()), ParseError::MissingHash, ParseError::MissingHashType, ParseError::MissingPath,
        ParseError::OutOfOrderVolume(7), "x".parse::<usize>().unwrap_err().into(), std::str::from_utf8(b"\xff").unwrap_err().into(),
    ] {
        v.push(f(&e));
    }
    Ok(v)
}

//! C20: damaged or hostile backup data never crashes the reader.
use super::c05::chain_of;
use crate::engine::*;
use crate::sys;
use crate::world::*;
use ruplicity::collections::Collections;
use ruplicity::manifest::Manifest;
use ruplicity::signatures::{Chain, Entry};
use ruplicity::timefmt::TimeDisplay;
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Arc;

/// What one run may use: a constant for buffers and tables, and a multiple of what the backend holds.
fn budget(input: usize) -> usize {
    (8 << 20) + 64 * input
}

fn touch(e: &Entry, n: &mut u64) {
    let s = seen(e);
    let (lo, hi) = e.size_hint().unwrap_or((0, 0));
    *n = n.wrapping_mul(31).wrapping_add(hash_of(&s)).wrapping_add(lo as u64 ^ hi as u64);
    *n = n.wrapping_add(e.to_string().len() as u64).wrapping_add(e.path().is_some() as u64);
    *n = n.wrapping_add(e.mtime().into_utc_display().to_string().len() as u64);
}

fn use_manifest(m: &Manifest, n: &mut u64) {
    let mut paths: Vec<Vec<u8>> = vec![b"".to_vec(), b".".to_vec(), b"a".to_vec(), b"\xff".to_vec(), b"//".to_vec()];
    for i in [0, 1, 2, 3, m.last_volume_index(), m.last_volume_index().wrapping_add(1), usize::MAX] {
        if let Some(v) = m.volume(i) {
            paths.push(v.start_path_bytes().to_vec());
            paths.push(v.end_path_bytes().to_vec());
            *n = n.wrapping_add(v.hash().len() as u64 + v.hash_type().len() as u64 + v.start_block().unwrap_or(7) as u64 + v.end_block().unwrap_or(9) as u64);
            *n = n.wrapping_add(v.start_path().is_some() as u64 + v.end_path().is_some() as u64);
        }
    }
    for p in &paths {
        *n = n.wrapping_add((m.first_volume_of_path(p).unwrap_or(0) * 3 + m.last_volume_of_path(p).unwrap_or(0)) as u64);
    }
    *n = n.wrapping_add(m.hostname().len() as u64 + m.local_dir().is_some() as u64 + format!("{:?}", m).len() as u64);
}

/// Reads one signature archive through a prepared chain, and uses everything it yields.
fn use_archive(coll: &Collections, name: &str, data: Vec<u8>) -> Result<u64, String> {
    let input = data.len();
    let mut files = BTreeMap::new();
    files.insert(name.to_string(), Arc::new(data));
    let mem = Mem::new(&files);
    let start = sys::mem_start();
    let mut n = 0u64;
    match Chain::from_sigchain(coll.signature_chains().next().unwrap(), &mem) {
        Ok(c) => {
            for s in c.snapshots() {
                for e in s.files() {
                    touch(&e, &mut n);
                }
                n = n.wrapping_add(s.to_string().len() as u64);
            }
        }
        Err(e) => {
            let _ = e.to_string();
            n = 1;
        }
    }
    let peak = sys::mem_peak(start);
    ensure!(peak <= budget(input), "reading an archive of {} bytes used {} bytes of memory", input, peak);
    Ok(n)
}

/// Opens a whole backup and uses everything it yields, twice.
fn use_backup(files: &BTreeMap<String, Arc<Vec<u8>>>) -> Result<u64, String> {
    let input: usize = files.iter().map(|(k, v)| k.len() + v.len()).sum();
    let start = sys::mem_start();
    let mut n = 0u64;
    let mem = Mem::new(files);
    match Backup::new(mem) {
        Err(_) => n = 1,
        Ok(b) => {
            for _ in 0..2 {
                let snaps = b.snapshots().map_err(|e| e.to_string())?;
                let coll = snaps.as_collections();
                let mut text = String::new();
                let _ = write!(text, "{}", coll);
                for ch in coll.signature_chains() {
                    let _ = write!(text, "{}{:?}{:?}", ch, ch.start_time().sec, ch.end_time().sec);
                }
                for s in snaps {
                    let set = s.as_backup_set();
                    let _ = write!(text, "{} {} {} {}", set, s.time().into_local_display(), set.start_time().into_utc_display(), s.num_volumes());
                    for v in [0, 1, 2, usize::MAX] {
                        n = n.wrapping_add(set.volume_path(v).map_or(0, |p| p.len()) as u64);
                    }
                    match s.entries() {
                        Ok(es) => {
                            for e in es.as_signature() {
                                touch(&e, &mut n);
                            }
                            let _ = write!(text, "{}", es);
                        }
                        Err(e) => {
                            let _ = write!(text, "{}", e);
                        }
                    }
                    match s.manifest() {
                        Ok(m) => use_manifest(&m, &mut n),
                        Err(e) => {
                            let _ = write!(text, "{}", e);
                        }
                    }
                }
                n = n.wrapping_add(hash_of(&text));
            }
        }
    }
    let peak = sys::mem_peak(start);
    ensure!(peak <= budget(input), "using a backup of {} bytes took {} bytes of memory", input, peak);
    Ok(n)
}

fn use_text(bytes: &[u8]) -> Result<u64, String> {
    let start = sys::mem_start();
    let mut n = 0u64;
    match parse_manifest(bytes) {
        Ok(m) => use_manifest(&m, &mut n),
        Err(e) => n = hash_of(&e.to_string()),
    }
    let peak = sys::mem_peak(start);
    ensure!(peak <= budget(bytes.len()), "parsing a manifest of {} bytes took {} bytes of memory", bytes.len(), peak);
    Ok(n)
}

/// Every way to write a number that a header field can hold.
fn numbers(width: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let d = width - 1;
    let text = |s: &str| -> Vec<u8> {
        let mut b = s.as_bytes().to_vec();
        b.resize(width, 0);
        b
    };
    v.push(vec![0; width]);
    v.push(vec![b' '; width]);
    v.push(vec![b'7'; width]);
    v.push(text(&"7".repeat(d)));
    v.push(text("0"));
    v.push(text("1"));
    v.push(text("14")); // 12: a bare signature header
    v.push(text("13"));
    v.push(text("777"));
    v.push(text("1000"));
    v.push(text("-1"));
    v.push(text("8"));
    v.push(text("+5"));
    v.push(text("0x10"));
    v.push(text("\u{e9}"));
    let mut lead = vec![b' '; width - 3];
    lead.extend(b"12\0");
    v.push(lead);
    for tail in [0u128, 1, 11, 12, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 55, (1 << 56) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX as u128 - 511, u64::MAX as u128 - 11, u64::MAX as u128, 1 << 64] {
        for first in [0x80u8, 0xff, 0xc0, 0xbf] {
            let mut b = vec![if first == 0xff { 0xff } else { 0 }; width];
            b[0] = first;
            for i in 0..(width - 1).min(16) {
                b[width - 1 - i] = (tail >> (8 * i)) as u8;
            }
            v.push(b);
        }
    }
    v.push(vec![0xff; width]);
    v.sort();
    v.dedup();
    v
}

const FIELDS: [(usize, usize, &str); 7] = [(100, 8, "mode"), (108, 8, "uid"), (116, 8, "gid"), (124, 12, "size"), (136, 12, "mtime"), (329, 8, "devmajor"), (337, 8, "devminor")];

fn base_tree() -> Tree {
    let mut t = Tree::new();
    t.insert(vec![], Node::new(Kind::Dir, 0));
    t.insert(comps("f"), Node::new(Kind::File, 1));
    t.insert(comps("l"), Node::new(Kind::Sym, 1));
    t.insert(comps("z/z"), Node::new(Kind::Fifo, 1));
    t
}

fn base_repo() -> Repo {
    let mut r = Repo::default();
    r.backup(true, at(0), base_tree(), 2, &SigStyle { dialect: Dialect::Gnu, gz: Some(6) });
    let mut t = base_tree();
    t.remove(&comps("l"));
    t.insert(comps("f"), Node::new(Kind::File, 3));
    t.insert(vec![vec![b'n'; 130]], Node::new(Kind::Dir, 3));
    r.backup(false, at(1), t, 1, &SigStyle { dialect: Dialect::Pax, gz: Some(1) });
    r
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "the data differ from what duplicity writes".into();
    c.assumptions = vec![
        "memory is the library's live heap above what was live before, measured in the allocator: at most 8 MB plus 64 times the bytes the backend holds; one request above 1 GB is a violation at once".into(),
        "an execution that runs for two minutes does not terminate; files stay below a few hundred kilobytes, so gzip bombs are not covered".into(),
        "third-party crates are built as in a release (no overflow checks), ruplicity with overflow checks and debug assertions".into(),
    ];
    let (coll, names) = chain_of(1, "sigtar");
    let (collgz, namesgz) = chain_of(1, "sigtar.gz");
    let tar = sigtar(&diff(None, &base_tree()), Dialect::Gnu);
    // where the headers are: root, f, (f's data), l, z/z
    let headers: Vec<usize> = {
        let mut v = vec![];
        let mut at = 0;
        while at + 512 <= tar.len() && tar[at] != 0 {
            v.push(at);
            let size = usize::from_str_radix(std::str::from_utf8(&tar[at + 124..at + 135]).unwrap(), 8).unwrap();
            at += 512 + (size + 511) / 512 * 512;
        }
        v
    };
    let hs: &[usize] = &headers;
    c.explore("header_bytes", &format!("each of the 512 bytes of {} headers set to each of the 256 values, with and without repairing the checksum", hs.len()), Opt::default(), &|ch| {
        let h = *ch.of(hs);
        let i = ch.pick(512);
        let b = ch.pick(256) as u8;
        let repair = ch.flag();
        let mut t = tar.clone();
        t[h + i] = b;
        if repair {
            checksum(&mut t[h..h + 512]);
        }
        ch.state(&(h, i, b, repair));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("byte {} of the header at {} set to {}, checksum {}", i, h, b, if repair { "repaired" } else { "as it was" }));
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    let n8 = numbers(8);
    let n12 = numbers(12);
    let types: Vec<u8> = vec![b'0', b'5', b'2', b'1', b'S', b'L', b'K', b'x', b'g', 0, b'7', b'D', b'V', b'M', b'X', 0xff];
    let small_types = &types[..c.by_tier(9, types.len())];
    c.explore("header_numbers", "every boundary number in every numeric field of a header, in both tar formats, for every member type, as first or middle member", Opt::default(), &|ch| {
        let h = *ch.of(&headers[1..3]);
        let (off, w, name) = *ch.of(&FIELDS);
        let v = ch.of(if w == 8 { &n8 } else { &n12 });
        let tp = *ch.of(&types);
        let posix = ch.flag();
        let mut t = tar.clone();
        t[h + off..h + off + w].copy_from_slice(v);
        t[h + 156] = tp;
        if posix {
            t[h + 257..h + 265].copy_from_slice(b"ustar\x0000");
        }
        checksum(&mut t[h..h + 512]);
        ch.state(&(h, off, v, tp, posix));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{} = {:?} in a member of type {:?} at {}", name, String::from_utf8_lossy(v), tp as char, h));
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    // all values, or a spread of them
    let steps = c.by_tier([3, 5], [1, 2]);
    c.explore("header_pairs", "every pair of boundary numbers in two numeric fields of one header, for the main member types", Opt::default(), &|ch| {
        let h = headers[1];
        let mut t = tar.clone();
        let i = ch.pick(5);
        let j = i + 1 + ch.pick(5 - i);
        for (k, f) in [i, j].iter().enumerate() {
            let (off, w, _) = FIELDS[*f];
            let all = if w == 8 { &n8 } else { &n12 };
            let step = steps[k];
            let v = &all[(ch.pick((all.len() + step - 1) / step)) * step];
            t[h + off..h + off + w].copy_from_slice(v);
        }
        t[h + 156] = *ch.of(small_types);
        checksum(&mut t[h..h + 512]);
        ch.state(&t[h..h + 512]);
        ch.nontrivial();
        ch.faults(2);
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    // signatures: claimed geometry against real size
    let words: Vec<u32> = vec![0, 1, 2, 4, 8, 511, 512, 0x7fff_fffb, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffb, 0xffff_fffc, 0xffff_fffd, 0xffff_ffff];
    c.explore("signature_geometry", "every combination of boundary block lengths, strong-sum lengths, magic numbers and member sizes, truncated and not", Opt::default(), &|ch| {
        let magic = *ch.of(&[0x72730136u32, 0x72730137, 0, 0xffff_ffff]);
        let bl = *ch.of(&words);
        let ss = *ch.of(&words);
        let size = *ch.of(&[0usize, 3, 4, 11, 12, 13, 16, 24, 36, 511, 512, 513]);
        let mut data = vec![];
        for w in [magic, bl, ss] {
            data.extend(w.to_be_bytes());
        }
        data.resize(size, 7);
        let mut t = header(b"signature/f", b'0', Some(&Node::new(Kind::File, 0)), size as u64, false, b"");
        t.extend(&data);
        if ch.flag() {
            pad(&mut t);
            t.extend([0; 1024]);
        }
        ch.state(&(magic, bl, ss, size, t.len()));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("magic {:x}, block length {}, strong length {}, {} bytes", magic, bl, ss, size));
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    // names
    let weird: Vec<Vec<u8>> = vec![
        b"".to_vec(), b"/".to_vec(), b"//".to_vec(), b"signature".to_vec(), b"signature/".to_vec(), b"signature//".to_vec(), b"signature///a".to_vec(), b"deleted/".to_vec(), b"snapshot/../..".to_vec(),
        b"/signature/a".to_vec(), b"./signature/a".to_vec(), b"other/a".to_vec(), b"SIGNATURE/a".to_vec(), b"snapshot/.".to_vec(), b"snapshot/./".to_vec(), b"snapshot/a/../b".to_vec(), b"snapshot/a//b/".to_vec(),
        b"snapshot/\xff\n\t".to_vec(), b"signature/\0a".to_vec(), [b"snapshot/".to_vec(), vec![b'a'; 5000]].concat(), [b"snapshot/".to_vec(), b"d/".repeat(2000)].concat(), [b"snapshot/".to_vec(), b"/".repeat(300)].concat(), b"multivol_signature/a/1".to_vec(),
    ];
    c.explore("member_names", "every sequence of three members with odd names, of three types, with GNU long names where needed: in any order, repeated, out of path order", Opt::default(), &|ch| {
        let mut t = vec![];
        let mut text = vec![];
        for _ in 0..3 {
            let n = ch.of(&weird);
            let tp = *ch.of(&[b'0', b'5']);
            let node = Node::new(if tp == b'5' { Kind::Dir } else { Kind::File }, 0);
            if n.len() > 100 {
                t.extend(header(b"././@LongLink", b'L', None, n.len() as u64 + 1, false, b""));
                t.extend(n);
                t.push(0);
                pad(&mut t);
            }
            t.extend(header(n, tp, Some(&node), 0, false, b""));
            text.push(String::from_utf8_lossy(&n[..n.len().min(30)]).into_owned());
        }
        t.extend([0; 1024]);
        ch.state(&text);
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{:?}", text));
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    // members that describe other members
    let specials: Vec<(&str, Vec<u8>)> = {
        let longname = |t: u8, claimed: u64, data: &[u8]| {
            let mut v = header(b"././@LongLink", t, None, claimed, false, b"");
            v.extend(data);
            pad(&mut v);
            v
        };
        let pax = |t: u8, data: &[u8]| {
            let mut v = header(b"././@PaxHeader", t, None, data.len() as u64, true, b"");
            v.extend(data);
            pad(&mut v);
            v
        };
        let rec = |k: &str, v: &str| pax_record(k, v.as_bytes());
        vec![
            ("empty long name", longname(b'L', 0, b"")),
            ("long name without end", longname(b'L', 400, &[b'x'; 400])),
            ("long name claiming gigabytes", longname(b'L', 0o77777777777, b"x")),
            ("long link claiming 2^63", longname(b'K', 1 << 63, b"x")),
            ("long name with NULs", longname(b'L', 9, b"a\0b\0c\0d\0\0")),
            ("long link", longname(b'K', 5, b"link\0")),
            ("pax size max", pax(b'x', &rec("size", "18446744073709551615"))),
            ("pax size 2^63", pax(b'x', &rec("size", "9223372036854775808"))),
            ("pax size 12", pax(b'x', &rec("size", "12"))),
            ("pax size negative", pax(b'x', &rec("size", "-1"))),
            ("pax ids max", pax(b'x', &[rec("uid", "18446744073709551615"), rec("gid", "99999999999999999999")].concat())),
            ("pax empty path", pax(b'x', &rec("path", ""))),
            ("pax path not utf-8", pax(b'x', &pax_record("path", b"snapshot/\xff\xfe"))),
            ("pax bad lengths", pax(b'x', b"99999999999999999999 path=a\n0 x=y\n-3 z\n")),
            ("pax no newline", pax(b'x', b"12 path=abcd")),
            ("pax no equals", pax(b'x', b"7 path\n")),
            ("pax length past the end", pax(b'x', b"500 path=a\n")),
            ("pax length only", pax(b'x', b"3\n\n")),
            ("pax sparse", pax(b'x', &[rec("GNU.sparse.major", "1"), rec("GNU.sparse.minor", "0"), rec("GNU.sparse.realsize", "99999999999")].concat())),
            ("pax global", pax(b'g', &rec("path", "snapshot/global"))),
            ("pax mtime", pax(b'x', &rec("mtime", "99999999999999999999.5"))),
            ("pax link", pax(b'x', &rec("linkpath", "t"))),
            ("a zero block", vec![0; 512]),
            ("half a block", vec![b'x'; 200]),
        ]
    };
    let sequence = c.by_tier(3, 4);
    c.explore("special_members", &format!("every sequence of {} long-name, pax and stray blocks before an ordinary member", sequence), Opt::default(), &|ch| {
        let mut t = vec![];
        let mut text = vec![];
        for _ in 0..sequence {
            let (n, b) = ch.of(&specials);
            t.extend(b);
            text.push(*n);
        }
        let tail = ch.pick(3);
        if tail < 2 {
            t.extend(header(b"signature/f", if tail == 0 { b'0' } else { b'5' }, Some(&Node::new(Kind::File, 0)), 12, false, b""));
            t.extend(signature_bytes(0, 512, 8));
            pad(&mut t);
            t.extend([0; 1024]);
        }
        ch.state(&(&text, tail));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{:?}", text));
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    // GNU sparse members: four (offset, length) pairs, the extension flag and the real size
    let sp: Vec<u64> = vec![0, 1, 511, 512, 1024, 0o77777777777, 1 << 40, (1 << 63) - 1, 1 << 63, u64::MAX];
    c.explore("sparse_members", "every combination of boundary offsets, lengths and real sizes of a GNU sparse member, with and without an extension block", Opt::default(), &|ch| {
        let size = *ch.of(&[0u64, 512, 1024]);
        let mut h = header(b"snapshot/f", b'S', Some(&Node::new(Kind::File, 0)), size, false, b"");
        let o = *ch.of(&sp);
        let l = *ch.of(&sp);
        octal(&mut h[386..398], o);
        octal(&mut h[398..410], l);
        if ch.flag() {
            octal(&mut h[410..422], *ch.of(&sp));
            octal(&mut h[422..434], 0);
        }
        let ext = ch.flag();
        h[482] = ext as u8;
        octal(&mut h[483..495], *ch.of(&sp));
        checksum(&mut h);
        let mut t = h;
        if ext {
            let mut e = vec![0u8; 512];
            octal(&mut e[0..12], o);
            octal(&mut e[12..24], l);
            e[504] = 0;
            t.extend(e);
        }
        t.extend(vec![7u8; size as usize]);
        t.extend([0; 1024]);
        ch.state(&t);
        ch.nontrivial();
        ch.faults(1);
        ch.outcome(&use_archive(&coll, &names[0], t)?);
        Ok(())
    });
    // truncations and gzip damage
    c.explore("truncated_tar", "a plain archive cut at every byte", Opt::default(), &|ch| {
        let k = ch.pick(tar.len() + 1);
        ch.state(&k);
        ch.nontrivial();
        ch.faults(1);
        ch.outcome(&use_archive(&coll, &names[0], tar[..k].to_vec())?);
        Ok(())
    });
    let stored: Vec<Vec<u8>> = [0, 1, 9].iter().map(|l| gz(&tar[..tar.len().min(4096)], *l)).collect();
    let flips: Vec<u8> = c.by_tier(vec![0, 1, 0x7f, 0x80, 0xff], (0..=255).collect());
    c.explore("gzip_bytes", &format!("every byte of a gzip stream (stored, fast and best) set to each of {} values, or the stream cut there, or two streams joined there", flips.len()), Opt::default(), &|ch| {
        let g = ch.of(&stored);
        let i = ch.pick(g.len());
        let k = ch.pick(flips.len() + 2);
        let mut d = g.clone();
        if k < flips.len() {
            d[i] = flips[k];
        } else if k == flips.len() {
            d.truncate(i);
        } else {
            d.truncate(i);
            d.extend(&stored[1]);
        }
        ch.state(&(g.len(), i, k));
        ch.nontrivial();
        ch.faults(1);
        ch.outcome(&use_archive(&collgz, &namesgz[0], d)?);
        Ok(())
    });
    // manifests
    let man = Man {
        host: "h".into(), dir: b"/d \\".to_vec(),
        vols: vec![
            Vol { start: b"".to_vec(), sblock: None, end: b"a b".to_vec(), eblock: Some(1), hash_type: "SHA1".into(), hash: vec![1, 0xab] },
            Vol { start: b"c".to_vec(), sblock: Some(2), end: b"\xffz".to_vec(), eblock: None, hash_type: "MD5".into(), hash: vec![2] },
        ],
    }.bytes();
    c.explore("manifest_bytes", "every byte of a manifest set to each of the 256 values, removed, doubled, or the text cut there", Opt::default(), &|ch| {
        let i = ch.pick(man.len());
        let k = ch.pick(259);
        let mut m = man.clone();
        match k {
            0..=255 => m[i] = k as u8,
            256 => drop(m.remove(i)),
            257 => m.insert(i, man[i]),
            _ => m.truncate(i),
        }
        ch.state(&m);
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| String::from_utf8_lossy(&m).into_owned());
        ch.outcome(&use_text(&m)?);
        Ok(())
    });
    let tokens: Vec<&[u8]> = vec![
        b"Hostname", b"Localdir", b"Volume", b"StartingPath", b"EndingPath", b"Hash", b" ", b"\n", b"1:", b"18446744073709551615:", b"18446744073709551616", b"\"", b"\\x", b"\\xg", b"\"\\x4\"", b"SHA1 f", b"\xff", b"\r\n", b"\0", b"-1",
    ];
    let depth = c.by_tier(4, 6);
    c.explore("manifest_tokens", &format!("every text of {} tokens (keywords, numbers, quotes, escapes, line ends), alone or after a good beginning", depth), Opt::default(), &|ch| {
        let mut m = vec![];
        if ch.flag() {
            m.extend(b"Hostname h\nLocaldir /d\nVolume 1:\n    StartingPath   a  \n    EndingPath     ");
        }
        for _ in 0..depth {
            m.extend(*ch.of(&tokens));
            if tokens.len() % 2 == 1 {
                m.push(b' ');
            }
        }
        ch.state(&m);
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| String::from_utf8_lossy(&m).into_owned());
        ch.outcome(&use_text(&m)?);
        Ok(())
    });
    c.explore("manifest_sizes", "very long lines, words, paths, hashes and very many volumes", Opt::default(), &|ch| {
        let n = *ch.of(&[1usize, 1000, 8191, 8192, 8193, 100_000]);
        let m: Vec<u8> = match ch.pick(8) {
            0 => vec![b'a'; n],
            1 => vec![b'\n'; n],
            2 => [b"Hostname ".to_vec(), vec![b'h'; n], b"\nLocaldir ".to_vec(), vec![b' '; n], b"/\n".to_vec()].concat(),
            3 => [b"Hostname h\nLocaldir \"".to_vec(), b"\\x41".repeat(n), b"\"\n".to_vec()].concat(),
            4 => [b"Hostname h\nLocaldir \"".to_vec(), b"\\x".repeat(n), b"\n".to_vec()].concat(),
            5 => [b"Hostname h\nLocaldir /\nVolume 1:\n StartingPath a \n EndingPath b \n Hash SHA1 ".to_vec(), vec![b'f'; n], b"\n".to_vec()].concat(),
            6 => Man { host: "h".into(), dir: vec![], vols: (0..n.min(3000)).map(|i| Vol { start: format!("{:05}", i).into_bytes(), sblock: None, end: format!("{:05}", i).into_bytes(), eblock: None, hash_type: "S".into(), hash: vec![0] }).collect() }.bytes(),
            _ => [b"Hostname h\nLocaldir /\nVolume ".to_vec(), vec![b'9'; n], b":\n".to_vec()].concat(),
        };
        ch.state(&m);
        ch.nontrivial();
        ch.faults(1);
        ch.outcome(&use_text(&m)?);
        Ok(())
    });
    // whole backups: hostile names
    let vols: Vec<String> = ["1", "0", "2", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "007"].iter().map(|s| s.to_string()).collect();
    let stamps = ["20150617T182545Z", "00000101T000000Z", "99991231T235959Z", "20150230T000000Z", "19691231T235959Z", "20150617T182546Z"];
    let listed = c.by_tier(2, 3);
    c.explore("names", &format!("every listing of {} files with boundary timestamps and volume numbers, kinds and suffixes, whose contents are empty or garbage", listed), Opt::default(), &|ch| {
        let mut files = BTreeMap::new();
        for k in 0..listed {
            let s = *ch.of(&stamps);
            let name = match ch.pick(if k == 0 { 6 } else { 4 }) {
                0 => format!("duplicity-full.{}.vol{}.difftar.gz", s, ch.of(&vols)),
                1 => format!("duplicity-full.{}.manifest", s),
                2 => format!("duplicity-full-signatures.{}.sigtar", s),
                3 => format!("duplicity-inc.{}.to.{}.manifest", s, ch.of(&stamps)),
                4 => format!("duplicity-inc.{}.to.{}.vol{}.difftar", s, ch.of(&stamps), ch.of(&vols)),
                _ => format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", s, ch.of(&stamps)),
            };
            files.insert(name, Arc::new(vec![b'x'; 3 * (k % 2)]));
        }
        ch.state(&files.keys().collect::<Vec<_>>());
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| files.keys().cloned().collect::<Vec<_>>().join(" "));
        ch.outcome(&use_backup(&files)?);
        Ok(())
    });
    let odd: Vec<String> = {
        let mut v: Vec<String> = vec!["".into(), ".".into(), "duplicity".into(), "duplicity-".into(), "duplicity-full".into(), "duplicity-full.".into(), "duplicity-full..manifest".into(), "duplicity-inc..to..manifest".into(), "\u{130}\u{212a}".into(), "duplicity-full.\u{663}0150617t182545z.manifest".into()];
        let good = ["duplicity-full.20150617T182545Z.vol1.difftar.gz", "duplicity-inc.20150617T182545Z.to.20150617T182629Z.manifest.part", "duplicity-new-signatures.20150617T182545Z.to.20150617T182629Z.sigtar.gpg", "duplicity-full-signatures.20150617T182545Z.sigtar.gz"];
        for g in good {
            for i in 0..=g.len() {
                v.push(g[..i].to_string());
                v.push(g[i..].to_string());
                for ins in ["\u{0}", ".", "1", "\u{e9}", "\u{130}"] {
                    v.push(format!("{}{}{}", &g[..i], ins, &g[i..]));
                }
            }
            v.push(g.repeat(500));
            v.push(g.replace("Z", &"Z.".repeat(2000)));
        }
        v.push(format!("duplicity-full.20150617T182545Z.vol{}.difftar.gz", "1".repeat(100_000)));
        v.sort();
        v.dedup();
        v
    };
    c.explore("odd_names", "every prefix, suffix and insertion of odd characters of the four kinds of names, alone in a listing", Opt::default(), &|ch| {
        let mut files = BTreeMap::new();
        let n = ch.of(&odd).clone();
        ch.state(&n);
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| n.chars().take(100).collect());
        files.insert(n, Arc::new(vec![]));
        ch.outcome(&use_backup(&files)?);
        Ok(())
    });
    // whole backups: each file replaced by another's bytes, emptied, cut or prefixed
    let repo = base_repo();
    let file_names = repo.names();
    let donors: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = repo.files.values().map(|d| d.to_vec()).collect();
        v.extend([vec![], vec![0], vec![0; 512], vec![0; 513], vec![0xff; 2000], b"\x1f\x8b".to_vec(), b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03".to_vec(), gz(b"", 9), gz(&[0; 512], 9), gz(&vec![0; 200_000], 9), tar.clone()]);
        v
    };
    c.explore("swapped_files", "every pair of files of a two-snapshot backup replaced by every pair of other contents (each other's bytes, nothing, zeros, gzip of nothing, an archive that is not compressed)", Opt::default(), &|ch| {
        let mut files = repo.files.clone();
        let i = ch.pick(file_names.len());
        files.insert(file_names[i].clone(), Arc::new(ch.of(&donors).clone()));
        let j = ch.pick(file_names.len());
        files.insert(file_names[j].clone(), Arc::new(ch.of(&donors).clone()));
        ch.state(&files);
        ch.nontrivial();
        ch.faults(2);
        ch.outcome(&use_backup(&files)?);
        Ok(())
    });
    // times
    c.explore("extreme_times", "displaying every boundary instant in UTC and local time", Opt::default(), &|ch| {
        let mut v = vec![i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, -1];
        for k in 30..63 {
            for d in [-1i64, 0, 1] {
                v.push((1i64 << k) + d);
                v.push(-(1i64 << k) + d);
            }
        }
        // the years in which 32-bit year fields overflow
        for y in [67_767_976_233_532_799i64, 67_768_036_191_676_799, 67_767_976_233_619_199, -67_768_040_609_740_800, -67_768_100_567_755_200] {
            v.extend([y - 86_400, y - 1, y, y + 1, y + 86_400]);
        }
        let t = v[ch.pick(v.len())];
        let nsec = *ch.of(&[0, 1, 999_999_999]);
        ch.state(&t);
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| t.to_string());
        let ts = time::Timespec::new(t, nsec);
        let s = format!("{}{}", ts.into_utc_display(), ts.into_local_display());
        ch.outcome(&s);
        ensure!(s.len() < 200, "{:?}", s);
        Ok(())
    });
}

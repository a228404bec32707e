//! C12: a manifest is read back exactly as duplicity wrote it.
use crate::engine::*;
use crate::world::*;

/// How a path is spelled.
const QUOTES: [&str; 5] = ["as duplicity does", "all but letters escaped", "every byte escaped", "quoted, only what must be is escaped", "plain wherever a word can be"];
/// Whether the bytes can stand in a line as a word of their own, without quotes, and be the last word of it.
fn plain(s: &[u8]) -> bool {
    !s.is_empty() && s[0] != b'"' && s[s.len() - 1] != b'\r' && !s.iter().any(|c| matches!(c, b' ' | b'\n' | b'\\'))
}
fn spell(s: &[u8], how: usize) -> Vec<u8> {
    match how {
        0 => quote(s),
        1 => quote_all(s, &|c| !c.is_ascii_alphabetic()),
        2 => quote_all(s, &|_| true),
        4 if plain(s) => s.to_vec(),
        _ => quote_all(s, &|c| matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c | b'\\' | b'"' | b'\'')),
    }
}

#[derive(Clone)]
struct Layout {
    indent: usize,
    gap: usize,
    trail: usize,
    eol: &'static [u8],
    last: bool,
}
const PLAIN: Layout = Layout { indent: 4, gap: 1, trail: 0, eol: b"\n", last: true };

fn write(m: &Man, l: &Layout, how: usize) -> Vec<u8> {
    let sp = |n: usize| vec![b' '; n];
    let mut lines: Vec<Vec<u8>> = vec![];
    let line = |indent: usize, words: Vec<Vec<u8>>| -> Vec<u8> {
        let mut o = sp(indent);
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                o.extend(sp(l.gap));
            }
            o.extend(w);
        }
        o.extend(sp(l.trail));
        o
    };
    lines.push(line(0, vec![b"Hostname".to_vec(), m.host.clone().into_bytes()]));
    lines.push(line(0, vec![b"Localdir".to_vec(), spell(&m.dir, how)]));
    for (i, v) in m.vols.iter().enumerate() {
        lines.push(line(0, vec![b"Volume".to_vec(), format!("{}:", i + 1).into_bytes()]));
        for (k, p, b) in [("StartingPath", &v.start, v.sblock), ("EndingPath", &v.end, v.eblock)] {
            let mut w = vec![k.as_bytes().to_vec(), spell(p, how)];
            if let Some(b) = b {
                w.push(b.to_string().into_bytes());
            }
            lines.push(line(l.indent, w));
        }
        lines.push(line(l.indent, vec![b"Hash".to_vec(), v.hash_type.clone().into_bytes(), hex(&v.hash).into_bytes()]));
    }
    let mut o = lines.join(l.eol);
    if l.last {
        o.extend(l.eol);
    }
    o
}

fn vol(start: &[u8], end: &[u8]) -> Vol {
    Vol { start: start.to_vec(), sblock: None, end: end.to_vec(), eblock: None, hash_type: "SHA1".into(), hash: vec![0xab, 0x01, 0xff] }
}

fn check(bytes: &[u8], m: &Man) -> R {
    let got = parse_manifest(bytes).map_err(|e| format!("rejected: {}\n  {}", e, String::from_utf8_lossy(bytes)))?;
    check_manifest(&got, m).map_err(|e| format!("{}\n  in: {}", e, String::from_utf8_lossy(bytes)))
}

/// One manifest for duplicity's own spelling (with its fixed column padding), and one for the layout.
fn both(m: &Man, l: &Layout, how: usize) -> R {
    if how == 0 && l.eol == b"\n" && l.last {
        check(&m.bytes(), m)?;
    }
    check(&write(m, l, how), m)
}

pub fn run(c: &mut Ctx) {
    c.rule = "a path needs quoting, a block number is recorded, or there is more than one volume".into();
    c.assumptions = vec![
        "the format is that of duplicity's Manifest.to_string: quoted strings escape white space, quotes and backslashes, with lower-case hexadecimal digits".into(),
        "host names and hash types are single words of UTF-8; volumes are numbered from 1".into(),
    ];
    c.explore("every_byte", "each of the 256 byte values alone, first, in the middle and last of each path, in each quoting style", Opt::default(), &|ch| {
        let b = ch.pick(256) as u8;
        let p: Vec<u8> = match ch.pick(5) {
            0 => vec![b],
            1 => vec![b, b'a'],
            2 => vec![b'a', b, b'z'],
            3 => vec![b'a', b],
            _ => vec![b, b, b],
        };
        let how = ch.pick(QUOTES.len());
        let mut m = Man { host: "h".into(), dir: b"/d".to_vec(), vols: vec![vol(b"s", b"t"), vol(b"u", b"v")] };
        match ch.pick(5) {
            0 => m.dir = p,
            1 => m.vols[0].start = p,
            2 => m.vols[0].end = p,
            3 => m.vols[1].start = p,
            _ => m.vols[1].end = p,
        }
        ch.state(&(how, &m));
        ch.nontrivial();
        ch.outcome(&m);
        ch.note(|| format!("{}: {:?}", QUOTES[how], m));
        both(&m, &PLAIN, how)
    });
    c.explore("every_pair", "every pair of byte values next to each other in a path, in each quoting style", Opt::default(), &|ch| {
        let (a, b) = (ch.pick(256) as u8, ch.pick(256) as u8);
        for how in 0..QUOTES.len() {
            let m = Man { host: "h".into(), dir: b"/d".to_vec(), vols: vec![vol(&[a, b], &[b'x', b, a])] };
            both(&m, &PLAIN, how)?;
        }
        ch.state(&(a, b));
        ch.nontrivial();
        ch.outcome(&(a, b));
        Ok(())
    });
    let abc: &[u8] = b"\\x41\" a";
    let n = c.by_tier(5, 6);
    c.explore("escape_lookalikes", &format!("every path of up to {} characters over backslash, x, digits, quote, space and letter", n), Opt::default(), &|ch| {
        let k = 1 + ch.pick(n);
        let p: Vec<u8> = (0..k).map(|_| *ch.of(abc)).collect();
        let how = ch.pick(QUOTES.len());
        let m = Man { host: "h".into(), dir: p.clone(), vols: vec![vol(&p, &p)] };
        ch.state(&(how, &p));
        ch.nontrivial();
        ch.outcome(&p);
        both(&m, &PLAIN, how)
    });
    c.explore("layouts", "every combination of indentation, gaps, trailing spaces, line ends, final newline, block numbers and number of volumes", Opt::default(), &|ch| {
        let l = Layout {
            indent: *ch.of(&[0, 1, 4, 9]), gap: *ch.of(&[1, 2, 3, 17]), trail: *ch.of(&[0, 1, 2]),
            eol: *ch.of(&[&b"\n"[..], b"\r\n"]), last: ch.flag(),
        };
        let how = ch.pick(2);
        let nv = ch.pick(4);
        let blocks = [None, Some(0), Some(12)];
        let (s, e) = (*ch.of(&blocks), *ch.of(&blocks));
        let m = Man {
            host: "my.host".into(), dir: b"/home/a b".to_vec(),
            vols: (0..nv).map(|i| Vol { sblock: s, eblock: e, ..vol(format!("p q/{}", i).as_bytes(), b"zz") }).collect(),
        };
        ch.state(&(l.indent, l.gap, l.trail, l.eol, l.last, &m));
        ch.nontrivial();
        ch.outcome(&(l.indent, l.gap, l.trail, l.eol, l.last, &m));
        ch.note(|| String::from_utf8_lossy(&write(&m, &l, how)).into_owned());
        both(&m, &l, how)
    });
    let nv = c.by_tier(3, 4);
    c.explore("volume_sequences", &format!("every sequence of up to {} volumes over an alphabet of volume shapes", nv), Opt::default(), &|ch| {
        let k = ch.pick(nv + 1);
        let mut vols = vec![];
        for _ in 0..k {
            let mut v = match ch.pick(5) {
                0 => vol(b".", b"."),
                1 => vol(b"a b", b"\xff\xfe"),
                2 => vol(b"Volume", b"Hash"),
                3 => vol(b"4", b"\"4\""),
                _ => vol(b"'", b"\\"),
            };
            let bl = ch.pick(4);
            v.sblock = if bl & 1 == 1 { Some(0) } else { None };
            v.eblock = if bl & 2 == 2 { Some(usize::MAX) } else { None };
            vols.push(v);
        }
        if k > 1 {
            ch.nontrivial();
        }
        let m = Man { host: "h".into(), dir: b"/".to_vec(), vols };
        ch.state(&m);
        ch.outcome(&m);
        both(&m, &PLAIN, 0)?;
        both(&m, &Layout { eol: b"\r\n", last: false, ..PLAIN }, 3)
    });
    c.explore("hashes", "each byte value at each end of a hash of 1, 2, 16, 20 and 64 bytes, every pair of bytes, several hash types and host names", Opt::default(), &|ch| {
        let (h, ht): (Vec<u8>, &str) = match ch.pick(3) {
            0 => {
                let n = *ch.of(&[1usize, 2, 16, 20, 64]);
                let b = ch.pick(256) as u8;
                let mut h: Vec<u8> = (0..n).map(|i| (i * 37) as u8).collect();
                let i = *ch.of(&[0, n - 1, n / 2]);
                h[i] = b;
                (h, *ch.of(&["SHA1", "MD5", "SHA256", "x"]))
            }
            _ => (vec![ch.pick(256) as u8, ch.pick(256) as u8], "SHA1"),
        };
        let host = *ch.of(&["h", "some.host.example.org", "host-1_\u{e9}"]);
        let m = Man { host: host.into(), dir: b"/d".to_vec(), vols: vec![Vol { hash: h, hash_type: ht.into(), ..vol(b"a", b"b") }] };
        ch.state(&m);
        ch.outcome(&m);
        both(&m, &PLAIN, 0)
    });
    let edges: Vec<usize> = vec![0, 1, 7, 9, 10, 11, 99, 100, 255, 256, 65_535, 65_536, (1 << 31) - 1, 1 << 31, u32::MAX as usize, 1 << 32, usize::MAX - 1, usize::MAX];
    c.explore("block_numbers", "every pair of edge values and every number up to the bound as block numbers", Opt::default(), &|ch| {
        let (s, e) = if ch.flag() { (*ch.of(&edges), *ch.of(&edges)) } else { (ch.pick(2000), 3) };
        let m = Man { host: "h".into(), dir: b"/d".to_vec(), vols: vec![Vol { sblock: Some(s), eblock: Some(e), ..vol(b"a", b"b") }, vol(b"c", b"d")] };
        ch.state(&(s, e));
        ch.nontrivial();
        ch.outcome(&(s, e));
        both(&m, &PLAIN, 0)
    });
    let max = c.by_tier(130, 1100);
    let further: Vec<usize> = c.by_tier(vec![255, 256, 257, 999, 1000, 1023, 1024, 1025, 4097, 8193, 16_385, 32_769, 65_535, 65_536, 65_537, 70_001], vec![2047, 2048, 2049, 4095, 4096, 4097, 9999, 10_000, 10_001, 32_769, 65_537, 131_073, 262_145]);
    c.explore("many_volumes", &format!("every number of volumes up to {}, and {:?}", max, further), Opt::default(), &|ch| {
        let k = ch.pick(max + 1 + further.len());
        let k = if k > max { further[k - max - 1] } else { k };
        let m = Man { host: "h".into(), dir: b"/d".to_vec(), vols: (0..k).map(|i| Vol { sblock: Some(i), ..vol(format!("a{}", i).as_bytes(), format!("b {}", i).as_bytes()) }).collect() };
        ch.state(&k);
        ch.nontrivial();
        ch.outcome(&k);
        both(&m, &PLAIN, 0)
    });
    let texts = c.by_tier(300, 2100);
    c.explore("text_lengths", &format!("a host name, a hash type and a hash of every length up to {}", texts), Opt::default(), &|ch| {
        let k = 1 + ch.pick(texts);
        let what = ch.pick(3);
        let mut m = Man { host: "h".into(), dir: b"/d".to_vec(), vols: vec![vol(b"a", b"b"), vol(b"c", b"d")] };
        match what {
            0 => m.host = (0..k).map(|i| b"host.name-"[i % 10] as char).collect(),
            1 => m.vols[0].hash_type = (0..k).map(|i| b"SHA512"[i % 6] as char).collect(),
            _ => m.vols[0].hash = (0..k).map(|i| (i * 41 + 7) as u8).collect(),
        }
        ch.state(&(k, what));
        ch.nontrivial();
        ch.outcome(&(k, what));
        both(&m, &PLAIN, 0)
    });
    let long = c.by_tier(3000, 20_000);
    let mut lens: Vec<usize> = (0..long / 7).map(|k| 1 + 7 * k).collect();
    for k in 5..c.by_tier(18, 22) {
        lens.extend((1usize << k) - 6..=(1 << k) + 2);
    }
    let lens = &lens;
    c.explore("long_paths", &format!("every path length up to {} in steps of 7, and around every power of two up to {}, each byte escaped or none", long, lens.last().unwrap() - 2), Opt::default(), &|ch| {
        let k = *ch.of(lens);
        let how = ch.pick(3);
        let p: Vec<u8> = (0..k).map(|i| b"ab/ \\\"x1"[i % 8]).collect();
        let m = Man { host: "h".into(), dir: p.clone(), vols: vec![vol(&p, &p[..k / 2 + 1])] };
        ch.state(&(k, how));
        ch.nontrivial();
        ch.outcome(&(k, how));
        both(&m, &PLAIN, how)
    });
    super::fixtures::manifests(c);
}

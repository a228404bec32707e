//! C13: a damaged manifest is rejected, not misread.
use crate::engine::*;
use crate::world::*;
use std::os::unix::ffi::OsStrExt;

fn man(n: usize, variant: usize) -> Man {
    Man {
        host: "my.host".into(), dir: if variant == 1 { b"/home/some one".to_vec() } else { b"/data".to_vec() },
        vols: (0..n).map(|i| Vol {
            start: match variant { 0 => format!("a{}", i).into_bytes(), 1 => format!("a b/{}", i).into_bytes(), _ => vec![b'p', 0xff, i as u8 + 1] },
            sblock: if (i + variant) % 2 == 0 { None } else { Some(10 + i) },
            end: match variant { 0 => format!("a{}z", i).into_bytes(), 1 => format!("a b/{} \"z\"", i).into_bytes(), _ => vec![b'p', 0xff, i as u8 + 1, b'z'] },
            eblock: if (i + variant) % 3 == 0 { Some(345) } else { None },
            hash_type: ["SHA1", "MD5", "SHA256"][variant].into(), hash: (0..[20, 16, 32][variant]).map(|k| (k * 11 + i + 1) as u8).collect(),
        }).collect(),
    }
}

fn lines_of(m: &Man, crlf: bool) -> Vec<Vec<u8>> {
    m.lines().into_iter().map(|mut l| {
        if crlf {
            l.push(b'\r');
        }
        l
    }).collect()
}
fn text(lines: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![];
    for l in lines {
        o.extend(l);
        o.push(b'\n');
    }
    o
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn rejected(bytes: &[u8], why: &str) -> R {
    match parse_manifest(bytes) {
        Err(e) => {
            let _ = e.to_string();
            Ok(())
        }
        Ok(m) => Err(format!("a manifest with {} is accepted, with {} volumes:\n{}", why, m.last_volume_index(), show(bytes))),
    }
}

const KEYWORDS: [&str; 6] = ["Hostname", "Localdir", "Volume", "StartingPath", "EndingPath", "Hash"];
fn keyword(l: &[u8]) -> usize {
    let s: Vec<u8> = l.iter().cloned().skip_while(|c| *c == b' ').take_while(|c| *c != b' ').collect();
    KEYWORDS.iter().position(|k| k.as_bytes() == s.as_slice()).unwrap()
}
/// The words of a line, without the line end.
fn words(l: &[u8]) -> Vec<Vec<u8>> {
    l.split(|c| *c == b' ').filter(|w| !w.is_empty()).map(|w| w.to_vec()).collect()
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "the manifest was changed".into();
    c.assumptions = vec![
        "two lines with the same keyword of different volumes exchanged give another valid manifest, which nothing can tell apart, unless they are the volume lines".into(),
        "a manifest cut inside its Localdir line may be read as one without volumes and with a shortened directory".into(),
    ];
    let variants = 3;
    let nmax = c.by_tier(4, 8);
    c.explore("truncations", &format!("every cut of manifests of up to {} volumes, LF and CRLF", nmax), Opt::default(), &|ch| {
        let m = man(ch.pick(nmax + 1), ch.pick(variants));
        let crlf = ch.flag();
        let lines = lines_of(&m, crlf);
        let full = text(&lines);
        let cut = ch.pick(full.len() + 1);
        let b = &full[..cut];
        ch.state(&(&m, crlf, cut));
        if cut < full.len() {
            ch.nontrivial();
        }
        ch.note(|| show(b));
        let before_vols = text(&lines[..2]).len();
        match parse_manifest(b) {
            Err(e) => {
                ch.outcome(&e.to_string());
                ensure!(cut < full.len(), "the whole manifest is rejected: {}", e);
            }
            Ok(g) => {
                let got = g.last_volume_index();
                ch.outcome(&(got, cut == full.len()));
                // volumes that start before the cut
                let mut started = 0;
                let mut pos = before_vols;
                let mut complete = 0;
                for (i, _) in m.vols.iter().enumerate() {
                    if pos < cut {
                        started = i + 1;
                    }
                    pos += text(&lines[2 + 4 * i..6 + 4 * i]).len();
                    // the line end after the hash may be missing
                    if pos <= cut + 1 + crlf as usize {
                        complete = i + 1;
                    }
                }
                ensure!(got >= complete && got <= started, "cut at {}: {} volumes are read, but {} were complete and {} begun:\n{}", cut, got, complete, started, show(b));
                ensure_eq!(g.hostname(), m.host.as_str(), "host name of a manifest cut at {}", cut);
                let dir = g.local_dir().map(|d| d.as_os_str().as_bytes().to_vec());
                if cut + 1 + crlf as usize >= before_vols {
                    ensure_eq!(dir, Some(m.dir.clone()), "directory of a manifest cut at {}", cut);
                }
                for i in 0..got {
                    let v = g.volume(i + 1).ok_or("a volume is missing")?;
                    let mut w = m.vols[i].clone();
                    if i + 1 == got && i >= complete {
                        // only the hash, the last thing written, may be shorter
                        ensure!(w.hash.starts_with(v.hash()), "cut at {}: hash of volume {} is {:?}:\n{}", cut, i + 1, v.hash(), show(b));
                        w.hash = v.hash().to_vec();
                        ensure_eq!(v.hash_type(), w.hash_type, "hash type of volume {} of a manifest cut at {}", i + 1, cut);
                    }
                    check_volume(v, &w).map_err(|e| format!("cut at {}: volume {}: {}\n{}", cut, i + 1, e, show(b)))?;
                }
            }
        }
        Ok(())
    });
    c.explore("line_edits", &format!("every line deleted, doubled, moved or exchanged with another, in manifests of up to {} volumes", nmax), Opt::default(), &|ch| {
        let m = man(1 + ch.pick(nmax), ch.pick(variants));
        let crlf = ch.flag();
        let lines = lines_of(&m, crlf);
        let n = lines.len();
        let mut l = lines.clone();
        let why;
        let i = ch.pick(n);
        match ch.pick(4) {
            0 => {
                l.remove(i);
                why = format!("line {} deleted", i);
            }
            1 => {
                let x = l[i].clone();
                l.insert(i, x);
                why = format!("line {} doubled", i);
            }
            2 => {
                let j = ch.pick(n);
                if i == j {
                    return Ok(());
                }
                if keyword(&lines[i]) == keyword(&lines[j]) && keyword(&lines[i]) != 2 {
                    return Ok(());
                }
                l.swap(i, j);
                why = format!("lines {} and {} exchanged", i, j);
            }
            _ => {
                let j = ch.pick(n);
                if i == j {
                    return Ok(());
                }
                let x = l.remove(i);
                l.insert(j, x);
                why = format!("line {} moved to {}", i, j);
            }
        }
        ch.state(&l);
        ch.nontrivial();
        ch.outcome(&why);
        ch.note(|| show(&text(&l)));
        rejected(&text(&l), &why)
    });
    c.explore("several_lines_lost", "every set of lines lost from a manifest of two volumes, other than whole volumes from the end", Opt::default(), &|ch| {
        let m = man(2, ch.pick(variants));
        let lines = lines_of(&m, false);
        let keep: Vec<bool> = (0..lines.len()).map(|_| !ch.flag()).collect();
        let left: Vec<Vec<u8>> = lines.iter().zip(&keep).filter(|(_, k)| **k).map(|(l, _)| l.clone()).collect();
        let b = text(&left);
        ch.state(&left);
        ch.nontrivial();
        ch.outcome(&keep);
        let k = left.len();
        // a mix of lines of both volumes can look like a whole first volume
        let kws: Vec<usize> = left.iter().map(|l| keyword(l)).collect();
        let valid = kws == [0, 1] || (kws == [0, 1, 2, 3, 4, 5] && keep[2]) || k == lines.len();
        if valid {
            return Ok(());
        }
        rejected(&b, &format!("lines kept: {:?}", keep))
    });
    let letters: Vec<u8> = c.by_tier(b"aZ0_:\"\t".to_vec(), (33..127).chain([0, 9, 127, 128, 0xc3, 0xff]).collect());
    c.explore("keywords", "every deletion, case change, substitution and insertion in every keyword", Opt::default(), &|ch| {
        let m = man(2, 0);
        let lines = lines_of(&m, false);
        let i = ch.pick(lines.len());
        let kw = KEYWORDS[keyword(&lines[i])].as_bytes().to_vec();
        let start = lines[i].iter().position(|c| *c != b' ').unwrap();
        let k = ch.pick(kw.len() + 1);
        let mut new = kw.clone();
        match ch.pick(4) {
            0 if k < kw.len() => drop(new.remove(k)),
            1 if k < kw.len() => new[k] ^= 0x20,
            2 if k < kw.len() => new[k] = *ch.of(&letters),
            3 => new.insert(k, *ch.of(&letters)),
            _ => return Ok(()),
        }
        if new == kw {
            return Ok(());
        }
        let mut l = lines.clone();
        l[i].splice(start..start + kw.len(), new.iter().cloned());
        ch.state(&l);
        ch.nontrivial();
        ch.outcome(&new);
        ch.note(|| show(&text(&l)));
        rejected(&text(&l), &format!("the keyword {} instead of {}", show(&new), show(&kw)))
    });
    c.explore("missing_words", "every line cut after any word, or emptied, and every keyword exchanged for another", Opt::default(), &|ch| {
        let m = man(1 + ch.pick(3), ch.pick(variants));
        let crlf = ch.flag();
        let mut l = lines_of(&m, crlf);
        let i = ch.pick(l.len());
        let kw = keyword(&l[i]);
        let w = words(&m.lines()[i]);
        let why;
        if ch.flag() {
            let keep = ch.pick(w.len());
            // how many words the line cannot do without
            let need = match kw { 0 | 1 => 1, 2 | 3 | 4 => 2, _ => 3 };
            if keep >= need {
                return Ok(());
            }
            if keep == 0 && ch.flag() {
                l[i] = b"   ".to_vec();
            } else {
                l[i] = w[..keep].join(&b' ');
            }
            if ch.flag() && keep > 0 {
                l[i].extend(b"   ");
            }
            if crlf {
                l[i].push(b'\r');
            }
            why = format!("line {} cut to {} words", i, keep);
        } else {
            let o = ch.pick(KEYWORDS.len());
            if o == kw {
                return Ok(());
            }
            let mut x = w.clone();
            x[0] = KEYWORDS[o].as_bytes().to_vec();
            l[i] = x.join(&b' ');
            why = format!("{} instead of {} on line {}", KEYWORDS[o], KEYWORDS[kw], i);
        }
        ch.state(&l);
        ch.nontrivial();
        ch.outcome(&why);
        ch.note(|| show(&text(&l)));
        rejected(&text(&l), &why)
    });
    let bad: Vec<&[u8]> = vec![b"x", b"-1", b"1x", b"x1", b"1.5", b"0x10", b"1,000", b"18446744073709551616", b"99999999999999999999999999", b"340282366920938463463374607431768211456", b"\xff", b"1\x00", b"\"\"", b"--", b"1e3", b"\xd9\xa1", b"NaN", b"None", b"1\t2", b"-0", b"1:", b"1::", b"2:", b"3:", b":1", b"1;", b"1.", b"#1", b"\"1\"", b"1\"", b"(1)"];
    c.explore("bad_numbers", "every malformed number in place of every block and volume number", Opt::default(), &|ch| {
        let m = man(1 + ch.pick(3), 0);
        let crlf = ch.flag();
        let mut l = m.lines();
        let v = ch.pick(m.vols.len());
        let b = *ch.of(&bad);
        let which = ch.pick(3);
        match which {
            0 => l[2 + 4 * v] = [b"Volume ", b, b":"].concat(),
            k => {
                let mut w = words(&l[2 + 4 * v + k]);
                w.truncate(2);
                w.push(b.to_vec());
                l[2 + 4 * v + k] = w.join(&b' ');
            }
        }
        if crlf {
            for x in &mut l {
                x.push(b'\r');
            }
        }
        ch.state(&l);
        ch.nontrivial();
        ch.outcome(&(which, b));
        ch.note(|| show(&text(&l)));
        rejected(&text(&l), &format!("{:?} as number {} of volume {}", show(b), which, v + 1))
    });
    let nums: Vec<usize> = c.by_tier(vec![0, 1, 2, 3, 4, 5, 10, usize::MAX], vec![0, 1, 2, 3, 4, 5, 10, 11, usize::MAX - 1, usize::MAX]);
    let nv = c.by_tier(4, 6);
    c.explore("numbering", &format!("every numbering of up to {} volumes over {:?}", nv, nums), Opt::default(), &|ch| {
        let k = 1 + ch.pick(nv);
        let m = man(k, ch.pick(2));
        let ns: Vec<usize> = (0..k).map(|_| *ch.of(&nums)).collect();
        let mut l = m.lines();
        for (i, n) in ns.iter().enumerate() {
            l[2 + 4 * i] = format!("Volume {}:", n).into_bytes();
        }
        ch.state(&ns);
        ch.nontrivial();
        ch.outcome(&ns);
        let good: Vec<usize> = (1..=k).collect();
        if ns == good {
            let g = parse_manifest(&text(&l)).map_err(|e| format!("rejected: {}", e))?;
            check_manifest(&g, &m)
        } else {
            rejected(&text(&l), &format!("volumes numbered {:?}", ns))
        }
    });
    // longer manifests, with one thing wrong
    let most = c.by_tier(24usize, 60);
    c.explore("one_number_wrong", &format!("manifests of up to {} volumes with one number changed to every other up to {}, or by a power of two", most, most + 2), Opt::default(), &|ch| {
        let k = 1 + ch.pick(most);
        let at = ch.pick(k);
        let n = ch.pick(most + 3 + 8);
        if n == at + 1 {
            return Ok(());
        }
        // or off by a power of two
        let n = if n < most + 3 { n } else { (at + 1).wrapping_add([1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 63][n - most - 3]) };
        let m = man(k, 0);
        let mut l = m.lines();
        l[2 + 4 * at] = format!("Volume {}:", n).into_bytes();
        ch.state(&(k, at, n));
        ch.nontrivial();
        ch.outcome(&(k, at, n));
        rejected(&text(&l), &format!("volume {} of {} numbered {}", at + 1, k, n))
    });
    let long = c.by_tier(40usize, 130);
    c.explore("long_manifests", &format!("manifests of up to {} volumes, whole and with every single line lost, doubled or exchanged with the next, and with every single volume lost, doubled or exchanged with any other", long), Opt::default(), &|ch| {
        let k = ch.pick(long + 1);
        let m = man(k, ch.pick(2));
        let l = m.lines();
        let mut e = l.clone();
        let why;
        match ch.pick(7) {
            0 => {
                ch.state(&k);
                ch.outcome(&k);
                let g = parse_manifest(&text(&l)).map_err(|e| format!("a manifest of {} volumes is rejected: {}", k, e))?;
                return check_manifest(&g, &m);
            }
            1 => {
                let i = ch.pick(l.len());
                e.remove(i);
                why = format!("line {} of {} lost", i, l.len());
            }
            2 => {
                let i = ch.pick(l.len());
                let x = e[i].clone();
                e.insert(i, x);
                why = format!("line {} of {} doubled", i, l.len());
            }
            3 => {
                let i = ch.pick(l.len() - 1);
                e.swap(i, i + 1);
                why = format!("lines {} and {} of {} exchanged", i, i + 1, l.len());
            }
            w => {
                if k == 0 {
                    return Ok(());
                }
                let i = ch.pick(k);
                let at = |v: usize| 2 + 4 * v;
                match w {
                    // without its last volume a manifest is another whole one
                    4 if i + 1 < k => {
                        e.drain(at(i)..at(i + 1));
                        why = format!("volume {} of {} lost", i + 1, k);
                    }
                    5 => {
                        let x: Vec<_> = l[at(i)..at(i + 1)].to_vec();
                        e.splice(at(i)..at(i), x);
                        why = format!("volume {} of {} doubled", i + 1, k);
                    }
                    6 => {
                        let j = ch.pick(k);
                        if i >= j {
                            return Ok(());
                        }
                        for o in 0..4 {
                            e.swap(at(i) + o, at(j) + o);
                        }
                        why = format!("volumes {} and {} of {} exchanged", i + 1, j + 1, k);
                    }
                    _ => return Ok(()),
                }
            }
        }
        ch.state(&e);
        ch.nontrivial();
        ch.outcome(&(k, &why));
        rejected(&text(&e), &why)
    });
    c.explore("blank_lines", "up to two blank lines (or runs of them) before, between or after any lines", Opt::default(), &|ch| {
        let m = man(ch.pick(4), ch.pick(variants));
        let crlf = ch.flag();
        let mut l = lines_of(&m, crlf);
        let blank: Vec<u8> = if crlf { b"\r".to_vec() } else { vec![] };
        let n = 1 + ch.pick(2);
        let mut at = vec![];
        for _ in 0..n {
            let p = ch.pick(l.len() + 1);
            for _ in 0..1 + ch.pick(2) {
                l.insert(p, blank.clone());
            }
            at.push(p);
        }
        let b = text(&l);
        ch.state(&l);
        ch.nontrivial();
        ch.note(|| format!("{:?}", show(&b)));
        match parse_manifest(&b) {
            Err(_) => {
                ch.outcome(&0);
                Ok(())
            }
            Ok(g) => {
                ch.outcome(&1);
                check_manifest(&g, &m).map_err(|e| format!("with blank lines at {:?}: {}\n{}", at, e, show(&b)))
            }
        }
    });
}

//! The archives and manifests in the repository's tests were written by duplicity itself: they are taken apart without the library, written again
//! with the writer of `world.rs`, and compared, so that what the checks feed to the library is what duplicity writes.
use crate::engine::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::Arc;

const DIRS: [&str; 3] = ["/repo/tests/backups/single_vol", "/repo/tests/backups/multi_chain", "/repo/tests/backups/tree"];

fn files(ends: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = DIRS.iter().chain(&["/repo/tests/manifest"]).filter_map(|d| std::fs::read_dir(d).ok()).flatten().flatten().map(|e| e.path()).filter(|p| p.to_string_lossy().ends_with(ends)).collect();
    v.sort();
    v
}

fn number(b: &[u8]) -> u64 {
    b.iter().filter(|c| (b'0'..=b'7').contains(*c)).fold(0, |a, c| a * 8 + (*c - b'0') as u64)
}
fn text(b: &[u8]) -> Vec<u8> {
    b.iter().take_while(|c| **c != 0).cloned().collect()
}

struct Member {
    header: Vec<u8>,
    rec: Rec,
    data: Vec<u8>,
}

/// Takes an archive apart.
fn members(tar: &[u8]) -> Result<Vec<Member>, String> {
    let mut v = vec![];
    let mut at = 0;
    let (mut long, mut long_link) = (None, None);
    while at + 512 <= tar.len() && tar[at..at + 512].iter().any(|b| *b != 0) {
        let h = tar[at..at + 512].to_vec();
        let size = number(&h[124..136]) as usize;
        let data = tar[at + 512..at + 512 + size].to_vec();
        at += 512 + (size + 511) / 512 * 512;
        match h[156] {
            b'L' => { long = Some(text(&data)); continue; }
            b'K' => { long_link = Some(text(&data)); continue; }
            _ => {}
        }
        let name = long.take().unwrap_or_else(|| text(&h[..100]));
        let link = long_link.take().unwrap_or_else(|| text(&h[157..257]));
        let mut parts: Comps = name.split(|c| *c == b'/').map(|c| c.to_vec()).filter(|c| !c.is_empty()).collect();
        let diff = match &parts.remove(0)[..] {
            b"signature" => Diff::Signature,
            b"snapshot" => Diff::Snapshot,
            b"deleted" => Diff::Deleted,
            x => return Err(format!("unknown kind of record {:?}", x)),
        };
        let kind = match h[156] { b'0' => Kind::File, b'2' => Kind::Sym, b'5' => Kind::Dir, b'6' => Kind::Fifo, x => return Err(format!("unknown type {}", x)) };
        let (mut block_len, mut strong, mut len) = (0, 0, 0);
        if diff == Diff::Signature {
            let word = |i: usize| u32::from_be_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]);
            block_len = word(4);
            strong = word(8);
            len = (data.len() as u64 - 12) / (4 + strong as u64) * block_len as u64;
        }
        let node = Node {
            kind, mode: number(&h[100..108]) as u32, uid: number(&h[108..116]), gid: number(&h[116..124]), uname: text(&h[265..297]), gname: text(&h[297..329]), mtime: number(&h[136..148]) as i64, link, len,
        };
        v.push(Member { header: h, data, rec: Rec { diff, path: parts, node: if diff == Diff::Deleted { None } else { Some(node) }, block_len, strong } });
    }
    if tar.len() < at + 1024 || tar[at..].iter().any(|b| *b != 0) {
        return Err("the archive does not end with two empty blocks".into());
    }
    Ok(v)
}

fn unzipped(p: &Path) -> Result<Vec<u8>, String> {
    let mut tar = vec![];
    flate2::read::GzDecoder::new(&std::fs::read(p).map_err(|e| e.to_string())?[..]).read_to_end(&mut tar).map_err(|e| e.to_string())?;
    Ok(tar)
}

/// Signature archives: the writer writes the same headers and signatures in the same order, and the library shows what the archives say.
pub fn archives(c: &mut Ctx) {
    let all = files("sigtar.gz");
    if all.is_empty() {
        return;
    }
    c.explore("written_by_duplicity", &format!("the {} signature archives of the repository's tests, written by duplicity: written again by the checks' writer, and read by the library", all.len()), Opt::default(), &|ch| {
        let p = ch.of(&all);
        ch.note(|| p.display().to_string());
        ch.state(p);
        ch.nontrivial();
        let v = members(&unzipped(p)?)?;
        ch.outcome(&v.len());
        let mut last: Option<&Comps> = None;
        for m in &v {
            let what = String::from_utf8_lossy(&join(&m.rec.path)).into_owned();
            ensure!(last.map_or(true, |l| *l < m.rec.path), "the writer's order is not duplicity's at {}", what);
            last = Some(&m.rec.path);
            let same = [Dialect::GnuNoSlash, Dialect::Gnu].iter().any(|d| {
                let mut out = vec![];
                write_member(&mut out, &m.rec, *d);
                let mut it = match members(&[out, vec![0; 1024]].concat()) {
                    Ok(x) => x,
                    Err(_) => return false,
                };
                let w = it.pop().unwrap();
                // python's tarfile fills in device numbers, and ends the checksum in another way
                let strip = |h: &[u8]| -> Vec<u8> {
                    let mut h = h.to_vec();
                    for i in (148..156).chain(329..345) {
                        h[i] = 0;
                    }
                    h
                };
                strip(&w.header) == strip(&m.header) && w.data.len() == m.data.len() && w.data.iter().zip(&m.data).take(12).all(|(a, b)| a == b)
            });
            ensure!(same, "the writer writes {} in another way", what);
        }
        Ok(())
    });
    let dirs: Vec<&str> = DIRS.iter().cloned().filter(|d| Path::new(d).is_dir()).collect();
    c.explore("fixture_backups", "the backups of the repository's tests, each plain and compressed again: every snapshot shows what its archives say", Opt::default(), &|ch| {
        let d = *ch.of(&dirs);
        let level = ch.pick(3) as u32;
        ch.state(&(d, level));
        ch.nontrivial();
        let mut fs: BTreeMap<String, Arc<Vec<u8>>> = BTreeMap::new();
        let mut want: Vec<(String, Tree)> = vec![];
        let mut chains: BTreeMap<String, Vec<(String, Vec<Member>)>> = BTreeMap::new();
        for e in std::fs::read_dir(d).map_err(|e| e.to_string())?.flatten() {
            let n = e.file_name().into_string().unwrap();
            if !e.path().is_file() {
                continue;
            }
            let mut data = std::fs::read(e.path()).map_err(|e| e.to_string())?;
            let mut name = n.clone();
            if n.ends_with("sigtar.gz") {
                let tar = unzipped(&e.path())?;
                let m = members(&tar)?;
                // full signatures start a chain, the others follow the one that ends where they start
                let parts: Vec<&str> = n.split('.').collect();
                let end = if parts[2] == "to" { parts[3] } else { parts[1] };
                chains.entry(end.to_string()).or_default().push((if parts[2] == "to" { parts[1].to_string() } else { String::new() }, m));
                match level {
                    0 => {
                        name = n.trim_end_matches(".gz").to_string();
                        data = tar;
                    }
                    1 => data = gz(&tar, 9),
                    _ => {}
                }
            }
            fs.insert(name, Arc::new(data));
        }
        for (end, v) in &chains {
            for (start, ms) in v {
                let mut t = if start.is_empty() { Tree::new() } else { want.iter().find(|w| w.0 == *start).ok_or("an archive without its predecessor")?.1.clone() };
                for m in ms {
                    match &m.rec.node {
                        Some(n) => drop(t.insert(m.rec.path.clone(), n.clone())),
                        None => drop(t.remove(&m.rec.path)),
                    }
                }
                want.push((end.clone(), t));
            }
        }
        let b = ruplicity::Backup::new(Mem::new(&fs)).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), want.len(), "snapshots of {}", d);
        for (s, (end, t)) in snaps.iter().zip(&want) {
            let e = s.entries().map_err(|e| e.to_string())?;
            check_listing(e.as_signature(), t, &format!("snapshot {} of {}", end, d))?;
            ch.step();
        }
        ch.outcome(&snaps.len());
        Ok(())
    });
}

/// Manifests: the writer writes them byte for byte.
pub fn manifests(c: &mut Ctx) {
    let all = files(".manifest");
    if all.is_empty() {
        return;
    }
    c.explore("written_by_duplicity", &format!("the {} manifests of the repository's tests, written by duplicity: written again by the checks' writer byte for byte, and read by the library", all.len()), Opt::default(), &|ch| {
        let p = ch.of(&all);
        ch.note(|| p.display().to_string());
        ch.state(p);
        ch.nontrivial();
        let bytes = std::fs::read(p).map_err(|e| e.to_string())?;
        let unquote = |s: &[u8]| -> Vec<u8> {
            if s.first() != Some(&b'"') {
                return s.to_vec();
            }
            let s = &s[1..s.len() - 1];
            let mut o = vec![];
            let mut i = 0;
            while i < s.len() {
                if s[i] == b'\\' {
                    o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 2..i + 4]).unwrap(), 16).unwrap());
                    i += 4;
                } else {
                    o.push(s[i]);
                    i += 1;
                }
            }
            o
        };
        let mut m = Man { host: String::new(), dir: vec![], vols: vec![] };
        for l in bytes.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
            let w: Vec<&[u8]> = l.split(|b| *b == b' ').filter(|w| !w.is_empty()).collect();
            let block = w.get(2).and_then(|b| std::str::from_utf8(b).ok()).and_then(|b| b.parse().ok());
            match w[0] {
                b"Hostname" => m.host = String::from_utf8_lossy(w[1]).into_owned(),
                b"Localdir" => m.dir = unquote(w[1]),
                b"Volume" => m.vols.push(Vol { start: vec![], sblock: None, end: vec![], eblock: None, hash_type: String::new(), hash: vec![] }),
                k => {
                    let v = m.vols.last_mut().ok_or("a line before the first volume")?;
                    match k {
                        b"StartingPath" => (v.start, v.sblock) = (unquote(w[1]), block),
                        b"EndingPath" => (v.end, v.eblock) = (unquote(w[1]), block),
                        b"Hash" => {
                            v.hash_type = String::from_utf8_lossy(w[1]).into_owned();
                            v.hash = w[2].chunks(2).map(|h| u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()).collect();
                        }
                        _ => return Err("unknown line".into()),
                    }
                }
            }
        }
        ensure!(m.bytes() == bytes, "the writer writes the manifest in another way:\n{}\n{}", String::from_utf8_lossy(&m.bytes()), String::from_utf8_lossy(&bytes));
        let got = parse_manifest(&bytes).map_err(|e| format!("rejected: {}", e))?;
        ch.outcome(&m);
        check_manifest(&got, &m)
    });
}

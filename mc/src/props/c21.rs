//! C21: a torn or damaged signature file is never read as a whole one.
use super::c05::chain_of;
use super::c09::tree;
use crate::engine::*;
use crate::world::*;
use ruplicity::collections::Collections;
use ruplicity::signatures::Chain;
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::sync::Arc;

/// What was backed up, and the signature files that say so.
struct Sample {
    coll: Collections,
    names: Vec<String>,
    trees: Vec<Tree>,
    tars: Vec<Vec<u8>>,
    gz: Option<u32>,
    files: Vec<Arc<Vec<u8>>>,
    label: String,
}

fn small(n: i64) -> Tree {
    let mut t = Tree::new();
    t.insert(comps("a"), Node::new(Kind::File, n as u64));
    if n % 2 == 0 {
        t.insert(comps("d"), Node::new(Kind::Dir, 1));
    } else {
        t.insert(comps("e"), Node::new(Kind::Sym, n as u64));
    }
    t
}
/// Members with long names and names that are not ASCII: several headers per entry.
fn wordy(n: i64) -> Tree {
    let mut t = small(n);
    t.insert(vec![vec![b'l'; 130]], Node::new(Kind::Sym, n as u64));
    let mut x = Node::new(Kind::File, n as u64);
    x.uname = "d\u{e9}j\u{e0}".as_bytes().to_vec();
    x.uid = 1001;
    x.mtime = -5;
    t.insert(vec!["\u{e9}".as_bytes().to_vec()], x);
    t
}

fn sample(label: &str, make: &dyn Fn(i64) -> Tree, len: usize, dialect: Dialect, level: Option<u32>) -> Sample {
    let (coll, names) = chain_of(len, if level.is_some() { "sigtar.gz" } else { "sigtar" });
    let trees: Vec<Tree> = (0..len as i64).map(make).collect();
    let mut tars: Vec<Vec<u8>> = (0..len).map(|i| sigtar(&diff(if i == 0 { None } else { Some(&trees[i - 1]) }, &trees[i]), dialect)).collect();
    if label.starts_with("padded") {
        // filled up to a multiple of 10240 bytes, as python's tarfile does
        for t in &mut tars {
            t.resize((t.len() + 10_239) / 10_240 * 10_240, 0);
        }
    }
    let files = tars.iter().map(|t| Arc::new(match level { Some(l) => gz(t, l), None => t.clone() })).collect();
    Sample { coll, names, trees, tars, gz: level, files, label: format!("{} x{} {:?} {:?}", label, len, dialect, level) }
}

impl Sample {
    /// Reads the chain with one of its files replaced.
    fn with(&self, at: usize, data: Vec<u8>, ch: &mut Ch) -> R {
        let same = data == *self.files[at];
        let mut files: BTreeMap<String, Arc<Vec<u8>>> = self.names.iter().cloned().zip(self.files.iter().cloned()).collect();
        files.insert(self.names[at].clone(), Arc::new(data));
        let mem = Mem::new(&files);
        match Chain::from_sigchain(self.coll.signature_chains().next().unwrap(), &mem) {
            Err(e) => {
                ensure!(!same, "whole files are rejected: {}", e);
                ch.outcome(&(at, e.to_string()));
                Ok(())
            }
            Ok(c) => {
                ensure_eq!(c.snapshots().count(), self.trees.len(), "number of snapshots");
                ch.outcome(&at);
                for (i, s) in c.snapshots().enumerate() {
                    check_listing(s.files(), &self.trees[i], &format!("with the signature file of backup {} damaged, snapshot {} is listed without an error", at, i))?;
                }
                Ok(())
            }
        }
    }
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "the file is damaged".into();
    c.assumptions = vec![
        "damage inside a gzip stream is told by its checksum; in a plain archive only a cut, or a change inside a record header, can be told at all".into(),
        "archives end with two zero blocks, as duplicity's tarfile writes them".into(),
    ];
    let levels = [None, Some(0), Some(1), Some(6), Some(9)];
    let dialects = [Dialect::Gnu, Dialect::Pax];
    let lens: Vec<usize> = c.by_tier(vec![1, 3], vec![1, 2, 3, 4]);
    let mut samples = vec![];
    for l in &levels {
        for d in &dialects {
            for n in &lens {
                samples.push(sample("small", &small, *n, *d, *l));
                samples.push(sample("trees", &|k| tree(k), *n, *d, *l));
                samples.push(sample("wordy", &wordy, *n, *d, *l));
            }
        }
    }
    for l in &levels {
        samples.push(sample("padded small", &small, 1, Dialect::Gnu, *l));
        samples.push(sample("padded wordy", &wordy, 2, Dialect::Pax, *l));
    }
    samples.push(sample("nothing", &|_| Tree::new(), 2, Dialect::Gnu, None));
    samples.push(sample("nothing", &|_| Tree::new(), 2, Dialect::Gnu, Some(6)));
    let long = c.by_tier(60, 400);
    let many = move |k: i64| -> Tree { (0..long).map(|i| (comps(&format!("dir{}/file{}", i % 7, i)), Node::new(Kind::File, (i as u64 * 7 + k as u64) % 900))).collect() };
    let big = vec![sample("many", &many, 1, Dialect::Gnu, Some(6)), sample("many", &many, 2, Dialect::Pax, Some(1))];
    c.explore("cuts", &format!("{} chains of signature archives (plain and gzip levels 0, 1, 6, 9; GNU and pax; with nothing, few, long-named entries), each file of each cut at every byte", samples.len()), Opt::default(), &|ch| {
        let s = ch.of(&samples);
        let at = ch.pick(s.files.len());
        let f = &s.files[at];
        let cut = ch.pick(f.len() + 1);
        ch.state(&(&s.label, at, cut));
        if cut < f.len() {
            ch.nontrivial();
            ch.faults(1);
        }
        ch.note(|| format!("{}: file {} cut to {} of {} bytes", s.label, at, cut, f.len()));
        s.with(at, f[..cut].to_vec(), ch).map_err(|e| format!("{}, cut to {} of {} bytes: {}", s.label, cut, f.len(), e))
    });
    c.explore("cuts_large", &format!("archives of {} entries, gzip-compressed, cut at every byte", long), Opt::default(), &|ch| {
        let s = ch.of(&big);
        let at = ch.pick(s.files.len());
        let f = &s.files[at];
        let cut = ch.pick(f.len() + 1);
        ch.state(&(&s.label, at, cut));
        ch.nontrivial();
        ch.faults(1);
        s.with(at, f[..cut].to_vec(), ch).map_err(|e| format!("{}, cut to {} of {} bytes: {}", s.label, cut, f.len(), e))
    });
    let zipped: Vec<&Sample> = samples.iter().filter(|s| s.gz.map_or(false, |l| l > 0)).collect();
    // archives that go on after their end, so that the checksum is far from it
    let fills: Vec<usize> = c.by_tier(vec![200_000, 1_500_000], vec![10_000, 70_000, 200_000, 530_000, 1_500_000, 4_500_000]);
    let mut filled = vec![];
    for l in [0, 6] {
        for n in &fills {
            let (coll, names) = chain_of(1, "sigtar.gz");
            let t = sigtar(&diff(None, &wordy(1)), Dialect::Pax);
            let mut tar = t.clone();
            tar.resize((t.len() + n) / 512 * 512, 0);
            let f = gz(&tar, l);
            // where the entries are in the file
            let near = if l == 0 { t.len() } else { gz(&t, l).len() };
            filled.push((Sample { coll, names, trees: vec![wordy(1)], files: vec![Arc::new(f)], tars: vec![tar], gz: Some(l), label: format!("filled {} {}", n, l) }, near));
        }
    }
    c.explore("far_checksum", &format!("archives followed by {:?} bytes of zeros, compressed or stored, each byte of the part with the entries changed", fills), Opt::default(), &|ch| {
        let (s, near) = ch.of(&filled);
        let i = ch.pick(*near);
        let x = *ch.of(if s.gz == Some(0) { &[1][..] } else { &[1, 8, 64, 0xff][..] });
        let mut d = s.files[0].to_vec();
        d[i] ^= x;
        ch.state(&(&s.label, i, x));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{}: byte {} changed by {:#x}", s.label, i, x));
        s.with(0, d, ch).map_err(|e| format!("{}, byte {} changed by {:#x}: {}", s.label, i, x, e))
    });
    let stored: Vec<&Sample> = samples.iter().filter(|s| s.gz == Some(0) && s.files.len() == 1).collect();
    let values: Vec<u8> = c.by_tier(vec![1, 2, 4, 8, 16, 32, 64, 128, 0xff], (1..=255).collect());
    c.explore("gzip_bytes", "every byte of every compressed file changed: in every bit and in all bits (quick), to every other value (thorough)", Opt::default(), &|ch| {
        let s = *ch.of(&zipped);
        let at = ch.pick(s.files.len());
        let f = &s.files[at];
        let i = ch.pick(f.len());
        let x = *ch.of(&values);
        ch.state(&(&s.label, at, i, x));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{}: byte {} of file {} changed by {:#x}", s.label, i, at, x));
        let mut d = f.to_vec();
        d[i] ^= x;
        s.with(at, d, ch).map_err(|e| format!("{}, byte {} changed by {:#x}: {}", s.label, i, x, e))
    });
    c.explore("gzip_stored_bytes", "every byte of archives stored in gzip files without compression changed in one bit, in all bits, and to zero", Opt::default(), &|ch| {
        let s = *ch.of(&stored);
        let f = &s.files[0];
        let i = ch.pick(f.len());
        let mut d = f.to_vec();
        match ch.pick(3) {
            0 => d[i] ^= 1,
            1 => d[i] ^= 0xff,
            _ => d[i] = 0,
        }
        ch.state(&(&s.label, i, d[i]));
        ch.nontrivial();
        ch.faults(1);
        s.with(0, d, ch).map_err(|e| format!("{}, byte {} changed: {}", s.label, i, e))
    });
    let ranged: Vec<&Sample> = zipped.iter().filter(|s| s.files.len() == 1 && (s.label.contains("small") || c.thorough()) && (c.thorough() || s.gz != Some(9))).cloned().collect();
    c.explore("gzip_ranges", "every run of bytes of a compressed file lost, doubled or replaced by zeros", Opt::default(), &|ch| {
        let s = *ch.of(&ranged);
        let f = &s.files[0];
        let i = ch.pick(f.len());
        let j = i + 1 + ch.pick(f.len() - i);
        let mut d = f[..i].to_vec();
        let how = ch.pick(3);
        match how {
            0 => {}
            1 => {
                d.extend(&f[i..j]);
                d.extend(&f[i..j]);
            }
            _ => d.extend(vec![0; j - i]),
        }
        d.extend(&f[j..]);
        ch.state(&d);
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{}: bytes {}..{} {}", s.label, i, j, ["lost", "doubled", "zeroed"][how]));
        s.with(0, d, ch).map_err(|e| format!("{}, bytes {}..{} {}: {}", s.label, i, j, ["lost", "doubled", "zeroed"][how], e))
    });
    // a crash leaves any subset of the sectors unwritten
    let sector: usize = c.by_tier(1024, 512);
    c.explore("torn_sectors", &format!("every subset of the sectors of {} bytes of an uncompressed gzip file, and of 16 or 32 bytes of a compressed one, not written: zeros, or what an older file had there", sector), Opt::default(), &|ch| {
        let s = if ch.flag() { *ch.of(&ranged) } else { *ch.of(&stored[..2]) };
        let f = &s.files[0];
        let size = if s.gz == Some(0) { sector } else { (f.len() / 14 / 16 + 1) * 16 };
        let stale = ch.flag();
        let old = gz(&sigtar(&diff(None, &small(8)), Dialect::Gnu), s.gz.unwrap());
        let mut d = f.to_vec();
        let mut lost = vec![];
        for (k, chunk) in d.chunks_mut(size).enumerate() {
            if ch.flag() {
                lost.push(k);
                for (o, b) in chunk.iter_mut().enumerate() {
                    *b = if stale { old.get(k * size + o).cloned().unwrap_or(0) } else { 0 };
                }
            }
        }
        // an older file as a whole is not damaged
        if d.starts_with(&old) {
            return Ok(());
        }
        ch.state(&d);
        ch.nontrivial();
        ch.faults(lost.len() as u64);
        ch.note(|| format!("{}: sectors {:?} of {} bytes {}", s.label, lost, size, if stale { "stale" } else { "zero" }));
        s.with(0, d, ch).map_err(|e| format!("{}, sectors {:?} of {} bytes not written ({}): {}", s.label, lost, size, if stale { "stale" } else { "zeros" }, e))
    });
    let plain: Vec<&Sample> = samples.iter().filter(|s| s.gz.is_none() && s.files.len() != 3).collect();
    c.explore("header_bytes", "every byte of every header of plain archives changed: in every bit and in all bits (quick), to every other value (thorough)", Opt::default(), &|ch| {
        let s = *ch.of(&plain);
        let at = ch.pick(s.files.len());
        let heads: Vec<usize> = (0..s.tars[at].len() / 512).map(|k| k * 512).filter(|p| &s.tars[at][p + 257..p + 262] == b"ustar").collect();
        if heads.is_empty() {
            return Ok(());
        }
        let p = *ch.of(&heads) + ch.pick(512);
        let x = *ch.of(&values);
        ch.state(&(&s.label, at, p, x));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{}: byte {} of file {} changed by {:#x}", s.label, p, at, x));
        let mut d = s.files[at].to_vec();
        d[p] ^= x;
        s.with(at, d, ch).map_err(|e| format!("{}, byte {} changed by {:#x}: {}", s.label, p, x, e))
    });
    // the same through a backup that stays open while the file is repaired
    let step = c.by_tier(23usize, 3);
    let shape = [2usize, 1, 2];
    c.explore("repaired", &format!("backups with chains of 2, 1 and 2 snapshots, one signature file cut at every {}th byte or with that byte changed: every snapshot is read in every rotation of the order, the file is repaired, and all are read again", step), Opt::default(), &|ch| {
        let level = *ch.of(&levels[..4]);
        let mut r = Repo::default();
        let mut k = 0;
        for n in shape {
            for i in 0..n {
                r.backup(i == 0, at(k), tree(k), 1, &SigStyle { dialect: Dialect::Gnu, gz: level });
                k += 1;
            }
        }
        let victim = ch.pick(r.snaps.len());
        let name = r.snaps[victim].sig_name.clone();
        let f = r.files[&name].clone();
        let pos = step * ch.pick(f.len() / step);
        let cut = level.is_none() || ch.flag();
        let mut d = f.to_vec();
        if cut {
            d.truncate(pos);
        } else {
            d[pos] ^= 0x55;
        }
        let mut files = r.files.clone();
        files.insert(name.clone(), Arc::new(d));
        let mem = Mem::new(&files);
        let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        let snaps: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        ensure_eq!(snaps.len(), r.snaps.len(), "snapshots");
        let first = ch.pick(snaps.len());
        ch.state(&(level, victim, pos, cut, first));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("{:?}: signature file {} {} at {} of {}, reading from snapshot {}", level, victim, if cut { "cut" } else { "changed" }, pos, f.len(), first));
        let mut res = vec![];
        for i in (0..snaps.len()).map(|i| (first + i) % snaps.len()) {
            match snaps[i].entries() {
                Ok(e) => {
                    check_listing(e.as_signature(), &r.snaps[i].tree, &format!("signature file {} {} at byte {} of {}, snapshot {}", victim, if cut { "cut" } else { "changed" }, pos, f.len(), i))?;
                    res.push(true);
                }
                Err(e) => {
                    ensure!(r.snaps[i].chain == r.snaps[victim].chain, "signature file {} is damaged, and snapshot {} of another chain cannot be listed: {}", victim, i, e);
                    res.push(false);
                }
            }
        }
        mem.0.borrow_mut().files.insert(name, f.clone());
        for (i, s) in snaps.iter().enumerate() {
            let e = s.entries().map_err(|e| format!("snapshot {} cannot be listed once signature file {} is whole again: {}", i, victim, e))?;
            check_listing(e.as_signature(), &r.snaps[i].tree, &format!("after the repair of file {}, snapshot {}", victim, i))?;
        }
        ch.outcome(&(victim, res));
        Ok(())
    });
}

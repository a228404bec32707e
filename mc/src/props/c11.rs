//! C11: how data arrives does not change what is read.
use super::c05::chain_of;
use crate::engine::*;
use crate::world::*;
use ruplicity::backend::Backend;
use ruplicity::collections::Collections;
use ruplicity::manifest::Manifest;
use ruplicity::signatures::Chain;
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;
use std::sync::Arc;

type Files = BTreeMap<String, Arc<Vec<u8>>>;

fn trees(n: usize) -> Vec<Tree> {
    let mut t = Tree::new();
    t.insert(vec![], Node::new(Kind::Dir, 0));
    t.insert(comps("d"), Node::new(Kind::Dir, 0));
    for i in 0..n {
        t.insert(comps(&format!("d/f{}", i)), Node::new(Kind::File, i as u64 % 5));
    }
    t.insert(comps("l"), Node::new(Kind::Sym, 1));
    t.insert(vec![vec![b'n'; 130]], Node::new(Kind::File, 1));
    let mut u = t.clone();
    u.remove(&comps("l"));
    u.insert(comps("d/f0"), Node::new(Kind::File, 9));
    u.insert(comps("m"), Node::new(Kind::File, 2));
    vec![t, u]
}

fn manifest(n: usize) -> Man {
    Man {
        host: "myhost".into(), dir: b"/home/some one".to_vec(),
        vols: (0..n).map(|i| Vol { start: format!("a path/{}", i).into_bytes(), sblock: if i % 2 == 0 { None } else { Some(i) }, end: vec![b'b', i as u8, b'"', b'z'], eblock: Some(i * 7), hash_type: "SHA1".into(), hash: (0..20).map(|k| (k * 13 + i) as u8).collect() }).collect(),
    }
}

/// Every way to store an archive.
fn encodings(tar: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = (0..=9).map(|l| (format!("gzip level {}", l), gz(tar, l))).collect();
    // as python's gzip module writes it: with the file name and a time
    let mut e = flate2::GzBuilder::new().filename("duplicity-full-signatures.sigtar").mtime(1_434_565_545).write(vec![], flate2::Compression::new(9));
    e.write_all(tar).unwrap();
    v.push(("gzip with a name".into(), e.finish().unwrap()));
    let mut e = flate2::GzBuilder::new().extra(vec![7; 40]).comment("c").write(vec![], flate2::Compression::new(6));
    e.write_all(tar).unwrap();
    v.push(("gzip with extra fields".into(), e.finish().unwrap()));
    v.push(("plain".into(), tar.to_vec()));
    v
}

struct Case {
    coll: Collections,
    names: Vec<String>,
    files: Files,
    trees: Vec<Tree>,
}
fn case(n: usize, plain: bool, level: u32) -> Case {
    let (coll, names) = chain_of(2, if plain { "sigtar" } else { "sigtar.gz" });
    let trees = trees(n);
    let mut files = Files::new();
    for (i, name) in names.iter().enumerate() {
        let tar = sigtar(&diff(if i == 0 { None } else { Some(&trees[0]) }, &trees[i]), Dialect::Gnu);
        files.insert(name.clone(), Arc::new(if plain { tar } else { gz(&tar, level) }));
    }
    Case { coll, names, files, trees }
}

fn read_case(c: &Case, mem: &Mem, what: &str) -> R {
    let chain = Chain::from_sigchain(c.coll.signature_chains().next().unwrap(), mem).map_err(|e| format!("{}: reading failed: {}", what, e))?;
    ensure_eq!(chain.snapshots().count(), c.trees.len(), "{}: snapshots", what);
    for (i, s) in chain.snapshots().enumerate() {
        check_listing(s.files(), &c.trees[i], &format!("{}: snapshot {}", what, i))?;
    }
    Ok(())
}

fn read_man(m: &Man, mem: &Mem, buf: usize, what: &str) -> R {
    let f = mem.open_file(Path::new("m")).map_err(|e| e.to_string())?;
    let got = Manifest::parse(&mut std::io::BufReader::with_capacity(buf, f)).map_err(|e| format!("{}: parsing failed: {}", what, e))?;
    check_manifest(&got, m).map_err(|e| format!("{}: {}", what, e))
}

pub fn run(c: &mut Ctx) {
    c.rule = "the data arrives in more reads than were asked for, or in another encoding".into();
    c.assumptions = vec!["a gzip file has one member, as duplicity writes it".into()];
    let cases: Vec<(&str, Case)> = vec![("plain", case(2, true, 0)), ("gzip", case(2, false, 6)), ("gzip_stored", case(1, false, 0))];
    for (label, cs) in &cases {
        let len: Vec<usize> = cs.names.iter().map(|n| cs.files[n].len()).collect();
        c.explore(Box::leak(format!("one_cut_{}", label).into_boxed_str()), &format!("one short read at every offset of signature files of {:?} bytes", len), Opt::default(), &|ch| {
            let f = ch.pick(2);
            let off = ch.pick(len[f] + 1);
            let mem = Mem::new(&cs.files);
            mem.0.borrow_mut().cuts.insert(cs.names[f].clone(), vec![off]);
            ch.state(&(f, off));
            ch.nontrivial();
            ch.outcome(&(f, off));
            ch.note(|| format!("{} {}: read ends at {}", label, cs.names[f], off));
            read_case(cs, &mem, &format!("{}, file {} of {} bytes with a read ending at {}", label, f, len[f], off))
        });
        let stride = match (*label, c.thorough()) {
            ("gzip", _) => 1,
            (_, false) => 11,
            (_, true) => 5,
        };
        c.explore(Box::leak(format!("two_cuts_{}", label).into_boxed_str()), &format!("two short reads at every pair of offsets (every {}th) of a signature file", stride), Opt::default(), &|ch| {
            let f = 1 - ch.pick(2);
            let n = len[f] / stride;
            let a = ch.pick(n);
            let b = a + 1 + ch.pick(n - a);
            let mem = Mem::new(&cs.files);
            mem.0.borrow_mut().cuts.insert(cs.names[f].clone(), vec![a * stride, b * stride]);
            ch.state(&(f, a, b));
            ch.nontrivial();
            ch.outcome(&(f, a, b));
            read_case(cs, &mem, &format!("{}, file {} of {} bytes with reads ending at {} and {}", label, f, len[f], a * stride, b * stride))
        });
    }
    let big = c.by_tier(150, 400);
    let bigs = vec![case(big, true, 0), case(big, false, 0), case(big, false, 1), case(big, false, 9)];
    let chunks: Vec<usize> = c.by_tier((1..=40).chain([63, 64, 100, 255, 256, 511, 512, 513, 1000, 4096, 8191, 8192, 8193, 32_767, 32_768, 32_769]).collect(), (1..=1100).chain([4095, 4096, 8191, 8192, 8193, 32_767, 32_768, 32_769, 65_536]).collect());
    c.explore("fixed_chunks", "archives of many entries read in pieces of every size", Opt::default(), &|ch| {
        let k = ch.pick(bigs.len());
        let chunk = *ch.of(&chunks);
        let mem = Mem::new(&bigs[k].files);
        mem.0.borrow_mut().chunk = chunk;
        ch.state(&(k, chunk));
        ch.nontrivial();
        ch.outcome(&(k, chunk));
        ch.note(|| format!("archive {} in reads of {}", k, chunk));
        read_case(&bigs[k], &mem, &format!("archive {} read {} bytes at a time", k, chunk))
    });
    c.explore("long_archive_cuts", "one short read around every buffer boundary of a long archive", Opt::default(), &|ch| {
        let k = ch.pick(bigs.len());
        let f = ch.pick(2);
        let len = bigs[k].files[&bigs[k].names[f]].len();
        let unit = *ch.of(&[512usize, 4096, 8192, 32_768]);
        let at = (ch.pick(len / unit + 1) * unit + ch.pick(5)).saturating_sub(2);
        let mem = Mem::new(&bigs[k].files);
        mem.0.borrow_mut().cuts.insert(bigs[k].names[f].clone(), vec![at]);
        ch.state(&(k, f, at));
        ch.nontrivial();
        ch.outcome(&(k, f, at));
        read_case(&bigs[k], &mem, &format!("archive {} file {} with a read ending at {}", k, f, at))
    });
    // encodings, end to end through the file names
    c.explore("encodings", "every pair of encodings of the full and the incremental signature file, with several read sizes, through Backup", Opt::default(), &|ch| {
        let mut repo = Repo::default();
        let ts = trees(ch.pick(3));
        let mut labels = vec![];
        let chunk = *ch.of(&[usize::MAX, 1, 10, 512]);
        for (i, t) in ts.iter().enumerate() {
            repo.backup(i == 0, at(i as i64), t.clone(), 1, &SigStyle { dialect: Dialect::Gnu, gz: None });
            let s = repo.snaps[i].sig_name.clone();
            let tar = repo.files.remove(&s).unwrap();
            let (l, data) = ch.of(&encodings(&tar)).clone();
            repo.files.insert(if l == "plain" { s } else { format!("{}.gz", s) }, Arc::new(data));
            labels.push(l);
        }
        ch.state(&(&labels, chunk, ts[0].len()));
        ch.nontrivial();
        ch.note(|| format!("{:?}, reads of {}", labels, chunk));
        ch.outcome(&(&labels, chunk, ts[0].len()));
        let mem = Mem::new(&repo.files);
        mem.0.borrow_mut().chunk = chunk;
        let b = Backup::new(mem).map_err(|e| e.to_string())?;
        let mut n = 0;
        for (i, s) in b.snapshots().map_err(|e| e.to_string())?.into_iter().enumerate() {
            let e = s.entries().map_err(|e| format!("{:?}: snapshot {}: {}", labels, i, e))?;
            check_listing(e.as_signature(), &ts[i], &format!("{:?}: snapshot {}", labels, i))?;
            let m = s.manifest().map_err(|e| format!("manifest {}: {}", i, e))?;
            check_manifest(&m, &repo.snaps[i].man).map_err(|e| format!("manifest {} in reads of {}: {}", i, chunk, e))?;
            n += 1;
        }
        ensure_eq!(n, 2, "snapshots");
        Ok(())
    });
    // archives of any size: whatever is read must not depend on how large the file is
    let top = c.by_tier(23, 27);
    let sizes: Vec<usize> = (16..=top).flat_map(|k| { let p = 1usize << k; vec![p - 1024, p, p + 1024, p + p / 2] }).collect();
    c.explore("large_archives", &format!("archives of {} sizes up to {} bytes, stored plain or compressed, with entries at the very end", sizes.len(), sizes.last().unwrap()), Opt { threads: 4, ..Opt::default() }, &|ch| {
        let size = *ch.of(&sizes);
        let plain = ch.flag();
        let which = ch.pick(2);
        let (coll, names) = chain_of(2, if plain { "sigtar" } else { "sigtar.gz" });
        let mut trees = trees(1);
        let base = sigtar(&diff(if which == 0 { None } else { Some(&trees[0]) }, &trees[which]), Dialect::Gnu).len();
        // one file early in the archive has a signature as large as it takes
        let mut bulk = Node::new(Kind::File, 1);
        bulk.len = (size - base - 1024) as u64 / 12 * BLOCK as u64;
        for t in &mut trees[which..] {
            t.insert(comps("bulk"), bulk.clone());
        }
        let mut files = Files::new();
        for i in 0..2 {
            let tar = sigtar(&diff(if i == 0 { None } else { Some(&trees[0]) }, &trees[i]), Dialect::Gnu);
            files.insert(names[i].clone(), Arc::new(if plain { tar } else { gz(&tar, 1) }));
        }
        ch.state(&(size, plain, which));
        ch.nontrivial();
        ch.outcome(&(size, plain, which));
        ch.note(|| format!("{} bytes, {}, file {}", size, if plain { "plain" } else { "compressed" }, which));
        let mem = Mem::new(&files);
        read_case(&Case { coll, names, files, trees }, &mem, &format!("an archive of about {} bytes, {}", size, if plain { "plain" } else { "compressed" }))
    });
    // manifests
    let man = manifest(2);
    let bytes = man.bytes();
    let crlf: Vec<u8> = bytes.iter().flat_map(|b| if *b == b'\n' { vec![b'\r', b'\n'] } else { vec![*b] }).collect();
    let forms: Vec<Files> = [bytes.clone(), crlf, bytes[..bytes.len() - 1].to_vec()].into_iter().map(|b| [("m".to_string(), Arc::new(b))].into_iter().collect()).collect();
    let st = 1;
    c.explore("manifest_cuts", &format!("two short reads at every pair of offsets (every {}th) of a manifest with LF, CRLF or no final newline", st), Opt::default(), &|ch| {
        let k = ch.pick(forms.len());
        let n = forms[k]["m"].len() / st;
        let a = ch.pick(n);
        let b = a + 1 + ch.pick(n - a);
        let mem = Mem::new(&forms[k]);
        mem.0.borrow_mut().cuts.insert("m".into(), vec![a * st, b * st]);
        ch.state(&(k, a, b));
        ch.nontrivial();
        ch.outcome(&(k, a, b));
        read_man(&man, &mem, 8192, &format!("manifest form {} with reads ending at {} and {}", k, a * st, b * st))
    });
    let long = manifest(c.by_tier(120, 250));
    let longf: Files = [("m".to_string(), Arc::new(long.bytes()))].into_iter().collect();
    c.explore("manifest_buffers", "a manifest of many volumes through buffers of every size up to 600 bytes, and reads of several sizes", Opt::default(), &|ch| {
        let buf = 1 + ch.pick(600);
        let chunk = *ch.of(&[usize::MAX, 1, 3, 64]);
        let mem = Mem::new(&longf);
        mem.0.borrow_mut().chunk = chunk;
        ch.state(&(buf, chunk));
        ch.nontrivial();
        ch.outcome(&(buf, chunk));
        read_man(&long, &mem, buf, &format!("a long manifest through a buffer of {} bytes in reads of {}", buf, chunk))
    });
}

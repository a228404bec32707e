//! C22: only what is asked for is read.
use crate::engine::*;
use crate::model::{parse_name, Kind as NameKind};
use crate::world::*;
use ruplicity::backend::Backend;
use ruplicity::{Backup, Snapshot};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, ErrorKind, Read};
use std::path::Path;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

/// What was asked of the backend during one operation.
#[derive(Default)]
struct Watch {
    files: BTreeMap<String, Arc<Vec<u8>>>,
    listing: Vec<String>,
    lists: u32,
    opened: Vec<Vec<u8>>, // since the last operation
    live: usize,          // streams open now
    live_max: usize,
    calls: u64,
    fail_at: Option<u64>,
    fired: bool,
}

#[derive(Clone)]
struct Watched(Rc<RefCell<Watch>>);
struct WatchedStream {
    w: Watched,
    data: Arc<Vec<u8>>,
    pos: usize,
}
impl Watched {
    fn new(files: &BTreeMap<String, Arc<Vec<u8>>>, listing: Vec<String>, fail_at: Option<u64>) -> Self {
        Watched(Rc::new(RefCell::new(Watch { files: files.clone(), listing, fail_at, ..Default::default() })))
    }
    fn call(&self) -> io::Result<()> {
        let mut w = self.0.borrow_mut();
        let n = w.calls;
        w.calls += 1;
        if w.fail_at == Some(n) {
            w.fired = true;
            return Err(io::Error::new(ErrorKind::Other, "injected failure"));
        }
        Ok(())
    }
}
impl Backend for Watched {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = WatchedStream;
    fn file_names(&self) -> io::Result<Vec<String>> {
        self.0.borrow_mut().lists += 1;
        self.call()?;
        Ok(self.0.borrow().listing.clone())
    }
    fn open_file(&self, name: &Path) -> io::Result<WatchedStream> {
        use std::os::unix::ffi::OsStrExt;
        self.0.borrow_mut().opened.push(name.as_os_str().as_bytes().to_vec());
        self.call()?;
        let mut w = self.0.borrow_mut();
        let data = name.to_str().and_then(|n| w.files.get(n)).cloned().ok_or_else(|| io::Error::new(ErrorKind::NotFound, "no such file"))?;
        w.live += 1;
        w.live_max = w.live_max.max(w.live);
        drop(w);
        Ok(WatchedStream { w: self.clone(), data, pos: 0 })
    }
}
impl Read for WatchedStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.w.call()?;
        let n = buf.len().min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Drop for WatchedStream {
    fn drop(&mut self) {
        self.w.0.borrow_mut().live -= 1;
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// iterate over the snapshots and look at what they say of themselves
    Snapshots,
    /// print the collections, look at every chain
    Collections,
    Entries(u8),
    Print(u8),
    Manifest(u8),
    /// look up paths in a manifest read before
    Lookup(u8),
}

/// The names that may be opened for the entries and for the manifest of a snapshot.
struct Allowed {
    sigs: BTreeSet<String>,
    mans: BTreeSet<String>,
}

/// `start` is the instant of the full backup of the chain.
fn allowed(listing: &[String], start: i64, span: (bool, i64, i64)) -> Allowed {
    let names: Vec<_> = listing.iter().filter_map(|n| parse_name(n).map(|p| (n, p))).collect();
    // the instants that signatures reach from the full backup on
    let mut reach: BTreeSet<i64> = [start].into();
    loop {
        let more: Vec<i64> = names.iter().filter(|(_, p)| p.kind == NameKind::Sig && !p.full && reach.contains(&p.start)).map(|(_, p)| p.end).filter(|e| !reach.contains(e)).collect();
        if more.is_empty() {
            break;
        }
        reach.extend(more);
    }
    Allowed {
        sigs: names.iter().filter(|(_, p)| p.kind == NameKind::Sig && if p.full { p.end == start } else { reach.contains(&p.start) }).map(|(n, _)| n.to_string()).collect(),
        mans: names.iter().filter(|(_, p)| p.kind == NameKind::Man && (p.full, p.start, p.end) == span).map(|(n, _)| n.to_string()).collect(),
    }
}

/// Runs the operations, comparing what is opened with what may be. Returns the number of backend calls.
fn run_ops(files: &BTreeMap<String, Arc<Vec<u8>>>, listing: &[String], ops: &[Op], fail_at: Option<u64>) -> Result<u64, String> {
    let w = Watched::new(files, listing.to_vec(), fail_at);
    let b = match Backup::new(w.clone()) {
        Ok(b) => b,
        Err(e) => {
            ensure!(w.0.borrow().fired, "opening the backup fails: {}", e);
            ensure!(w.0.borrow().opened.is_empty(), "opening the backup opens {:?}", w.0.borrow().opened.iter().map(|n| String::from_utf8_lossy(n).to_string()).collect::<Vec<_>>());
            return Ok(1);
        }
    };
    let shown = |v: &[Vec<u8>]| v.iter().map(|n| String::from_utf8_lossy(n).to_string()).collect::<Vec<_>>();
    ensure_eq!(w.0.borrow().lists, 1, "listings of the directory when the backup is opened");
    let silent = |what: &str| -> R {
        let s = w.0.borrow();
        ensure!(s.opened.is_empty(), "{} opens {:?}", what, shown(&s.opened));
        Ok(())
    };
    silent("opening the backup")?;
    let calls0 = w.0.borrow().calls;
    let snaps: Vec<Snapshot> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
    // the full backup each snapshot belongs to, as the chains say
    let mut starts = vec![];
    for c in b.snapshots().map_err(|e| e.to_string())?.as_collections().backup_chains() {
        for _ in 0..1 + c.inc_sets().len() {
            starts.push(c.start_time().sec);
        }
    }
    ensure_eq!(starts.len(), snaps.len(), "snapshots");
    let may: Vec<Allowed> = snaps.iter().zip(&starts).map(|(s, st)| {
        let x = s.as_backup_set();
        allowed(listing, *st, (x.is_full(), x.start_time().sec, x.end_time().sec))
    }).collect();
    ensure_eq!(w.0.borrow().calls, calls0, "calls of the backend after iterating over the snapshots");
    let mut done_chains: BTreeSet<i64> = BTreeSet::new();
    let mut done_mans: BTreeSet<u8> = BTreeSet::new();
    let mut mans = vec![];
    for (n, op) in ops.iter().enumerate() {
        let at = |m: String| format!("operation {} of {:?}: {}", n, ops, m);
        let c0 = {
            let mut s = w.0.borrow_mut();
            s.opened.clear();
            s.fired = false;
            s.live_max = 0;
            s.calls
        };
        // what may be opened, and whether nothing may be asked at all
        let (ok, known): (Option<bool>, bool) = match *op {
            Op::Snapshots => {
                for s in b.snapshots().map_err(|e| at(e.to_string()))? {
                    let x = s.as_backup_set();
                    let _ = (s.time(), s.is_full(), s.num_volumes(), x.is_complete(), x.is_partial(), x.volume_path(1), x.manifest_path().len());
                }
                (None, true)
            }
            Op::Collections => {
                let c = b.snapshots().map_err(|e| at(e.to_string()))?;
                let c = c.as_collections();
                let _ = (c.to_string(), c.num_snapshots());
                for s in c.signature_chains() {
                    let _ = s.to_string();
                }
                (None, true)
            }
            Op::Entries(i) => (Some(snaps[i as usize].entries().map(|e| e.as_signature().count()).is_ok()), done_chains.contains(&starts[i as usize])),
            Op::Print(i) => (Some(snaps[i as usize].entries().map(|e| e.to_string().len()).is_ok()), done_chains.contains(&starts[i as usize])),
            Op::Manifest(i) => {
                let r = snaps[i as usize].manifest();
                let ok = r.is_ok();
                mans.extend(r.ok());
                (Some(ok), done_mans.contains(&i))
            }
            Op::Lookup(i) => {
                if let Some(m) = mans.get(i as usize % mans.len().max(1)) {
                    let _ = (m.first_volume_of_path(b"p"), m.last_volume_of_path(b"p0 1"), m.volume(1).map(|v| v.hash().len()));
                }
                (None, true)
            }
        };
        let s = w.0.borrow();
        ensure_eq!(s.lists, 1, "{}", at("listings of the directory".into()));
        ensure_eq!(s.live, 0, "{}", at("files that stay open".into()));
        ensure!(s.live_max <= 8, "{}", at(format!("{} files were open at once", s.live_max)));
        if known && s.calls != c0 {
            return Err(at(format!("the answer was known, but the backend was asked {} times, opening {:?}", s.calls - c0, shown(&s.opened))));
        }
        let (sigs, man) = match *op {
            Op::Entries(i) | Op::Print(i) => (Some(&may[i as usize].sigs), None),
            Op::Manifest(i) => (None, Some(&may[i as usize].mans)),
            _ => (None, None),
        };
        let mut names: BTreeSet<&[u8]> = BTreeSet::new();
        for o in &s.opened {
            let name = std::str::from_utf8(o).map_err(|_| at(format!("opens {:?}", o)))?;
            ensure!(listing.iter().any(|l| l == name), "{}", at(format!("opens {:?}, which is not listed", name)));
            let set = sigs.or(man).ok_or_else(|| at(format!("opens {:?}", name)))?;
            ensure!(set.contains(name), "{}", at(format!("opens {:?}, but only {:?} belong to it", name, set)));
            ensure!(names.insert(&o[..]), "{}", at(format!("opens {:?} twice", name)));
        }
        // as many opens as the answer needs
        if let (Some(true), false, None) = (ok, known, man) {
            let fulls = s.opened.iter().filter(|o| parse_name(std::str::from_utf8(o).unwrap()).unwrap().full).count();
            ensure_eq!(fulls, 1, "{}", at("full signatures opened".into()));
        }
        if let (Some(true), false, Some(_)) = (ok, known, man) {
            ensure_eq!(s.opened.len(), 1, "{}", at("manifests opened".into()));
        }
        match (*op, ok) {
            (Op::Entries(i), Some(true)) | (Op::Print(i), Some(true)) => drop(done_chains.insert(starts[i as usize])),
            (Op::Manifest(i), Some(true)) => drop(done_mans.insert(i)),
            _ => {}
        }
    }
    let calls = w.0.borrow().calls;
    drop(mans);
    // the backend comes back as it was given
    drop(snaps);
    let back = b.into_inner();
    ensure!(Rc::ptr_eq(&back.0, &w.0), "into_inner gives another backend");
    ensure_eq!(w.0.borrow().calls, calls, "calls of the backend after into_inner");
    ensure_eq!(w.0.borrow().lists, 1, "listings of the directory after into_inner");
    Ok(calls)
}

fn repo(shape: &[usize]) -> Repo {
    let mut r = Repo::default();
    let mut k = 0;
    for (c, n) in shape.iter().enumerate() {
        for i in 0..*n {
            let mut t = Tree::new();
            t.insert(comps("c"), Node::new(Kind::Sym, c as u64));
            t.insert(comps(&format!("f{}", k)), Node::new(Kind::File, k as u64));
            r.backup(i == 0, at(k), t, 1 + i, &SigStyle { dialect: Dialect::Gnu, gz: if c % 2 == 0 { None } else { Some(1) } });
            k += 1;
        }
    }
    r
}

/// Foreign files, other spellings and leftovers next to the backup.
fn clutter(r: &Repo) -> BTreeMap<String, Arc<Vec<u8>>> {
    let mut f = r.files.clone();
    let s0 = &r.snaps[0];
    let sig = f[&s0.sig_name].clone();
    let man = f[&s0.man_name].clone();
    for n in ["manifest", "notes.txt", "duplicity-full.manifest", "duplicity-full-signatures.sigtar", "sub/duplicity-full.20150617T182545Z.manifest", ".", "", "duplicity-full.20150617T182545Z.manifest.bak~x"] {
        f.insert(n.to_string(), man.clone());
    }
    // a full backup that was stopped, and an incremental that follows nothing
    f.insert(full_name(at(50), "vol1.difftar.gz"), man.clone());
    f.insert(fullsig_name(at(50), "sigtar.part"), sig.clone());
    f.insert(newsig_name(at(60), at(61), "sigtar.gz"), sig.clone());
    f.insert(inc_name(at(60), at(61), "manifest"), man.clone());
    // a set that has only volumes
    f.insert(full_name(at(51), "vol2.difftar"), man);
    f
}

pub fn run(c: &mut Ctx) {
    c.rule = "a file was opened, or an answer already known was asked again".into();
    c.assumptions = vec!["an operation that failed may read everything again".into(), "at most 8 files are open at once, whatever the length of a chain (one would do)".into()];
    let shapes: Vec<(Vec<usize>, usize)> = c.by_tier(vec![(vec![2, 1], 4), (vec![1, 2], 3), (vec![3], 3)], vec![(vec![2, 1], 5), (vec![1, 2], 4), (vec![3], 5), (vec![2, 2], 4), (vec![1, 1, 1], 4)]);
    for (shape, depth) in &shapes {
        let r = repo(shape);
        let label = shape.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("-");
        let n = r.snaps.len();
        let mut al = vec![Op::Snapshots, Op::Collections, Op::Lookup(0)];
        for i in 0..n as u8 {
            al.extend([Op::Entries(i), Op::Print(i), Op::Manifest(i)]);
        }
        let depth = *depth;
        c.explore(Box::leak(format!("sequences_{}", label).into_boxed_str()), &format!("every sequence of {} of {} operations on chains of {:?} snapshots", depth, al.len(), shape), Opt::default(), &|ch| {
            let ops: Vec<Op> = (0..depth).map(|_| { ch.step(); *ch.of(&al) }).collect();
            ch.state(&ops);
            ch.note(|| format!("{:?}", ops));
            let names = r.names();
            let calls = run_ops(&r.files, &names, &ops, None)?;
            if calls > 1 {
                ch.nontrivial();
            }
            ch.outcome(&(ops, calls));
            Ok(())
        });
        // files missing, on disk or from the listing too
        let names = r.names();
        c.explore(Box::leak(format!("missing_{}", label).into_boxed_str()), "every subset of the signatures and manifests missing (gone before or after the listing), then every snapshot listed and its manifest read, twice", Opt::default(), &|ch| {
            let listed_too = ch.flag();
            let mut files = r.files.clone();
            let mut listing = vec![];
            let mut gone = vec![];
            for nm in &names {
                let vol = matches!(parse_name(nm), Some(p) if p.kind == NameKind::Vol);
                let there = vol || ch.flag();
                if !there {
                    files.remove(nm);
                    gone.push(nm.clone());
                }
                if there || !listed_too {
                    listing.push(nm.clone());
                }
            }
            ch.faults(gone.len() as u64);
            ch.state(&(listed_too, &gone));
            ch.note(|| format!("missing {:?}, {}", gone, if listed_too { "not listed" } else { "listed" }));
            // the snapshots that are left depend on the listing
            let left = Backup::new(Watched::new(&files, listing.clone(), None)).map_err(|e| e.to_string())?.snapshots().unwrap().into_iter().count() as u8;
            let once: Vec<Op> = (0..left).flat_map(|i| [Op::Manifest(i), Op::Entries(i), Op::Collections, Op::Print(i)]).collect();
            let mut ops = once.clone();
            ops.extend(once);
            let calls = run_ops(&files, &listing, &ops, None)?;
            if calls > 1 {
                ch.nontrivial();
            }
            ch.outcome(&(listed_too, gone, calls));
            Ok(())
        });
        // a failure at any call
        let all: Vec<Op> = (0..n as u8).flat_map(|i| [Op::Entries(i), Op::Manifest(i), Op::Snapshots]).collect();
        c.explore(Box::leak(format!("failing_{}", label).into_boxed_str()), "every backend call failing once while all is read in two orders, twice", Opt::default(), &|ch| {
            let mut ops = all.clone();
            if ch.flag() {
                ops.reverse();
            }
            ops.extend(ops.clone());
            let names = r.names();
            let calls = run_ops(&r.files, &names, &ops, None)?;
            let k = ch.pick(calls as usize) as u64;
            ch.faults(1);
            ch.nontrivial();
            ch.state(&(&ops, k));
            ch.outcome(&(&ops, k));
            ch.note(|| format!("call {} of {} fails", k, calls));
            run_ops(&r.files, &names, &ops, Some(k)).map(|_| ()).map_err(|e| format!("call {} failing: {}", k, e))
        });
    }
    // names written in other ways, foreign files and leftovers
    let r = repo(&[2, 1]);
    let files = clutter(&r);
    c.explore("clutter", "a directory with foreign names, leftovers of stopped backups and orphans, names in lower case, capitals or as written: every sequence of 2 operations", Opt::default(), &|ch| {
        let case = ch.pick(3);
        let files: BTreeMap<String, Arc<Vec<u8>>> = files.iter().map(|(n, d)| (match case { 0 => n.clone(), 1 => n.to_ascii_lowercase(), _ => n.to_ascii_uppercase() }, d.clone())).collect();
        let listing: Vec<String> = files.keys().cloned().collect();
        let left = Backup::new(Watched::new(&files, listing.clone(), None)).map_err(|e| e.to_string())?.snapshots().unwrap().into_iter().count() as u8;
        ensure_eq!(left, 5, "snapshots");
        let mut al = vec![Op::Snapshots, Op::Collections, Op::Lookup(0)];
        for i in 0..left {
            al.extend([Op::Entries(i), Op::Print(i), Op::Manifest(i)]);
        }
        let ops = vec![*ch.of(&al), *ch.of(&al)];
        ch.state(&(case, &ops));
        ch.note(|| format!("{:?}", ops));
        let calls = run_ops(&files, &listing, &ops, None)?;
        if calls > 1 {
            ch.nontrivial();
        }
        ch.outcome(&(case, ops, calls));
        Ok(())
    });
    // long chains: as many files are opened as asked for, one after the other
    let lens: Vec<usize> = c.by_tier(vec![1, 2, 9, 33, 70, 300], vec![1, 2, 3, 5, 9, 17, 33, 65, 70, 129, 257, 300, 600, 1100, 2100]);
    c.explore("long", &format!("chains of {:?} snapshots, one snapshot listed and one manifest read in the first, middle or last place, next to another chain", lens), Opt::default(), &|ch| {
        let n = *ch.of(&lens);
        let place = ch.pick(3);
        let second = ch.flag();
        let mut r = Repo::default();
        for k in 0..n {
            let mut t = Tree::new();
            t.insert(comps("f"), Node::new(Kind::Fifo, k as u64));
            r.backup(k == 0, at(k as i64), t, 1, &SigStyle { dialect: Dialect::Gnu, gz: None });
        }
        let mut t = Tree::new();
        t.insert(comps("g"), Node::new(Kind::Fifo, 1));
        r.backup(true, at(n as i64), t, 1, &SigStyle { dialect: Dialect::Gnu, gz: None });
        // more than 255 snapshots do not fit the byte of an operation: the places are among the first ones
        let i = if second && n < 255 { n as u8 } else { [0, n / 2, n - 1][place].min(254) as u8 };
        let ops = vec![Op::Manifest(i), Op::Entries(i), Op::Snapshots, Op::Entries(i), Op::Manifest(i)];
        ch.nontrivial();
        ch.state(&(n, i));
        ch.outcome(&(n, i));
        ch.note(|| format!("{} snapshots, {:?}", n, ops));
        let names = r.names();
        run_ops(&r.files, &names, &ops, None).map(|_| ())
    });
}

//! C23: a backup that changes while it is read.
//!
//! A writer (a further backup, an interrupted one that is started again, a clean-up, a replaced
//! increment) and a reader (one or two opened backups) share a directory. The explorer enumerates
//! the interleavings of the writer's file operations with the reader's backend calls.
use super::c09::{style, tree};
use crate::engine::*;
use crate::model;
use crate::world::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::Backup;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

type Files = BTreeMap<String, Arc<Vec<u8>>>;

/// One file operation of the writer.
#[derive(Clone, Debug)]
enum Step {
    Create(String, Vec<u8>),
    Append(String, Vec<u8>),
    /// cut to nothing in place, as opening a file for writing does
    Truncate(String),
    Rename(String, String),
    Unlink(String),
}

struct Dir {
    files: BTreeMap<String, Rc<RefCell<Vec<u8>>>>,
    real: Option<PathBuf>,
    script: Vec<(usize, Step)>, // call before which it happens
    done: usize,
    calls: usize,
    names: Vec<String>, // changed so far, in order
    log: Vec<String>,
}

impl Dir {
    fn apply(&mut self, s: &Step) {
        self.log.push(match s {
            Step::Create(n, d) => format!("writer: create {} ({} bytes)", n, d.len()),
            Step::Append(n, d) => format!("writer: append to {} ({} bytes)", n, d.len()),
            other => format!("writer: {:?}", other),
        });
        let at = |n: &String| self.real.as_ref().unwrap().join(n);
        let real = self.real.is_some();
        match s {
            Step::Create(n, d) => {
                if real {
                    fs::write(at(n), d).expect("scratch file");
                } else {
                    self.files.insert(n.clone(), Rc::new(RefCell::new(d.clone())));
                }
                self.names.push(n.clone());
            }
            Step::Append(n, d) => {
                if real {
                    fs::OpenOptions::new().append(true).open(at(n)).and_then(|mut f| f.write_all(d)).expect("scratch file");
                } else {
                    self.files[n].borrow_mut().extend(d);
                }
                self.names.push(n.clone());
            }
            Step::Truncate(n) => {
                if real {
                    fs::OpenOptions::new().write(true).open(at(n)).and_then(|f| f.set_len(0)).expect("scratch file");
                } else {
                    self.files[n].borrow_mut().clear();
                }
                self.names.push(n.clone());
            }
            Step::Rename(a, b) => {
                if real {
                    fs::rename(at(a), at(b)).expect("scratch file");
                } else {
                    let f = self.files.remove(a).unwrap();
                    self.files.insert(b.clone(), f);
                }
                self.names.push(a.clone());
                self.names.push(b.clone());
            }
            Step::Unlink(n) => {
                if real {
                    fs::remove_file(at(n)).expect("scratch file");
                } else {
                    self.files.remove(n);
                }
                self.names.push(n.clone());
            }
        }
    }
    fn get(&self, n: &str) -> Option<Vec<u8>> {
        match &self.real {
            Some(p) => fs::read(p.join(n)).ok(),
            None => self.files.get(n).map(|f| f.borrow().clone()),
        }
    }
    fn list(&self) -> Vec<String> {
        match &self.real {
            Some(p) => {
                let mut v: Vec<String> = fs::read_dir(p).expect("scratch directory").map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
                v.sort();
                v
            }
            None => self.files.keys().cloned().collect(),
        }
    }
}

#[derive(Clone)]
struct Shared(Rc<RefCell<Dir>>);
impl Shared {
    /// Called before each backend call of the reader: the writer does what the schedule says.
    fn turn(&self, what: String) {
        let mut d = self.0.borrow_mut();
        let now = d.calls;
        d.calls += 1;
        while d.done < d.script.len() && d.script[d.done].0 <= now {
            let s = d.script[d.done].1.clone();
            d.done += 1;
            d.apply(&s);
        }
        d.log.push(what);
    }
    fn finish(&self) {
        let mut d = self.0.borrow_mut();
        while d.done < d.script.len() {
            let s = d.script[d.done].1.clone();
            d.done += 1;
            d.apply(&s);
        }
    }
}

struct View {
    dir: Shared,
    local: Option<LocalBackend>,
}
enum Source {
    Mem(Rc<RefCell<Vec<u8>>>),
    Real(fs::File),
}
struct Stream {
    dir: Shared,
    name: String,
    src: Source,
    pos: usize,
    asked: u32,
}
impl Backend for View {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = Stream;
    fn file_names(&self) -> io::Result<Vec<String>> {
        self.dir.turn("reader: list".into());
        match &self.local {
            Some(l) => Ok(l.file_names()?.map(|n| n.into_string().unwrap()).collect()),
            None => Ok(self.dir.0.borrow().list()),
        }
    }
    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        let n = name.to_str().unwrap_or("?").to_string();
        self.dir.turn(format!("reader: open {}", n));
        let src = match &self.local {
            Some(l) => Source::Real(l.open_file(name)?),
            None => Source::Mem(self.dir.0.borrow().files.get(&n).cloned().ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no such file"))?),
        };
        Ok(Stream { dir: self.dir.clone(), name: n, src, pos: 0, asked: 0 })
    }
}
impl Stream {
    fn len(&self) -> usize {
        match &self.src {
            Source::Mem(d) => d.borrow().len(),
            Source::Real(f) => f.metadata().map(|m| m.len() as usize).unwrap_or(0),
        }
    }
}
impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        // the writer may act before the first read, in the middle of the file and at its end
        let len = self.len();
        let half = len / 2;
        let due = [self.pos == 0, self.pos >= half, self.pos >= len].iter().filter(|x| **x).count() as u32;
        if due > self.asked {
            self.asked = due;
            self.dir.turn(format!("reader: read {} at {}", self.name, self.pos));
        }
        let len = self.len();
        let mut n = buf.len().min(len.saturating_sub(self.pos));
        if self.pos < half {
            n = n.min(half - self.pos);
        }
        match &mut self.src {
            Source::Mem(d) => {
                if n > 0 {
                    buf[..n].copy_from_slice(&d.borrow()[self.pos..self.pos + n]);
                }
            }
            Source::Real(f) => {
                f.seek(SeekFrom::Start(self.pos as u64))?;
                f.read_exact(&mut buf[..n])?;
            }
        }
        self.pos += n;
        Ok(n)
    }
}

/// A starting directory, what the writer does to it, and every snapshot that ever existed.
struct Story {
    name: &'static str,
    before: Files,
    steps: Vec<Step>,
    snaps: Vec<Snap>,
    /// what each file holds once it is whole
    whole: Files,
}

fn split(steps: &mut Vec<Step>, name: &str, data: &[u8]) {
    let k = data.len() / 2;
    steps.push(Step::Create(name.into(), data[..k].to_vec()));
    steps.push(Step::Append(name.into(), data[k..].to_vec()));
}

fn stories() -> Vec<Story> {
    let mut v = vec![];
    let base = |shape: &[usize]| super::c09::repo(shape, 1);
    let k = |r: &Repo| r.snaps.len() as i64;
    // a further backup, its files growing in place, or written aside and renamed
    for (name, shape, full, aside) in [("incremental", vec![2usize], false, false), ("full", vec![1, 1], true, false), ("incremental_aside", vec![1], false, true), ("full_aside", vec![2], true, true)] {
        let mut r = base(&shape);
        let before = r.files.clone();
        let n = r.order.len();
        let i = k(&r);
        r.backup(full, at(i), tree(i), 1, &style(i as usize));
        let mut steps = vec![];
        let mut whole = r.files.clone();
        for f in r.order[n..].to_vec() {
            let d = r.files[&f].clone();
            if f.contains("vol") {
                steps.push(Step::Create(f, d.to_vec()));
            } else if aside {
                // as in duplicity's archive directory: first a .part file, which is never compressed
                let part = match f.find(".sigtar") {
                    Some(p) => format!("{}.sigtar.part", &f[..p]),
                    None => format!("{}.part", f),
                };
                if f.ends_with(".gz") {
                    let (old, new) = (if full { None } else { Some(&r.snaps[i as usize - 1].tree) }, &r.snaps[i as usize].tree);
                    let tar = sigtar(&diff(old, new), style(i as usize).dialect);
                    split(&mut steps, &part, &tar);
                    whole.insert(part.clone(), Arc::new(tar));
                    split(&mut steps, &f, &d);
                    steps.push(Step::Unlink(part));
                } else {
                    split(&mut steps, &part, &d);
                    whole.insert(part.clone(), d);
                    steps.push(Step::Rename(part, f));
                }
            } else {
                split(&mut steps, &f, &d);
            }
        }
        v.push(Story { name, before, steps, snaps: r.snaps, whole });
    }
    // an interrupted backup is started again: the same files, overwritten in place or taken away and written anew
    for (name, in_place, first) in [("restart_in_place", true, false), ("restart_anew", false, false), ("restart_first_in_place", true, true), ("restart_first_anew", false, true)] {
        let mut r = if first { Repo::default() } else { base(&[1]) };
        let i = r.snaps.len();
        r.backup(first, at(1), tree(1), 1, &style(first as usize));
        let mut before = r.files.clone();
        let sig = r.snaps[i].sig_name.clone();
        let man = r.snaps[i].man_name.clone();
        before.insert(sig.clone(), Arc::new(r.files[&sig][..r.files[&sig].len() / 3].to_vec()));
        before.remove(&man);
        let mut steps = vec![];
        for f in [sig, man] {
            let d = r.files[&f].clone();
            let cut = d.len() / 2;
            if before.contains_key(&f) {
                steps.push(if in_place { Step::Truncate(f.clone()) } else { Step::Unlink(f.clone()) });
                steps.push(if in_place { Step::Append(f.clone(), d[..cut].to_vec()) } else { Step::Create(f.clone(), d[..cut].to_vec()) });
                steps.push(Step::Append(f.clone(), d[cut..].to_vec()));
            } else {
                split(&mut steps, &f, &d);
            }
        }
        v.push(Story { name, before, steps, whole: r.files.clone(), snaps: r.snaps });
    }
    // old chains are removed, file by file, in three orders
    for (name, way) in [("remove_old", 0), ("remove_old_reversed", 1), ("remove_old_signatures_first", 2)] {
        let r = base(&[2, 1]);
        let mut gone: Vec<String> = r.snaps.iter().filter(|s| s.chain == 0).flat_map(|s| [s.vol_names[0].clone(), s.sig_name.clone(), s.man_name.clone()]).collect();
        match way {
            0 => {}
            1 => gone.reverse(),
            _ => gone.sort_by_key(|n| !n.contains("signatures")),
        }
        v.push(Story { name, before: r.files.clone(), steps: gone.into_iter().map(Step::Unlink).collect(), whole: r.files.clone(), snaps: r.snaps });
    }
    // the newest increment is taken back and another is made from the same point
    {
        let r = base(&[2]);
        let mut o = base(&[1]);
        o.backup(false, at(3), tree(3), 1, &style(1));
        let mut steps = vec![];
        for n in [&r.snaps[1].man_name, &r.snaps[1].sig_name, &r.snaps[1].vol_names[0]] {
            steps.push(Step::Unlink(n.clone()));
        }
        let new = &o.snaps[1];
        steps.push(Step::Create(new.vol_names[0].clone(), b"volume".to_vec()));
        split(&mut steps, &new.sig_name, &o.files[&new.sig_name]);
        split(&mut steps, &new.man_name, &o.files[&new.man_name]);
        let mut whole = r.files.clone();
        whole.extend(o.files.clone());
        let mut snaps = r.snaps.clone();
        snaps.push(new.clone());
        v.push(Story { name: "replaced", before: r.files.clone(), steps, snaps, whole });
    }
    // files are stored again under another name: compressed where they were plain, and the other way round
    {
        let r = base(&[1, 1]);
        let mut whole = r.files.clone();
        let mut steps = vec![];
        for (i, s) in r.snaps.iter().enumerate() {
            let recs = diff(None, &s.tree);
            let tar = sigtar(&recs, [Dialect::Gnu, Dialect::Pax][i % 2]);
            let (n, d) = if s.sig_name.ends_with(".gz") { (s.sig_name[..s.sig_name.len() - 3].to_string(), tar) } else { (format!("{}.gz", s.sig_name), gz(&tar, 6)) };
            split(&mut steps, &n, &d);
            steps.push(Step::Unlink(s.sig_name.clone()));
            whole.insert(n, Arc::new(d));
        }
        v.push(Story { name: "recompressed", before: r.files.clone(), steps, snaps: r.snaps, whole });
    }
    // a full backup, after which the older chain goes away
    {
        let mut r = base(&[1]);
        let before = r.files.clone();
        let n = r.order.len();
        r.backup(true, at(1), tree(1), 1, &style(1));
        let mut steps = vec![];
        for f in r.order[n..].to_vec() {
            let d = r.files[&f].clone();
            if f.contains("vol") { steps.push(Step::Create(f, d.to_vec())) } else { split(&mut steps, &f, &d) }
        }
        for f in &r.order[..n] {
            steps.push(Step::Unlink(f.clone()));
        }
        v.push(Story { name: "full_then_remove", before, steps, whole: r.files.clone(), snaps: r.snaps });
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    Open,
    /// handle, position from the front or, negative, from the back; 99: all
    Entries(usize, i32),
    Manifest(usize, i32),
}

fn programs() -> Vec<Vec<Ask>> {
    use Ask::*;
    vec![
        vec![Open, Entries(0, 99), Manifest(0, 99), Entries(0, 99), Manifest(0, 99)],
        vec![Open, Manifest(0, -1), Entries(0, -1), Open, Entries(1, 99), Entries(0, 0), Manifest(1, 99)],
        vec![Open, Entries(0, -1), Manifest(0, 0), Entries(0, 0), Manifest(0, -1), Entries(0, -1), Open, Entries(1, -1), Manifest(1, -1)],
        vec![Open, Entries(0, 0), Manifest(0, 99), Open, Manifest(1, 0), Entries(0, 99), Entries(1, 99)],
    ]
}

/// What an opened backup knew when it listed the directory.
struct Handle {
    b: Backup<View>,
    listed: Vec<String>,
    /// listed files that were not whole then
    torn: BTreeSet<String>,
    /// how many changes had been made
    since: usize,
    want: Vec<Snap>,
    good: BTreeSet<(usize, bool)>,
}

fn expected(st: &Story, listed: &[String]) -> Result<Vec<Snap>, String> {
    let spans: BTreeSet<model::Span> = model::sets(listed).iter().map(|s| model::Span { full: s.full, start: s.start, end: s.end }).collect();
    let mut v = vec![];
    for s in model::exact_chains(&spans).concat() {
        v.push(st.snaps.iter().find(|x| x.full == s.full && x.end == s.end && (s.full || x.start == s.start)).ok_or("the story has no such snapshot")?.clone());
    }
    Ok(v)
}

fn is_prefix(m: &ruplicity::manifest::Manifest, w: &Man) -> R {
    ensure!(w.host.starts_with(m.hostname()), "host name {:?} instead of a part of {:?}", m.hostname(), w.host);
    ensure!(m.last_volume_index() <= w.vols.len(), "{} volumes instead of up to {}", m.last_volume_index(), w.vols.len());
    for (i, v) in w.vols.iter().enumerate() {
        if let Some(g) = m.volume(i + 1) {
            ensure!(v.start.starts_with(g.start_path_bytes()) && v.end.starts_with(g.end_path_bytes()), "volume {} with the paths of another", i + 1);
        }
    }
    Ok(())
}

fn open(st: &Story, dir: &Shared, real: bool) -> Result<Handle, String> {
    let local = if real { dir.0.borrow().real.as_ref().map(LocalBackend::new) } else { None };
    let b = Backup::new(View { dir: dir.clone(), local }).map_err(|e| format!("opening failed: {}", e))?;
    // the listing is the last call; nothing can have happened since
    let d = dir.0.borrow();
    let listed = d.list();
    let torn = listed.iter().filter(|n| st.whole.get(*n).map(|w| Some((**w).clone()) != d.get(n)).unwrap_or(true)).cloned().collect();
    let since = d.names.len();
    drop(d);
    let want = expected(st, &listed)?;
    let h = Handle { b, listed, torn, since, want, good: BTreeSet::new() };
    snapshots(&h)?;
    Ok(h)
}

fn snapshots(h: &Handle) -> R {
    let got: Vec<(bool, i64)> = h.b.snapshots().map_err(|e| e.to_string())?.into_iter().map(|s| (s.is_full(), s.time().sec)).collect();
    let want: Vec<(bool, i64)> = h.want.iter().map(|s| (s.full, s.end)).collect();
    ensure_eq!(got, want, "snapshots of a backup opened when the directory held {:?}", h.listed);
    Ok(())
}

/// Asks one question and checks the answer. `over`: the writer has finished.
fn ask(st: &Story, dir: &Shared, h: &mut Handle, i: usize, entries: bool, over: bool, seen: &mut Vec<u8>) -> R {
    let w = h.want[i].clone();
    let s = match h.b.snapshots().map_err(|e| e.to_string())?.into_iter().nth(i) {
        Some(s) => s,
        None => return Err(format!("snapshot {} is not there any more", i)),
    };
    // the files this answer depends on
    let wanted: Vec<String> = if entries {
        let ids: BTreeSet<(bool, i64, i64)> = st.snaps.iter().filter(|x| x.chain == w.chain).map(|x| (x.full, x.start, x.end)).collect();
        h.listed.iter().filter(|n| matches!(model::parse_name(n), Some(p) if p.kind == model::Kind::Sig && ids.contains(&(p.full, if p.full { p.end } else { p.start }, p.end)))).cloned().collect()
    } else {
        h.listed.iter().filter(|n| matches!(model::parse_name(n), Some(p) if p.kind == model::Kind::Man && p.full == w.full && p.end == w.end && (p.full || p.start == w.start))).cloned().collect()
    };
    // a complete file is preferred to a partial one
    let of = |n: &String| model::parse_name(n).map(|p| (p.full, p.start, p.end));
    let used: Vec<String> = wanted.iter().filter(|n| !n.contains(".part") || !wanted.iter().any(|m| !m.contains(".part") && of(m) == of(n))).cloned().collect();
    let distinct = used.iter().map(|n| of(n).map(|x| (x.0, x.1))).collect::<BTreeSet<_>>().len() == used.len();
    let have: BTreeSet<(bool, i64)> = used.iter().filter_map(|n| of(n).map(|x| (x.0, x.2))).collect();
    let path_there = if entries { h.want.iter().filter(|x| x.chain == w.chain && x.end <= w.end).all(|x| have.contains(&(x.full, x.end))) } else { !used.is_empty() };
    let answer = if entries {
        match s.entries() {
            Ok(e) => {
                check_listing(e.as_signature(), &w.tree, &format!("snapshot {} of {}", i, st.name))?;
                Ok(true)
            }
            Err(e) => Err(e.to_string()),
        }
    } else {
        match s.manifest() {
            Ok(m) => Ok(match check_manifest(&m, &w.man) {
                Ok(()) => true,
                Err(e) => {
                    // only a manifest that was read while it was being written may be short
                    ensure!(used.iter().any(|n| h.torn.contains(n) || dir.0.borrow().names[h.since..].contains(n)), "snapshot {}: wrong manifest although nothing touched it: {}", i, e);
                    is_prefix(&m, &w.man).map_err(|e| format!("snapshot {}: manifest is not a part of the right one: {}", i, e))?;
                    false
                }
            }),
            Err(e) => Err(e.to_string()),
        }
    };
    let now: BTreeSet<String> = dir.0.borrow().names[h.since..].iter().cloned().collect();
    let what = if entries { "entries" } else { "manifest" };
    seen.push(match &answer {
        Ok(true) => 0,
        Ok(false) => 1,
        Err(_) => 2,
    });
    match answer {
        Ok(_) => {
            ensure!(entries || !used.is_empty(), "snapshot {}: a manifest is shown although none was listed", i);
            h.good.insert((i, entries));
        }
        Err(e) => {
            ensure!(!h.good.contains(&(i, entries)), "snapshot {}: {} could be read before and cannot any more: {}", i, what, e);
            // nothing it depends on is being, or was, changed
            let quiet = used.iter().all(|n| !h.torn.contains(n) && !now.contains(n));
            ensure!(!(quiet && path_there && distinct), "snapshot {}: {} cannot be read although nothing touched {:?}: {}", i, what, used, e);
            // or it has become whole
            let d = dir.0.borrow();
            let whole = over && used.iter().all(|n| d.get(n).is_some() && d.get(n).as_ref() == st.whole.get(n).map(|w| &**w));
            ensure!(!(whole && path_there && distinct), "snapshot {}: {} still cannot be read although {:?} are whole now: {}", i, what, used, e);
        }
    }
    Ok(())
}

/// Runs a reader's program with the writer's steps at the given calls; returns the number of calls made.
fn run_one(st: &Story, prog: &[Ask], times: &[usize], scratch: Option<&Path>, ch: &mut Ch) -> Result<usize, String> {
    let mut d = Dir { files: BTreeMap::new(), real: scratch.map(|p| p.to_path_buf()), script: times.iter().cloned().zip(st.steps.iter().cloned()).collect(), done: 0, calls: 0, names: vec![], log: vec![] };
    for (n, c) in &st.before {
        match scratch {
            Some(p) => fs::write(p.join(n), &**c).expect("scratch file"),
            None => {
                d.files.insert(n.clone(), Rc::new(RefCell::new((**c).clone())));
            }
        }
    }
    let dir = Shared(Rc::new(RefCell::new(d)));
    let mut handles: Vec<Handle> = vec![];
    let mut seen = vec![];
    let r = (|| -> R {
        let go = |h: &mut Handle, at: i32, entries: bool, seen: &mut Vec<u8>| -> R {
            let n = h.want.len() as i32;
            let over = { let d = dir.0.borrow(); d.done == d.script.len() };
            let which: Vec<i32> = match at {
                99 => (0..n).collect(),
                k if k < 0 => vec![n + k],
                k => vec![k],
            };
            for k in which {
                if k >= 0 && k < n {
                    ask(st, &dir, h, k as usize, entries, over, seen)?;
                }
            }
            snapshots(h)
        };
        for a in prog {
            match *a {
                Ask::Open => handles.push(open(st, &dir, scratch.is_some())?),
                Ask::Entries(h, at) => go(&mut handles[h], at, true, &mut seen)?,
                Ask::Manifest(h, at) => go(&mut handles[h], at, false, &mut seen)?,
            }
            seen.push(9);
        }
        Ok(())
    })();
    let calls = dir.0.borrow().calls;
    let r = r.and_then(|_| {
        // the writer finishes; what was opened before still answers, and so does a backup opened now
        dir.finish();
        handles.push(open(st, &dir, scratch.is_some())?);
        for h in &mut handles {
            for k in (0..h.want.len()).rev() {
                ask(st, &dir, h, k, true, true, &mut seen)?;
                ask(st, &dir, h, k, false, true, &mut seen)?;
            }
            snapshots(h)?;
            seen.push(8);
        }
        Ok(())
    });
    ch.outcome(&(st.name, &seen));
    let log = std::mem::take(&mut dir.0.borrow_mut().log);
    ch.note(|| log.join("\n"));
    r.map_err(|e| format!("{}\n  {}", e, log.join("\n  ")))?;
    Ok(calls)
}

/// Every way to place `m` steps at the calls 0..=n in at most `bursts` runs.
fn place(ch: &mut Ch, m: usize, n: usize, bursts: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut from = 0;
    let mut left = bursts;
    while v.len() < m {
        // when the next run happens, and how long it is
        let at = from + ch.pick(n + 1 - from);
        let rest = m - v.len();
        let len = if left == 1 || at == n { rest } else { 1 + ch.pick(rest) };
        v.extend(std::iter::repeat(at).take(len));
        from = (at + 1).min(n);
        left -= 1;
    }
    v
}

static SEQ: AtomicUsize = AtomicUsize::new(0);

pub fn run(c: &mut Ctx) {
    c.rule = "the writer acts after the reader's first call and before its last".into();
    c.assumptions = vec![
        "the backend lists the directory at one instant, and an open file stays readable after it was removed or replaced".into(),
        "a file that is overwritten in place receives the same contents again".into(),
        "a manifest that is read while it is being written may be shown as far as it was written".into(),
    ];
    let stories = stories();
    let progs = programs();
    for st in &stories {
        for real in [false, true] {
            let bursts = match (c.thorough(), real) {
                (false, false) if ["recompressed", "full_then_remove"].contains(&st.name) => 3,
                (false, false) => 2,
                (false, true) => 1,
                (true, false) => 3,
                (true, true) => 2,
            };
            let root = std::env::temp_dir().join(format!("mc-c23-{}", std::process::id()));
            if real {
                fs::create_dir(&root).expect("scratch root");
            }
            let name: &'static str = Box::leak(format!("{}{}", st.name, if real { "_local" } else { "" }).into_boxed_str());
            c.explore(name, &format!("{} file operations of the writer in up to {} uninterrupted runs, each before every backend call of {} reader programs{}", st.steps.len(), bursts, progs.len(), if real { ", on a real directory through the local backend" } else { "" }), Opt::default(), &|ch| {
                let prog = &progs[ch.pick(progs.len())];
                // how many calls there are to choose from: as many as an undisturbed reader makes, before or after
                let n = LIMITS.with(|l| *l.borrow_mut().entry((st.name, prog.as_ptr() as usize)).or_insert_with(|| calls_of(st, prog)));
                let times = place(ch, st.steps.len(), n, bursts);
                ch.state(&(st.name, prog.as_ptr() as usize, &times));
                if times[0] > 0 && times[0] < n {
                    ch.nontrivial();
                }
                ch.step();
                if real {
                    let p = root.join(format!("s{}", SEQ.fetch_add(1, Relaxed)));
                    fs::create_dir(&p).expect("scratch directory");
                    let r = run_one(st, prog, &times, Some(&p), ch);
                    if let Ok(d) = fs::read_dir(&p) {
                        for e in d.flatten() {
                            let _ = fs::remove_file(e.path());
                        }
                    }
                    let _ = fs::remove_dir(&p);
                    r.map(|_| ())
                } else {
                    run_one(st, prog, &times, None, ch).map(|_| ())
                }
            });
            if real {
                let _ = fs::remove_dir(&root);
            }
        }
    }
}

thread_local! {
    static LIMITS: RefCell<BTreeMap<(&'static str, usize), usize>> = RefCell::new(BTreeMap::new());
}

/// The largest number of backend calls the program makes when the whole writer runs before any one of them.
fn calls_of(st: &Story, prog: &[Ask]) -> usize {
    let m = st.steps.len();
    let mut n = 0;
    let mut k = 0;
    while k <= n + 1 && k < 200 {
        let times = vec![k; m];
        let c = count(st, prog, &times);
        n = n.max(c);
        k += 1;
    }
    n
}
fn count(st: &Story, prog: &[Ask], times: &[usize]) -> usize {
    let mut d = Dir { files: BTreeMap::new(), real: None, script: times.iter().cloned().zip(st.steps.iter().cloned()).collect(), done: 0, calls: 0, names: vec![], log: vec![] };
    for (n, c) in &st.before {
        d.files.insert(n.clone(), Rc::new(RefCell::new((**c).clone())));
    }
    let dir = Shared(Rc::new(RefCell::new(d)));
    let mut hs: Vec<Backup<View>> = vec![];
    for a in prog {
        match *a {
            Ask::Open => {
                if let Ok(b) = Backup::new(View { dir: dir.clone(), local: None }) {
                    hs.push(b)
                }
            }
            Ask::Entries(h, at) | Ask::Manifest(h, at) => {
                let all: Vec<_> = match hs.get(h).and_then(|b| b.snapshots().ok()) {
                    Some(s) => s.into_iter().collect(),
                    None => continue,
                };
                let n = all.len() as i32;
                for (i, s) in all.into_iter().enumerate() {
                    let i = i as i32;
                    if at == 99 || at == i || (at < 0 && n + at == i) {
                        if matches!(a, Ask::Entries(..)) { let _ = s.entries().is_ok(); } else { let _ = s.manifest().is_ok(); }
                    }
                }
            }
        }
    }
    let n = dir.0.borrow().calls;
    n
}

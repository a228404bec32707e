//! C25: backups do not influence each other.
use super::c09::{style, tree};
use crate::engine::*;
use crate::world::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::{Backend, Backup};
use std::collections::BTreeMap;
use std::io::{self, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type Files = BTreeMap<String, Arc<Vec<u8>>>;

/// A backup, and what it must answer whatever else is done.
struct World {
    label: &'static str,
    files: Files,
    snaps: Vec<(i64, bool, usize)>,
    entries: Vec<Option<Tree>>,
    mans: Vec<Option<Man>>,
    printed: String,
}

/// Backups of the same names, times and shapes, with other contents. `damaged`: the signature of the first
/// incremental and the manifest of the last snapshot cannot be read.
fn world(label: &'static str, k: i64, volumes: usize, damaged: bool) -> World {
    let mut r = Repo::default();
    for (i, full) in [true, false, true].iter().enumerate() {
        let mut t = tree(k + i as i64);
        for (j, n) in t.values_mut().enumerate() {
            n.uid = 1000 + j as u64;
            n.gid = 1000 + (j % 2) as u64;
            n.uname = format!("u{}{}{}", label, i, j).into_bytes();
            n.gname = format!("g{}{}{}", label, i, j % 2).into_bytes();
            if label == "blue" && j % 2 == 1 {
                // names that are not known
                n.uname = vec![];
                n.gname = vec![];
            }
            n.mode ^= k as u32 & 0o777;
        }
        r.backup(*full, at(i as i64), t, volumes, &style(i));
    }
    for (i, s) in r.snaps.iter_mut().enumerate() {
        s.man.host = format!("{}{}", label, i);
        s.man.dir = format!("/dir {} {}", label, i).into_bytes();
        for v in &mut s.man.vols {
            v.start = [v.start.clone(), label.as_bytes().to_vec()].concat();
            v.hash.push(k as u8);
        }
        r.files.insert(s.man_name.clone(), Arc::new(s.man.bytes()));
    }
    let mut entries: Vec<Option<Tree>> = r.snaps.iter().map(|s| Some(s.tree.clone())).collect();
    let mut mans: Vec<Option<Man>> = r.snaps.iter().map(|s| Some(s.man.clone())).collect();
    if damaged {
        let f = r.files[&r.snaps[1].sig_name].clone();
        r.files.insert(r.snaps[1].sig_name.clone(), Arc::new(f[..f.len() / 2].to_vec()));
        r.files.insert(r.snaps[2].man_name.clone(), Arc::new(b"Hostname x\nLocaldir /\nVolume 1:\n    StartingPath a\n".to_vec()));
        entries[0] = None;
        entries[1] = None;
        mans[2] = None;
    }
    let printed = {
        crate::sys::set_now(at(5));
        let b = Backup::new(Mem::new(&r.files)).unwrap();
        let s = b.snapshots().unwrap().as_collections().to_string();
        s
    };
    World {
        label, snaps: r.snaps.iter().map(|s| (s.end, s.full, volumes)).collect(), files: r.files, entries, mans, printed,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Call {
    Entries(usize),
    Manifest(usize),
    List,
    /// drop it and open it again
    Reopen,
}
const CALLS: [Call; 8] = [Call::Entries(1), Call::Manifest(0), Call::List, Call::Manifest(2), Call::Entries(0), Call::Entries(2), Call::Reopen, Call::Manifest(1)];

/// A backup with one of its answers after the other compared with what it holds.
fn ask<B: Backend>(b: &Backup<B>, w: &World, c: Call) -> R {
    let snaps: Vec<_> = b.snapshots().map_err(|e| format!("{}: {}", w.label, e))?.into_iter().collect();
    match c {
        Call::Entries(i) => match (snaps[i].entries(), &w.entries[i]) {
            (Ok(e), Some(t)) => check_listing(e.as_signature(), t, &format!("{}, snapshot {}", w.label, i)),
            (Err(_), None) => Ok(()),
            (Ok(_), None) => Err(format!("{}: snapshot {} is listed although its signature file is cut", w.label, i)),
            (Err(e), Some(_)) => Err(format!("{}: snapshot {} cannot be listed: {}", w.label, i, e)),
        },
        Call::Manifest(i) => match (snaps[i].manifest(), &w.mans[i]) {
            (Ok(m), Some(x)) => check_manifest(&m, x).map_err(|e| format!("{}, manifest {}: {}", w.label, i, e)),
            (Err(_), None) => Ok(()),
            (Ok(_), None) => Err(format!("{}: manifest {} is read although it is cut", w.label, i)),
            (Err(e), Some(_)) => Err(format!("{}: manifest {} cannot be read: {}", w.label, i, e)),
        },
        Call::List | Call::Reopen => {
            let got: Vec<_> = snaps.iter().map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect();
            ensure_eq!(got, w.snaps, "snapshots of {}", w.label);
            ensure_eq!(b.snapshots().unwrap().as_collections().to_string(), w.printed, "{} printed", w.label);
            Ok(())
        }
    }
}

/// How often the thread whose turn it was did not get anywhere.
static STALLS: AtomicUsize = AtomicUsize::new(0);

/// Who may go on: the thread whose turn it is, until it reaches the next of the points at which they change over.
struct Baton {
    state: Mutex<Turn>,
    cv: Condvar,
}
struct Turn {
    turn: usize,
    points: usize,
    switches: Vec<usize>,
    done: [bool; 2],
    /// points passed by each
    passed: [usize; 2],
}
impl Baton {
    fn new(first: usize, switches: Vec<usize>) -> Arc<Baton> {
        Arc::new(Baton { state: Mutex::new(Turn { turn: first, points: 0, switches, done: [false; 2], passed: [0; 2] }), cv: Condvar::new() })
    }
    /// Called before every call of the backend.
    fn point(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        let n = s.points;
        s.points += 1;
        s.passed[me] += 1;
        if s.switches.contains(&n) && !s.done[1 - me] && STALLS.load(Ordering::SeqCst) < 20 {
            s.turn = 1 - me;
            self.cv.notify_all();
        }
        while s.turn != me {
            let points = s.points;
            let (t, out) = self.cv.wait_timeout(s, Duration::from_secs(5)).unwrap();
            s = t;
            if out.timed_out() && s.turn != me && s.points == points {
                // the other one does not come to its next point: it waits for something that this one holds, which it may
                STALLS.fetch_add(1, Ordering::SeqCst);
                s.turn = me;
            }
        }
    }
    fn start(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.turn != me {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.done[me] = true;
        s.turn = 1 - me;
        self.cv.notify_all();
    }
}

/// A backend lent to a backup.
struct ByRef<'a>(&'a LocalBackend);
impl<'a> Backend for ByRef<'a> {
    type FileName = <LocalBackend as Backend>::FileName;
    type FileNameIter = <LocalBackend as Backend>::FileNameIter;
    type FileStream = <LocalBackend as Backend>::FileStream;
    fn file_names(&self) -> io::Result<Self::FileNameIter> {
        self.0.file_names()
    }
    fn open_file(&self, name: &Path) -> io::Result<Self::FileStream> {
        self.0.open_file(name)
    }
}

struct Stepped {
    mem: Mem,
    baton: Arc<Baton>,
    me: usize,
}
struct SteppedStream(Stream, Arc<Baton>, usize);
impl Backend for Stepped {
    type FileName = String;
    type FileNameIter = Vec<String>;
    type FileStream = SteppedStream;
    fn file_names(&self) -> io::Result<Vec<String>> {
        self.baton.point(self.me);
        self.mem.file_names()
    }
    fn open_file(&self, name: &Path) -> io::Result<SteppedStream> {
        self.baton.point(self.me);
        self.mem.open_file(name).map(|s| SteppedStream(s, self.baton.clone(), self.me))
    }
}
impl Read for SteppedStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.1.point(self.2);
        self.0.read(buf)
    }
}

fn program(w: &World, calls: &[Call], baton: &Arc<Baton>, me: usize, chunk: usize) -> R {
    let open = || {
        let mem = Mem::new(&w.files);
        mem.0.borrow_mut().chunk = chunk;
        Backup::new(Stepped { mem, baton: baton.clone(), me }).map_err(|e| format!("{}: {}", w.label, e))
    };
    crate::sys::set_now(at(5));
    let mut b = open()?;
    for c in calls {
        if *c == Call::Reopen {
            drop(b);
            b = open()?;
        }
        ask(&b, w, *c)?;
    }
    Ok(())
}

/// Two programs, each on a thread of its own, changing over at the given points. The points each passed.
fn threads(ws: [&World; 2], calls: [&[Call]; 2], first: usize, switches: Vec<usize>, chunk: usize) -> Result<[usize; 2], String> {
    let baton = Baton::new(first, switches);
    let res: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..2).map(|me| {
            let baton = baton.clone();
            let (w, calls) = (ws[me], calls[me]);
            sc.spawn(move || {
                baton.start(me);
                let r = catch_unwind(AssertUnwindSafe(|| program(w, calls, &baton, me, chunk)));
                baton.end(me);
                r.unwrap_or_else(|p| Err(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    for r in res {
        r?;
    }
    let s = baton.state.lock().unwrap();
    Ok(s.passed)
}

/// Merges programs of single calls in the order given by `who`, on one thread.
fn merged<B: Backend>(ws: &[&World], open: &dyn Fn(usize) -> io::Result<B>, who: &[usize], calls: &[Vec<Call>]) -> R {
    let mut open_now: Vec<Option<Backup<B>>> = ws.iter().map(|_| None).collect();
    let mut next = vec![0; ws.len()];
    for i in who {
        if open_now[*i].is_none() {
            open_now[*i] = Some(open(*i).and_then(Backup::new).map_err(|e| format!("{}: {}", ws[*i].label, e))?);
        }
        let c = calls[*i][next[*i]];
        next[*i] += 1;
        if c == Call::Reopen {
            open_now[*i] = None;
            open_now[*i] = Some(open(*i).and_then(Backup::new).map_err(|e| format!("{}: {}", ws[*i].label, e))?);
        }
        ask(open_now[*i].as_ref().unwrap(), ws[*i], c)?;
    }
    Ok(())
}

/// Chooses an order in which programs of these lengths are merged.
fn order(ch: &mut Ch, lens: &[usize]) -> Vec<usize> {
    let mut left = lens.to_vec();
    let mut who = vec![];
    while left.iter().any(|n| *n > 0) {
        let can: Vec<usize> = (0..left.len()).filter(|i| left[*i] > 0).collect();
        let i = *ch.of(&can);
        left[i] -= 1;
        who.push(i);
    }
    who
}

pub fn run(c: &mut Ctx) {
    c.rule = "calls of two backups alternate, or a thread is interrupted in the middle of its program".into();
    c.assumptions = vec![
        "threads change over where a backup calls its backend; between two such calls the library touches nothing that is shared unless it keeps something global, which the calls around it would show".into(),
        "a backup itself is used by one thread at a time, as its type demands".into(),
    ];
    let worlds = [world("red", 0, 2, false), world("green", 5, 2, false), world("blue", 8, 3, false), world("torn", 3, 2, true), world("same", 0, 2, false)];
    let pairs: Vec<(usize, usize)> = c.by_tier(vec![(0, 1), (3, 1), (0, 4)], (0..5).flat_map(|a| (0..5).map(move |b| (a, b))).collect());
    let len = 2usize;
    c.explore("calls", &format!("two backups of the same file names with other contents ({} pairs; one of them may be damaged), every pair of programs of {} of {} calls each, every order of their calls", pairs.len(), len, CALLS.len()), Opt::default(), &|ch| {
        let (a, b) = *ch.of(&pairs);
        let ws = [&worlds[a], &worlds[b]];
        let calls: Vec<Vec<Call>> = (0..2).map(|_| (0..len).map(|_| *ch.of(&CALLS)).collect()).collect();
        let who = order(ch, &[len, len]);
        ch.state(&(a, b, &calls, &who));
        if who[1] != who[0] || who[2] != who[1] {
            ch.nontrivial();
        }
        ch.note(|| format!("{} {:?}, {} {:?}, in the order {:?}", ws[0].label, calls[0], ws[1].label, calls[1], who));
        ch.outcome(&(a, b, &who));
        crate::sys::set_now(at(5));
        merged(&ws, &|i| Ok(Mem::new(&ws[i].files)), &who, &calls)
    });
    let n = c.by_tier(3usize, 4);
    let few = &CALLS[..n];
    c.explore("longer", &format!("programs of three out of {} calls, every order", n), Opt::default(), &|ch| {
        let (a, b) = *ch.of(&pairs[..2]);
        let ws = [&worlds[a], &worlds[b]];
        let calls: Vec<Vec<Call>> = (0..2).map(|_| (0..3).map(|_| *ch.of(few)).collect()).collect();
        let who = order(ch, &[3, 3]);
        ch.state(&(a, b, &calls, &who));
        ch.nontrivial();
        ch.note(|| format!("{} {:?}, {} {:?}, in the order {:?}", ws[0].label, calls[0], ws[1].label, calls[1], who));
        ch.outcome(&(a, b, &who));
        crate::sys::set_now(at(5));
        merged(&ws, &|i| Ok(Mem::new(&ws[i].files)), &who, &calls)
    });
    let all: Vec<Call> = CALLS.iter().cloned().filter(|c| *c != Call::Reopen).collect();
    let k = c.by_tier(4usize, 6);
    c.explore("in_turn", &format!("every sequence of {} out of {} backups, each opened, read completely in one of two orders, and dropped or kept", k, worlds.len()), Opt::default(), &|ch| {
        crate::sys::set_now(at(5));
        let mut kept = vec![];
        let mut names = vec![];
        for _ in 0..k {
            let w = ch.of(&worlds);
            let back = w.label == "green";
            names.push(w.label);
            let b = Backup::new(Mem::new(&w.files)).map_err(|e| format!("{}: {}", w.label, e))?;
            for c in if back { all.iter().rev().collect::<Vec<_>>() } else { all.iter().collect() } {
                ask(&b, w, *c).map_err(|e| format!("after {:?}: {}", names, e))?;
            }
            if kept.len() < 2 {
                kept.push((b, w));
            }
            ch.step();
        }
        for (b, w) in &kept {
            for c in &all {
                ask(b, w, *c).map_err(|e| format!("after {:?}, asked again: {}", names, e))?;
            }
        }
        ch.state(&names);
        ch.outcome(&names);
        ch.nontrivial();
        ch.note(|| format!("{:?}", names));
        Ok(())
    });
    // one backend object under two backups: what one was given does not tell on the other
    let few: &[Call] = c.by_tier(&CALLS[..6], &CALLS);
    let shared = c.by_tier(pairs.clone(), (0..5).flat_map(|a| (0..5).map(move |b| (a, b))).collect());
    c.explore("one_backend", &format!("two backups on one directory, whose files are others when the second is opened: {} pairs of contents, every order of two out of {} calls each after that", shared.len(), few.len()), Opt::default(), &|ch| {
        let (a, b) = *ch.of(&shared);
        let (wa, wb) = (&worlds[a], &worlds[b]);
        crate::sys::set_now(at(5));
        let mem = Mem::new(&wa.files);
        let first = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        for c in [Call::List, Call::Entries(0), Call::Entries(2), Call::Manifest(0), Call::Manifest(1), Call::Manifest(2)] {
            ask(&first, wa, c)?;
        }
        {
            let mut e = mem.0.borrow_mut();
            e.files = wb.files.clone();
            e.listing = wb.files.keys().cloned().collect();
        }
        let second = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        let calls: Vec<Vec<Call>> = (0..2).map(|_| (0..2).map(|_| *ch.of(few)).collect()).collect();
        let who = order(ch, &[2, 2]);
        ch.state(&(a, b, &calls, &who));
        ch.nontrivial();
        ch.outcome(&(a, b, &who));
        ch.note(|| format!("first {} then {}: {:?} in the order {:?}", wa.label, wb.label, calls, who));
        let mut next = [0; 2];
        for i in who {
            let call = calls[i][next[i]];
            next[i] += 1;
            if i == 0 {
                // what a damaged backup could not read it reads from the new files
                let known = match call { Call::Entries(n) => wa.entries[n].is_some(), Call::Manifest(n) => wa.mans[n].is_some(), _ => true };
                if known {
                    ask(&first, wa, call).map_err(|e| format!("the first backup: {}", e))?;
                }
            } else {
                ask(&second, wb, call).map_err(|e| format!("the second backup: {}", e))?;
            }
        }
        Ok(())
    });
    // real directories
    let root = std::env::temp_dir().join(format!("mc-c25-{}", std::process::id()));
    std::fs::create_dir(&root).expect("scratch root");
    for w in &worlds {
        std::fs::create_dir(root.join(w.label)).expect("scratch directory");
        for (n, d) in &w.files {
            std::fs::write(root.join(w.label).join(n), &**d).expect("scratch file");
        }
    }
    c.explore("directories", "two local backends on two directories with the same file names, every pair of programs of two calls each, every order", Opt::default(), &|ch| {
        let (a, b) = *ch.of(&pairs[..3]);
        let ws = [&worlds[a], &worlds[b]];
        let calls: Vec<Vec<Call>> = (0..2).map(|_| (0..2).map(|_| *ch.of(&CALLS[..6])).collect()).collect();
        let who = order(ch, &[2, 2]);
        ch.state(&(a, b, &calls, &who));
        ch.nontrivial();
        ch.outcome(&(a, b, &who));
        crate::sys::set_now(at(5));
        merged(&ws, &|i| Ok(LocalBackend::new(root.join(ws[i].label))), &who, &calls)
    });
    let changed: Vec<(usize, usize)> = c.by_tier(vec![(0, 1), (1, 3), (0, 4), (2, 0), (3, 0)], (0..5).flat_map(|a| (0..5).map(move |b| (a, b))).collect());
    let afters = c.by_tier(1usize, 2);
    let quiet = [Call::Entries(1), Call::Manifest(0), Call::Manifest(2), Call::Entries(2), Call::List];
    c.explore("rewritten", &format!("one local directory whose files are replaced by others of the same names (same time of change; in place, or removed and written anew) before a second backup is opened on it with the same backend or another one: {} pairs of contents, every pair of calls before and every {} after", changed.len(), afters), Opt::default(), &|ch| {
        let (a, b) = *ch.of(&changed);
        let (wa, wb) = (&worlds[a], &worlds[b]);
        let anew = ch.flag();
        let same = ch.flag();
        let before = [*ch.of(&quiet), *ch.of(&quiet)];
        let after: Vec<Call> = (0..afters).map(|_| *ch.of(&quiet)).collect();
        ch.state(&(a, b, anew, same, before, &after));
        ch.nontrivial();
        ch.outcome(&(a, b, anew, same));
        ch.note(|| format!("{} asked {:?}, then {} in its place {}, asked {:?}", wa.label, before, wb.label, if anew { "(removed and written anew)" } else { "" }, after));
        crate::sys::set_now(at(5));
        let d = root.join(format!("r{:?}", std::thread::current().id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).map_err(|e| format!("scratch directory: {}", e))?;
        let write = |w: &World| {
            for f in std::fs::read_dir(&d).expect("scratch directory") {
                let f = f.expect("scratch directory");
                if !w.files.contains_key(&f.file_name().into_string().unwrap_or_default()) {
                    std::fs::remove_file(f.path()).expect("scratch file");
                }
            }
            for (n, data) in &w.files {
                if anew {
                    let _ = std::fs::remove_file(d.join(n));
                }
                std::fs::write(d.join(n), &**data).expect("scratch file");
                let f = std::fs::OpenOptions::new().write(true).open(d.join(n)).expect("scratch file");
                f.set_modified(std::time::UNIX_EPOCH + Duration::from_secs(1_600_000_000)).expect("time of a scratch file");
            }
        };
        write(wa);
        let be = LocalBackend::new(&d);
        let first = Backup::new(ByRef(&be)).map_err(|e| e.to_string())?;
        for c in before {
            ask(&first, wa, c).map_err(|e| format!("before: {}", e))?;
        }
        write(wb);
        let other = LocalBackend::new(&d);
        let second = Backup::new(ByRef(if same { &be } else { &other })).map_err(|e| e.to_string())?;
        for c in &after {
            ask(&second, wb, *c).map_err(|e| format!("the second backup, after {:?} of the first: {}", before, e))?;
        }
        // what the first one has read it keeps
        for c in before {
            ask(&first, wa, c).map_err(|e| format!("the first backup asked again: {}", e)).or_else(|e| match c {
                Call::Entries(n) if wa.entries[n].is_none() => Ok(()),
                Call::Manifest(n) if wa.mans[n].is_none() => Ok(()),
                _ => Err(e),
            })?;
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&root);
    // what surrounds the process
    let cwd = std::env::current_dir().ok();
    let nows = [i64::MIN, 0, 1, at(0) - 1, at(0), at(1) + 1, at(2), (1 << 31) - 1, 1 << 31, 1 << 32, 32_503_680_000];
    for (tz, lang, dir) in [("UTC", "C", "/"), ("America/St_Johns", "de_DE.UTF-8", "/usr"), ("XXX-25", "tr_TR.UTF-8", "/tmp"), ("AAA+24BBB,M3.2.0/0,M11.1.0/0", "POSIX", "/"), (":no/such/zone", "", "/")] {
        crate::sys::set_tz(tz);
        std::env::set_var("LC_ALL", lang);
        std::env::set_var("LANG", lang);
        std::env::set_current_dir(dir).ok();
        c.explore(Box::leak(format!("around_{}", tz.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>()).into_boxed_str()), &format!("time zone {}, language '{}', working directory {}: each backup whose clock says one of {} times when it is opened and another when it is asked, every pair of calls", tz, lang, dir, nows.len()), Opt::default(), &|ch| {
            let w = ch.of(&worlds);
            let (opened, asked) = (*ch.of(&nows), *ch.of(&nows));
            let calls = [*ch.of(&quiet), *ch.of(&quiet)];
            ch.state(&(w.label, opened, asked, calls));
            ch.outcome(&(w.label, opened < at(0), asked < at(0)));
            ch.nontrivial();
            ch.note(|| format!("{} opened at {} and asked at {}: {:?}", w.label, opened, asked, calls));
            crate::sys::set_now(opened);
            let b = Backup::new(Mem::new(&w.files)).map_err(|e| format!("{}: {}", w.label, e))?;
            crate::sys::set_now(asked);
            let r = calls.iter().try_for_each(|c| match c {
                // how a list is printed may depend on the clock and the zone, not what it holds
                Call::List => {
                    let got: Vec<_> = b.snapshots().map_err(|e| e.to_string())?.into_iter().map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect();
                    ensure_eq!(got, w.snaps, "snapshots of {}", w.label);
                    let printed = b.snapshots().unwrap().as_collections().to_string();
                    ensure_eq!(printed.lines().count(), w.printed.lines().count(), "lines of {} printed:\n{}", w.label, printed);
                    Ok(())
                }
                c => ask(&b, w, *c),
            });
            crate::sys::set_now(i64::MIN);
            r.map_err(|e| format!("opened at {}, asked at {}, time zone {}: {}", opened, asked, tz, e))
        });
    }
    crate::sys::set_tz("UTC");
    std::env::remove_var("LC_ALL");
    std::env::remove_var("LANG");
    if let Some(d) = cwd {
        let _ = std::env::set_current_dir(d);
    }
    // threads
    let programs: Vec<Vec<Call>> = vec![
        vec![Call::Entries(1), Call::Manifest(0), Call::Manifest(2), Call::Entries(2)],
        vec![Call::Manifest(1), Call::Entries(2), Call::Reopen, Call::Entries(0), Call::List],
        vec![Call::List, Call::Manifest(0), Call::Manifest(1), Call::Manifest(2)],
    ];
    let max_switches = c.by_tier(2usize, 3);
    // how many points a program passes on its own
    let alone: Vec<Vec<Vec<usize>>> = [usize::MAX, 400].iter().map(|chunk| worlds.iter().map(|w| programs.iter().map(|p| {
        threads([w, w], [p, &[]], 0, vec![], *chunk).map_or(0, |n| n[0])
    }).collect()).collect()).collect();
    let tp: Vec<(usize, usize)> = c.by_tier(pairs[..3].to_vec(), pairs.clone());
    let combos: Vec<(usize, usize)> = c.by_tier(vec![(0, 0), (0, 1), (2, 1)], (0..3).flat_map(|a| (0..3).map(move |b| (a, b))).collect());
    c.explore("threads", &format!("two threads with a backup each ({} pairs, {} pairs of programs of four or five calls), changing over at up to {} of the points where either calls its backend, whole reads or reads of 400 bytes", tp.len(), combos.len(), max_switches), Opt::default(), &|ch| {
        let (a, b) = *ch.of(&tp);
        let (p, q) = *ch.of(&combos);
        let small = ch.pick(2);
        let chunk = [usize::MAX, 400][small];
        let total = alone[small][a][p] + alone[small][b][q] + 2;
        let first = ch.pick(2);
        let mut switches = vec![];
        let mut lo = 0;
        // small reads only with fewer changes
        let most = if small == 1 { max_switches.min(2) - 1 } else { max_switches };
        for _ in 0..1 + ch.pick(most) {
            if lo >= total {
                return Ok(());
            }
            lo += ch.pick(total - lo);
            switches.push(lo);
            lo += 1;
        }
        ch.state(&(a, b, p, q, chunk, first, &switches));
        ch.nontrivial();
        ch.outcome(&(a, b, p, q, first, switches.len()));
        ch.note(|| format!("{} {:?} and {} {:?}, the {} first, changing over before calls {:?}", worlds[a].label, programs[p], worlds[b].label, programs[q], ["first", "second"][first], switches));
        threads([&worlds[a], &worlds[b]], [&programs[p], &programs[q]], first, switches.clone(), chunk).map(|_| ()).map_err(|e| format!("changing over before calls {:?}: {}", switches, e))
    });
}



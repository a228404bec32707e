//! C18: the local backend shows the directory as it is.
use crate::engine::*;
use crate::sys;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::Backup;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static SEQ: AtomicUsize = AtomicUsize::new(0);

/// A scratch directory of one execution; removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new(root: &Path) -> Scratch {
        let p = root.join(format!("s{}", SEQ.fetch_add(1, Relaxed)));
        fs::create_dir(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if let Ok(d) = fs::read_dir(&self.0) {
            for e in d.flatten() {
                let p = e.path();
                match fs::symlink_metadata(&p) {
                    Ok(m) if m.is_dir() => {
                        let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o700));
                        if let Ok(d2) = fs::read_dir(&p) {
                            for e2 in d2.flatten() {
                                let _ = fs::remove_file(e2.path());
                            }
                        }
                        let _ = fs::remove_dir(&p);
                    }
                    _ => {
                        let _ = fs::remove_file(&p);
                    }
                }
            }
        }
        let _ = fs::remove_dir(&self.0);
    }
}

struct RootDir(PathBuf);
impl Drop for RootDir {
    fn drop(&mut self) {
        let _ = fs::remove_dir(&self.0);
    }
}

fn content(i: usize) -> Vec<u8> {
    match i % 5 {
        0 => vec![],
        1 => b"short".to_vec(),
        2 => (0..=255u8).collect(),
        3 => (0..5000).map(|k| (k * 7 + i) as u8).collect(),
        _ => b"\0\0\n\r\n".to_vec(),
    }
}

/// Everything the library could change: names, types, contents, times.
fn picture(dir: &Path) -> BTreeMap<OsString, (u32, u64, i64, i64, Vec<u8>)> {
    let mut m = BTreeMap::new();
    for e in fs::read_dir(dir).expect("scratch listing").flatten() {
        let p = e.path();
        let md = fs::symlink_metadata(&p).unwrap();
        let data = if md.is_file() { fs::read(&p).unwrap_or_default() } else { vec![] };
        m.insert(e.file_name(), (md.mode(), md.len(), md.mtime(), md.mtime_nsec(), data));
    }
    m
}

fn list(b: &LocalBackend) -> std::io::Result<Vec<OsString>> {
    let mut v: Vec<OsString> = b.file_names()?.into_iter().collect();
    v.sort();
    Ok(v)
}

fn read(b: &LocalBackend, name: &OsStr) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    b.open_file(Path::new(name))?.read_to_end(&mut v)?;
    Ok(v)
}

/// Runs `f` with file-system permissions of an unprivileged user; None if that cannot be arranged.
pub fn as_nobody<T>(probe: &Path, f: impl FnOnce() -> T) -> Option<T> {
    unsafe {
        let old = libc::syscall(libc::SYS_setfsuid, 65534u32) as u32;
        let dropped = libc::syscall(libc::SYS_setfsuid, u32::MAX) as u32 == 65534;
        let r = if dropped && fs::File::open(probe).is_err() { Some(f()) } else { None };
        libc::syscall(libc::SYS_setfsuid, old);
        r
    }
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "the directory is not empty, or a failure is injected".into();
    c.assumptions = vec![
        "the file system is the sandbox's temporary directory; failures of the directory-read call are injected by interposing readdir64, others are real (missing, not a directory, no permission, symbolic-link loops)".into(),
        "the directory does not change during a call".into(),
    ];
    let root = RootDir(std::env::temp_dir().join(format!("mc-c18-{}", std::process::id())));
    fs::create_dir(&root.0).expect("scratch root");
    let rp = root.0.clone();
    let long: Vec<u8> = vec![b'n'; 255];
    let names: Vec<Vec<u8>> = vec![
        b"duplicity-full.20150617T182545Z.manifest".to_vec(), b".hidden".to_vec(), b"\xff\xfe\x80".to_vec(), b" lead and trail ".to_vec(), b"new\nline".to_vec(), long, "\u{fc}n\u{ef}".as_bytes().to_vec(), b"...".to_vec(),
        b"-rf".to_vec(), b"a\\b".to_vec(), b"DUPLICITY-FULL.20150617T182545Z.VOL1.DIFFTAR.GZ".to_vec(), b"*?[]".to_vec(), b"~".to_vec(),
    ];
    let k = c.by_tier(9, 13);
    let bases = ["plain", "slash", "dot", "relative", "symlink"];
    c.explore("subsets", &format!("every subset of {} awkward names as files, the base path written in {} ways: listed once each, read exactly, nothing modified", k, bases.len()), Opt::default(), &|ch| {
        let s = Scratch::new(&rp);
        let mut want = vec![];
        for (i, n) in names[..k].iter().enumerate() {
            if ch.flag() {
                fs::write(s.0.join(OsStr::from_bytes(n)), content(i)).unwrap();
                want.push((OsString::from_vec(n.clone()), content(i)));
            }
        }
        want.sort();
        ch.state(&want.iter().map(|w| w.0.clone()).collect::<Vec<_>>());
        if !want.is_empty() {
            ch.nontrivial();
        }
        let before = picture(&s.0);
        let dir_time = fs::metadata(&s.0).unwrap().mtime_nsec();
        for kind in bases {
            let base = match kind {
                "plain" => s.0.clone(),
                "slash" => PathBuf::from(format!("{}//", s.0.display())),
                "dot" => s.0.join(".").join("..").join(s.0.file_name().unwrap()),
                "relative" => {
                    let cwd = std::env::current_dir().unwrap();
                    let mut p: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
                    p.push(s.0.strip_prefix("/").unwrap());
                    p
                }
                _ => {
                    let l = rp.join(format!("l{}", SEQ.fetch_add(1, Relaxed)));
                    symlink(&s.0, &l).unwrap();
                    l
                }
            };
            let b = LocalBackend::new(&base);
            let r = (|| -> R {
                for _ in 0..2 {
                    let got = list(&b).map_err(|e| format!("listing failed: {}", e))?;
                    ensure_eq!(got, want.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), "names listed ({})", kind);
                }
                for (n, data) in &want {
                    let got = read(&b, n).map_err(|e| format!("opening or reading {:?} failed: {}", n, e))?;
                    ensure!(got == *data, "contents of {:?} ({}): {} bytes instead of {}", n, kind, got.len(), data.len());
                    ch.step();
                }
                let again = Backup::new(LocalBackend::new(&base)).map_err(|e| format!("Backup::new: {}", e))?;
                let full = want.iter().any(|w| w.0.to_str().map_or(false, |s| s.to_lowercase().starts_with("duplicity-full.")));
                ensure_eq!(again.snapshots().map_err(|e| e.to_string())?.into_iter().count(), full as usize, "snapshots seen through the local backend");
                ensure!(b.open_file(Path::new("no such file")).is_err(), "opening a missing file succeeds");
                Ok(())
            })();
            if kind == "symlink" {
                let _ = fs::remove_file(&base);
            }
            r?;
        }
        ensure_eq!(picture(&s.0), before, "the directory was modified");
        ensure_eq!(fs::metadata(&s.0).unwrap().mtime_nsec(), dir_time, "the directory was modified");
        ch.outcome(&want);
        Ok(())
    });
    let counts: Vec<usize> = c.by_tier(vec![0, 1, 2, 3, 7, 30], vec![0, 1, 2, 3, 7, 40, 60]);
    c.explore("readdir_faults", "a failure at every call that reads the directory, for directories of several sizes, then a retry; through the backend and through Backup::new", Opt::default(), &|ch| {
        let n = *ch.of(&counts);
        let s = Scratch::new(&rp);
        for i in 0..n {
            fs::write(s.0.join(format!("duplicity-full.20150617T1825{:02}Z.vol{}.difftar.gz", i % 60, i)), b"x").unwrap();
        }
        let b = LocalBackend::new(&s.0);
        sys::fail_readdir(-1);
        let want = list(&b).map_err(|e| format!("listing failed: {}", e))?;
        ensure_eq!(want.len(), n, "number of names listed");
        let calls = sys::readdir_calls() as usize;
        // when nothing goes through the interposed call there is no fault to place here
        if calls == 0 {
            return Ok(());
        }
        let at = ch.pick(calls);
        ch.state(&(n, at));
        ch.nontrivial();
        ch.faults(2);
        ch.note(|| format!("{} files, directory read {} of {} fails", n, at, calls));
        sys::fail_readdir(at as i64);
        let got = list(&b);
        let fired = sys::readdir_fired();
        sys::fail_readdir(-1);
        if fired {
            if let Ok(v) = got {
                return Err(format!("reading the directory failed after {} of {} entries, but {} names are listed as if that were all", at, calls, v.len()));
            }
        }
        ensure_eq!(list(&b).map_err(|e| format!("retry failed: {}", e))?, want, "names listed after a failure");
        sys::fail_readdir(at as i64);
        let r = Backup::new(LocalBackend::new(&s.0)).map(|_| ());
        let fired = sys::readdir_fired();
        sys::fail_readdir(-1);
        ensure!(!fired || r.is_err(), "Backup::new succeeds although listing failed at call {}", at);
        ensure!(Backup::new(LocalBackend::new(&s.0)).is_ok(), "Backup::new fails once the directory can be read");
        ch.outcome(&(n, at));
        Ok(())
    });
    // a backup of two snapshots in a real directory, with a failure at any call that opens or reads
    let mut repo = crate::world::Repo::default();
    for (i, full) in [true, false].iter().enumerate() {
        let mut t = crate::world::Tree::new();
        t.insert(crate::world::comps("a"), crate::world::Node::new(crate::world::Kind::File, i as u64));
        t.insert(crate::world::comps(&format!("b{}", i)), crate::world::Node::new(crate::world::Kind::Dir, 0));
        repo.backup(*full, crate::world::at(i as i64), t, 1, &Default::default());
    }
    let repo_dir = rp.join("repo");
    fs::create_dir(&repo_dir).expect("scratch directory");
    for (n, d) in &repo.files {
        fs::write(repo_dir.join(n), &**d).unwrap();
    }
    let errnos = [0, libc::EIO, libc::EINTR, libc::EACCES, libc::EPERM, libc::ENOENT, libc::ENOTDIR, libc::EISDIR, libc::ELOOP, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EAGAIN, libc::EBUSY, libc::ESTALE, libc::EINVAL, libc::EBADF, libc::ENAMETOOLONG, libc::ETIMEDOUT, libc::EOVERFLOW, libc::ENXIO, libc::ENODEV];
    let cases: Vec<(usize, bool)> = (0..3).flat_map(|p| [false, true].map(move |r| (p, r))).collect();
    c.explore("call_failures", &format!("reading a backup of two snapshots in three orders from a real directory, with each call that opens or reads a directory or file failing with each of {} error numbers or giving one byte: every result is an error or the one without a failure, and right once the failure has passed", errnos.len() - 1), Opt::default(), &|ch| {
        let (program, volumes) = *ch.of(&cases);
        // every step of a program, tried again after an error
        let go = |ch: &mut Ch, first: i64, errno: i32| -> Result<(Vec<String>, usize, i64), String> {
            let mut errors = 0;
            let mut seen = vec![];
            sys::fail_call(first, errno);
            let r = (|| -> R {
                let mut tries = |what: &str, f: &mut dyn FnMut() -> Result<String, String>| -> Result<String, String> {
                    for _ in 0..4 {
                        match f() {
                            Ok(v) => return Ok(v),
                            Err(_) => errors += 1,
                        }
                    }
                    Err(format!("{} fails although the failure has passed", what))
                };
                let b = LocalBackend::new(&repo_dir);
                let listing = &mut || list(&b).map(|v| format!("{:?}", v)).map_err(|e| e.to_string());
                if program == 0 {
                    seen.push(tries("listing the directory", listing)?);
                }
                let mut backup = None;
                tries("Backup::new", &mut || {
                    backup = Some(Backup::new(LocalBackend::new(&repo_dir)).map_err(|e| e.to_string())?);
                    Ok(String::new())
                })?;
                let backup = backup.unwrap();
                let n = backup.snapshots().map_err(|e| e.to_string())?.into_iter().count();
                ensure_eq!(n, 2, "number of snapshots");
                let order: Vec<usize> = if program == 1 { vec![1, 0] } else { vec![0, 1] };
                for i in order {
                    let s = backup.snapshots().map_err(|e| e.to_string())?.into_iter().nth(i).unwrap();
                    let entries = &mut || s.entries().map(|e| format!("{:?}", e.as_signature().map(|x| (crate::world::seen(&x), x.size_hint())).collect::<Vec<_>>())).map_err(|e| e.to_string());
                    let manifest = &mut || s.manifest().map(|m| format!("{:?}", m)).map_err(|e| e.to_string());
                    if program == 2 {
                        seen.push(tries("a manifest", manifest)?);
                    }
                    seen.push(tries("the entries of a snapshot", entries)?);
                    if program != 2 {
                        seen.push(tries("a manifest", manifest)?);
                    }
                    for name in repo.files.keys().filter(|n| n.contains("difftar")) {
                        if volumes {
                            seen.push(tries("a volume", &mut || read(&b, OsStr::new(name)).map(|v| format!("{:?}", v)).map_err(|e| e.to_string()))?);
                        }
                    }
                }
                Ok(())
            })();
            let calls = sys::calls_done();
            ch.step();
            r.map(|_| (seen, errors, calls))
        };
        // some things are only done once in a process
        static WARM: std::sync::Once = std::sync::Once::new();
        WARM.call_once(|| drop(go(ch, -1, 0)));
        let (want, e0, calls) = go(ch, -1, 0)?;
        ensure_eq!(e0, 0, "errors without a failure");
        if calls == 0 {
            return Ok(());
        }
        let at = ch.pick(calls as usize) as i64;
        let errno = *ch.of(&errnos);
        ch.state(&(program, volumes, at, errno));
        ch.nontrivial();
        ch.faults(1);
        ch.note(|| format!("program {}, call {} of {} fails with error {}", program, at, calls, errno));
        let (got, errors, _) = go(ch, at, errno).map_err(|e| format!("{} (call {} of {} failed with error {})", e, at, calls, errno))?;
        ensure!(got == want, "call {} of {} failed with error {}, {} errors were reported, and something reads differently:\n  {:?}\n  instead of\n  {:?}", at, calls, errno, errors, got, want);
        ch.outcome(&(program, at, errno, errors));
        Ok(())
    });
    for n in repo.files.keys() {
        let _ = fs::remove_file(repo_dir.join(n));
    }
    let _ = fs::remove_dir(&repo_dir);
    let kinds = ["file", "subdir", "dangling", "link to file", "loop", "fifo", "no permission", "full subdir", "link to empty", "link abroad"];
    let abroad = rp.join("abroad");
    fs::write(&abroad, b"abroad").unwrap();
    c.explore("odd_entries", "every subset of entries that are not plain readable files, next to a plain one: all listed, those that cannot be read reported", Opt::default(), &|ch| {
        let s = Scratch::new(&rp);
        let mut want: Vec<OsString> = vec![];
        let mask: Vec<bool> = kinds.iter().map(|_| ch.flag()).collect();
        for (k, on) in kinds.iter().zip(&mask) {
            if !*on {
                continue;
            }
            let p = s.0.join(k);
            match *k {
                "file" => fs::write(&p, content(3)).unwrap(),
                "subdir" => fs::create_dir(&p).unwrap(),
                "full subdir" => {
                    fs::create_dir(&p).unwrap();
                    fs::write(p.join("inner"), b"inner").unwrap();
                }
                "dangling" => symlink("nowhere", &p).unwrap(),
                "link to file" => {
                    fs::write(s.0.join("target"), b"target data").unwrap();
                    want.push("target".into());
                    symlink("target", &p).unwrap()
                }
                "link to empty" => {
                    fs::write(s.0.join("empty"), b"").unwrap();
                    want.push("empty".into());
                    symlink("empty", &p).unwrap()
                }
                "link abroad" => symlink(&abroad, &p).unwrap(),
                "loop" => symlink("loop", &p).unwrap(),
                "fifo" => unsafe {
                    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                    libc::mkfifo(c.as_ptr(), 0o600);
                },
                _ => {
                    fs::write(&p, b"secret").unwrap();
                    fs::set_permissions(&p, fs::Permissions::from_mode(0)).unwrap();
                }
            }
            want.push(OsString::from(k));
        }
        want.sort();
        ch.state(&mask);
        ch.nontrivial();
        ch.note(|| format!("{:?}", want));
        let b = LocalBackend::new(&s.0);
        let before = picture(&s.0);
        ensure_eq!(list(&b).map_err(|e| format!("listing failed: {}", e))?, want, "names listed");
        for (k, on) in kinds.iter().zip(&mask) {
            let r = if *k == "fifo" { None } else { Some(read(&b, OsStr::new(k))) };
            match (*k, *on, r) {
                ("fifo", ..) => {}
                (_, false, Some(Ok(v))) => return Err(format!("missing file {:?} reads as {} bytes", k, v.len())),
                ("file", true, Some(r)) => ensure!(r.as_ref().ok() == Some(&content(3)), "plain file reads as {:?}", r.map(|v| v.len())),
                ("link to file", true, Some(r)) => ensure!(r.as_ref().ok().map(|v| &v[..]) == Some(b"target data"), "a linked file reads as {:?}", r),
                ("link to empty", true, Some(r)) => ensure!(r.as_ref().ok().map(|v| v.len()) == Some(0), "a link to an empty file reads as {:?}", r),
                ("link abroad", true, Some(r)) => ensure!(r.as_ref().ok().map(|v| &v[..]) == Some(b"abroad"), "a link to a file of another directory reads as {:?}", r),
                ("dangling" | "loop" | "subdir" | "full subdir", true, Some(Ok(v))) => return Err(format!("{:?} reads as {} bytes", k, v.len())),
                _ => {}
            }
        }
        let secret = s.0.join("no permission");
        if mask[6] {
            if let Some(r) = as_nobody(&secret, || (b.open_file(Path::new("no permission")).is_err(), list(&b))) {
                ch.faults(1);
                ensure!(r.0, "opening a file without permission succeeds");
                let _ = r.1;
            }
        }
        ensure_eq!(picture(&s.0), before, "the directory was modified");
        ch.outcome(&mask);
        Ok(())
    });
    let _ = fs::remove_file(&abroad);
    // names that look the same to whoever replaces what is not UTF-8, changes case, or trims or normalises them
    let alike: Vec<Vec<u8>> = vec![b"\xff".to_vec(), b"\xfe".to_vec(), b"\xff\xfe".to_vec(), b"\xc3".to_vec(), "\u{fffd}".as_bytes().to_vec(), b"a".to_vec(), b"A".to_vec(), b"a ".to_vec(), b" a".to_vec(), b"a.".to_vec(), "e\u{301}".as_bytes().to_vec(), "\u{e9}".as_bytes().to_vec(), b"\xe9".to_vec(), b"?".to_vec()];
    let la = c.by_tier(9, 14);
    c.explore("alike", &format!("every subset of {} names that are alike once converted to text, trimmed or lowered: each listed and read", la), Opt::default(), &|ch| {
        let s = Scratch::new(&rp);
        let mut want = vec![];
        for (i, n) in alike[alike.len() - la..].iter().chain(&alike[..if la < alike.len() { 4 } else { 0 }]).enumerate() {
            if ch.flag() {
                fs::write(s.0.join(OsStr::from_bytes(n)), [i as u8]).unwrap();
                want.push((OsString::from_vec(n.clone()), vec![i as u8]));
            }
        }
        want.sort();
        ch.state(&want);
        if !want.is_empty() {
            ch.nontrivial();
        }
        let b = LocalBackend::new(&s.0);
        ensure_eq!(list(&b).map_err(|e| format!("listing failed: {}", e))?, want.iter().map(|w| w.0.clone()).collect::<Vec<_>>(), "names listed");
        for (n, data) in &want {
            ensure_eq!(read(&b, n).map_err(|e| format!("reading {:?} failed: {}", n, e))?, *data, "contents of {:?}", n);
        }
        ch.outcome(&want);
        Ok(())
    });
    c.explore("bad_base", "every kind of base directory that cannot be listed", Opt::default(), &|ch| {
        let s = Scratch::new(&rp);
        let k = ch.pick(6);
        let base = match k {
            0 => s.0.join("missing"),
            1 => {
                fs::write(s.0.join("f"), b"x").unwrap();
                s.0.join("f")
            }
            2 => {
                symlink("nowhere", s.0.join("d")).unwrap();
                s.0.join("d")
            }
            3 => {
                symlink("loop", s.0.join("loop")).unwrap();
                s.0.join("loop")
            }
            4 => s.0.join(OsStr::from_bytes(&[b'x'; 300])),
            _ => {
                let d = s.0.join("locked");
                fs::create_dir(&d).unwrap();
                fs::write(d.join("inner"), b"x").unwrap();
                fs::set_permissions(&d, fs::Permissions::from_mode(0)).unwrap();
                d
            }
        };
        ch.state(&k);
        ch.nontrivial();
        ch.faults(1);
        let go = || (list(&LocalBackend::new(&base)).is_err(), Backup::new(LocalBackend::new(&base)).is_err(), read(&LocalBackend::new(&base), OsStr::new("inner")).is_err());
        let r = if k == 5 { as_nobody(&base, go).unwrap_or((true, true, true)) } else { go() };
        ch.outcome(&r);
        ensure!(r.0, "listing a directory that cannot be read succeeds (case {})", k);
        ensure!(r.1, "Backup::new of a directory that cannot be read succeeds (case {})", k);
        ensure!(r.2, "opening a file in a directory that cannot be read succeeds (case {})", k);
        Ok(())
    });
    let top = c.by_tier(22u32, 27);
    let sizes: Vec<usize> = (0..=top).flat_map(|k| (0..3usize).map(move |d| (1usize << k) + d - 1)).collect();
    let mut odd: Vec<Vec<u8>> = vec![];
    for b in (1..=255u8).filter(|b| *b != b'/') {
        odd.extend([vec![b], vec![b, b'x', b'y'], vec![b'x', b, b'y'], vec![b'x', b'y', b], vec![b, b]]);
    }
    odd.extend((1..=255).map(|k| vec![b'q'; k]));
    for w in ["lost+found", ".DS_Store", "Thumbs.db", "desktop.ini", ".git", ".nfs000", "#autosave#", "backup~", "core", "CON", "nul", "file.tmp", "file.part", "file.swp", "file.bak", ".lock", "x.lock", "%2e%2e", "%00", "a:b", "C:", "C:\\x", "\\\\host", "~root", "$HOME", "${x}", "`id`", "--help", "....", ". .", ".x.", "duplicity-full.20150617T182545Z.manifest.part", "duplicity-full.20150617t182545z.manifest", "file://x", "a?b#c", "e\u{301}", "\u{e9}", "\u{feff}x", "\u{202e}x"] {
        odd.push(w.as_bytes().to_vec());
    }
    odd.retain(|n| n != b"." && n != b".." && !n.contains(&b'/'));
    odd.sort();
    odd.dedup();
    c.explore("names", "every byte alone, doubled and at each place of a name, every length, and names that systems or programs treat specially: as a file, as a subdirectory, and as the base directory", Opt::default(), &|ch| {
        let n = ch.of(&odd).clone();
        let n = OsStr::from_bytes(&n);
        let role = ch.pick(3);
        let s = Scratch::new(&rp);
        ch.state(&(n, role));
        ch.nontrivial();
        ch.outcome(&n);
        ch.note(|| format!("{:?} as {}", n, ["a file", "a subdirectory", "the base directory"][role]));
        let data = content(n.len());
        if role == 2 {
            let base = s.0.join(n);
            fs::create_dir(&base).unwrap();
            fs::write(base.join("f"), &data).unwrap();
            let r = (|| -> R {
                let b = LocalBackend::new(&base);
                ensure_eq!(list(&b).map_err(|e| e.to_string())?, vec![OsString::from("f")], "names in directory {:?}", n);
                ensure!(read(&b, OsStr::new("f")).map_err(|e| e.to_string())? == data, "contents of a file in directory {:?}", n);
                Ok(())
            })();
            let _ = fs::remove_file(base.join("f"));
            return r;
        }
        fs::write(s.0.join("other file"), b"other").unwrap();
        if role == 1 {
            fs::create_dir(s.0.join(n)).unwrap();
        } else {
            fs::write(s.0.join(n), &data).unwrap();
        }
        let mut want = vec![OsString::from("other file"), n.to_owned()];
        want.sort();
        let b = LocalBackend::new(&s.0);
        ensure_eq!(list(&b).map_err(|e| e.to_string())?, want, "names listed");
        match read(&b, n) {
            Ok(d) => ensure!(role == 0 && d == data, "{:?} reads as {} bytes instead of {}", n, d.len(), data.len()),
            Err(e) => ensure!(role == 1, "{:?}: {}", n, e),
        }
        Ok(())
    });
    c.explore("file_sizes", &format!("files of every size around every power of two up to 2^{}, read whole and in pieces of several sizes", top), Opt::default(), &|ch| {
        let n = *ch.of(&sizes);
        let piece = *ch.of(&[0usize, 1000, 1 << 16]);
        let s = Scratch::new(&rp);
        let data: Vec<u8> = (0..n).map(|i| (i ^ i >> 8 ^ i >> 16) as u8).collect();
        fs::write(s.0.join("f"), &data).unwrap();
        ch.state(&(n, piece));
        ch.nontrivial();
        ch.outcome(&n);
        let b = LocalBackend::new(&s.0);
        let mut got = vec![];
        if piece == 0 {
            got = read(&b, OsStr::new("f")).map_err(|e| e.to_string())?;
        } else {
            let mut f = b.open_file(Path::new("f")).map_err(|e| e.to_string())?;
            let mut buf = vec![0u8; piece];
            loop {
                let k = f.read(&mut buf).map_err(|e| e.to_string())?;
                if k == 0 {
                    break;
                }
                got.extend_from_slice(&buf[..k]);
            }
        }
        ensure!(got == data, "a file of {} bytes reads as {} bytes{}", n, got.len(), if got.len() == n { ", and they differ" } else { "" });
        Ok(())
    });
    let counts: Vec<usize> = c.by_tier(vec![255, 256, 257, 1000, 4097, 65_537], vec![255, 256, 257, 1000, 3000, 4095, 4096, 4097, 8193, 16_385, 40_000, 65_535, 65_536, 65_537, 131_073]);
    c.explore("large_directories", "directories of up to thousands of entries: all listed, and the failure of any one directory read reported", Opt { threads: 2, ..Opt::default() }, &|ch| {
        let n = *ch.of(&counts);
        let s = Scratch::new(&rp);
        let mut want = vec![];
        for i in 0..n {
            let name = format!("duplicity-full.20150617T182545Z.vol{}.difftar.gz", i);
            fs::write(s.0.join(&name), b"").unwrap();
            want.push(OsString::from(name));
        }
        want.sort();
        ch.state(&n);
        ch.nontrivial();
        ch.outcome(&n);
        let b = LocalBackend::new(&s.0);
        sys::fail_readdir(-1);
        ensure_eq!(list(&b).map_err(|e| e.to_string())?.len(), want.len(), "number of names listed");
        ensure!(list(&b).map_err(|e| e.to_string())? == want, "the names listed are not the {} files of the directory", n);
        let calls = sys::readdir_calls() as usize / 2;
        for at in (0..calls).filter(|a| n < 300 || a % (n / 40) == 0 || *a < 4 || calls - a < 4) {
            sys::fail_readdir(at as i64);
            let r = list(&b);
            let fired = sys::readdir_fired();
            sys::fail_readdir(-1);
            ch.faults(1);
            ch.step();
            ensure!(!fired || r.is_err(), "directory read {} of {} failed, but {} names are listed as if that were all", at, calls, r.map_or(0, |v| v.len()));
        }
        Ok(())
    });
    c.explore("streams", "every interleaving of reads of three open streams, two of them of the same file, the third opened at any moment: each reads its own file from its start", Opt::default(), &|ch| {
        let s = Scratch::new(&rp);
        let datas: Vec<Vec<u8>> = (0..2).map(|k| (0..40u8).map(|i| i * 5 + k).collect()).collect();
        for (n, d) in ["a", "b"].iter().zip(&datas) {
            fs::write(s.0.join(n), d).unwrap();
        }
        let b = LocalBackend::new(&s.0);
        let of = [0usize, 1, ch.pick(2)];
        let mut open: Vec<Option<Box<dyn Read>>> = vec![None, None, None];
        let mut got = vec![vec![], vec![], vec![]];
        let mut trace = vec![];
        ch.nontrivial();
        for _ in 0..8 {
            let k = ch.pick(3);
            trace.push(k);
            if open[k].is_none() {
                open[k] = Some(Box::new(b.open_file(Path::new(["a", "b"][of[k]])).map_err(|e| e.to_string())?));
            } else {
                let mut buf = [0u8; 13];
                let n = open[k].as_mut().unwrap().read(&mut buf).map_err(|e| e.to_string())?;
                got[k].extend_from_slice(&buf[..n]);
            }
            ensure!(datas[of[k]].starts_with(&got[k]), "stream {} reads {:?} after the steps {:?}", k, got[k], trace);
            if k == 1 {
                // a listing in between
                ensure_eq!(list(&b).map_err(|e| e.to_string())?.len(), 2, "names listed");
            }
        }
        for k in 0..3 {
            if let Some(f) = open[k].as_mut() {
                f.read_to_end(&mut got[k]).map_err(|e| e.to_string())?;
                ensure!(got[k] == datas[of[k]], "stream {} reads {:?} to the end after the steps {:?}", k, got[k], trace);
            }
        }
        ch.state(&trace);
        ch.outcome(&trace);
        Ok(())
    });
    // a listing taken while files come and go in between calls
    c.explore("changing", "every sequence of up to four add/remove steps between listings: each listing shows the directory as it is then", Opt::default(), &|ch| {
        let s = Scratch::new(&rp);
        let b = LocalBackend::new(&s.0);
        let pool = ["a", "b", "c"];
        let mut have: BTreeMap<OsString, Vec<u8>> = BTreeMap::new();
        ch.nontrivial();
        for step in 0..4 {
            let p = *ch.of(&pool);
            if have.remove(OsStr::new(p)).is_some() {
                fs::remove_file(s.0.join(p)).unwrap();
            } else {
                let data = content(step + p.len());
                fs::write(s.0.join(p), &data).unwrap();
                have.insert(p.into(), data);
            }
            ch.state(&have);
            let got = list(&b).map_err(|e| e.to_string())?;
            ensure_eq!(got, have.keys().cloned().collect::<Vec<_>>(), "names listed after step {}", step);
            for (n, d) in &have {
                ensure!(read(&b, n).ok().as_ref() == Some(d), "contents of {:?} after step {}", n, step);
            }
        }
        ch.outcome(&have);
        Ok(())
    });
}

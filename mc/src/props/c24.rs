//! C24: an error says what went wrong.
use super::c09::tree;
use super::c18::as_nobody;
use crate::engine::*;
use crate::sys;
use crate::world::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::manifest::ParseError;
use ruplicity::Backup;
use std::fs;
use std::io::{self, ErrorKind, Read};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

const KINDS: [ErrorKind; 35] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset, ErrorKind::ConnectionRefused, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown, ErrorKind::NotADirectory, ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
];

/// What an error is, as far as the property goes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Why {
    Io(String),
    Keyword(String),
    Hash,
    HashType,
    Path,
    Order(usize),
    Int,
    Utf8,
}
fn io_why(e: &io::Error) -> Result<Why, String> {
    ensure!(!e.to_string().trim().is_empty(), "an error of kind {:?} prints as nothing", e.kind());
    Ok(Why::Io(format!("{:?}", e.kind())))
}
fn why(e: &ParseError) -> Result<Why, String> {
    let text = e.to_string();
    ensure!(!text.trim().is_empty(), "{:?} prints as nothing", e);
    Ok(match e {
        ParseError::Io(e) => io_why(e)?,
        ParseError::MissingKeyword(k) => {
            ensure!(text.contains(&k[..]), "the text of {:?} does not name it: {}", e, text);
            Why::Keyword(k.clone())
        }
        ParseError::MissingHash => Why::Hash,
        ParseError::MissingHashType => Why::HashType,
        ParseError::MissingPath => Why::Path,
        ParseError::OutOfOrderVolume(n) => {
            ensure!(text.contains(&n.to_string()), "the text of {:?} does not name it: {}", e, text);
            Why::Order(*n)
        }
        ParseError::ParseInt(_) => Why::Int,
        ParseError::Utf8(_) => Why::Utf8,
    })
}

/// The first problem of a manifest; several where the same line, or the same volume for its number, has two.
/// None: no problem.
fn problems(text: &[u8]) -> Option<Vec<Why>> {
    let eof = || Some(vec![Why::Io("UnexpectedEof".into())]);
    let lines: Vec<&[u8]> = text.split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l)).filter(|l| !l.is_empty()).collect();
    let mut it = lines.iter();
    let want = |l: &[u8], kw: &str| -> Result<Vec<Vec<u8>>, Vec<Why>> {
        let mut w = l.split(|b| *b == b' ').filter(|w| !w.is_empty()).map(|w| w.to_vec());
        let first = w.next().unwrap_or_default();
        if first == kw.as_bytes() {
            return Ok(w.collect());
        }
        Err(if std::str::from_utf8(&first).is_ok() { vec![Why::Keyword(kw.into())] } else { vec![Why::Utf8, Why::Keyword(kw.into())] })
    };
    for kw in ["Hostname", "Localdir"] {
        match it.next().map(|l| want(l, kw)) {
            None => return eof(),
            Some(Err(e)) => return Some(e),
            Some(Ok(_)) => {}
        }
    }
    let mut n = 0;
    loop {
        let mut order = vec![];
        n += 1;
        let with = |mut e: Vec<Why>, order: &Vec<Why>| -> Option<Vec<Why>> {
            e.extend(order.iter().cloned());
            Some(e)
        };
        match it.next().map(|l| want(l, "Volume")) {
            None => return None,
            Some(Err(e)) => return Some(e),
            Some(Ok(w)) => match w.first().and_then(|w| std::str::from_utf8(w).ok()).and_then(|s| s.trim_end_matches(':').parse::<usize>().ok()) {
                None => return Some(vec![Why::Int]),
                Some(k) if k == n => {}
                Some(k) => order.push(Why::Order(k)),
            },
        }
        for kw in ["StartingPath", "EndingPath"] {
            match it.next().map(|l| want(l, kw)) {
                None => return with(eof().unwrap(), &order),
                Some(Err(e)) => return with(e, &order),
                Some(Ok(w)) => match (w.first(), w.get(1)) {
                    (None, _) => return with(vec![Why::Path], &order),
                    (_, Some(b)) => match std::str::from_utf8(b) {
                        Err(_) => return with(vec![Why::Utf8, Why::Int], &order),
                        Ok(s) if s.parse::<usize>().is_err() => return with(vec![Why::Int], &order),
                        _ => {}
                    },
                    _ => {}
                },
            }
        }
        match it.next().map(|l| want(l, "Hash")) {
            None => return with(eof().unwrap(), &order),
            Some(Err(e)) => return with(e, &order),
            Some(Ok(w)) => match w.len() {
                0 => return with(vec![Why::HashType, Why::Hash], &order),
                1 => return with(vec![Why::Hash], &order),
                _ => {}
            },
        }
        if !order.is_empty() {
            return Some(order);
        }
    }
}

fn judge(text: &[u8]) -> Result<Option<Why>, String> {
    let want = problems(text);
    let shown = String::from_utf8_lossy(text).into_owned();
    match (parse_manifest(text), want) {
        (Ok(_), None) => Ok(None),
        (Err(e), None) => Err(format!("a good manifest is rejected with {:?}:\n{}", e, shown)),
        (Ok(_), Some(w)) => Err(format!("a manifest whose first problem is {:?} is accepted:\n{}", w, shown)),
        (Err(e), Some(w)) => {
            let got = why(&e)?;
            ensure!(w.contains(&got), "a manifest whose first problem is {:?} is rejected with {:?}:\n{}", w, e, shown);
            Ok(Some(got))
        }
    }
}

struct RootDir(PathBuf, Vec<String>);
impl Drop for RootDir {
    fn drop(&mut self) {
        for n in &self.1 {
            let _ = fs::remove_file(self.0.join(n));
        }
        let _ = fs::remove_dir(&self.0);
    }
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "an error was returned and its kind compared".into();
    c.assumptions = vec![
        "failures that adapters of the standard library retry by themselves (Interrupted) do not count; a file that was cut off may give any kind of error".into(),
        "where one line, or the number and another line of a volume, have two problems, either may be named".into(),
    ];
    // two chains; the later one is plain
    let mut repo = Repo::default();
    for k in 0..4 {
        repo.backup(k % 2 == 0, at(k), tree(k), 1, &SigStyle { dialect: Dialect::Gnu, gz: if k < 2 { Some(6) } else { None } });
    }
    let chunks = c.by_tier(vec![usize::MAX, 700, 100], vec![usize::MAX, 1000, 512, 100, 33]);
    c.explore("backend_kinds", &format!("each call of opening a backup of four snapshots and of reading one of them failing with each of {} kinds of error, for {} read sizes: the error returned is of that kind", KINDS.len(), chunks.len()), Opt::default(), &|ch| {
        let what = ch.pick(9);
        let chunk = *ch.of(&chunks);
        let once = |fail: Option<(u64, ErrorKind)>| -> Result<(u64, u64, Option<Why>), String> {
            let mem = Mem::new(&repo.files);
            let b = if what == 8 { None } else { Some(Backup::new(mem.clone()).map_err(|e| e.to_string())?) };
            {
                let mut e = mem.0.borrow_mut();
                e.calls = 0;
                e.chunk = chunk;
                e.fail_at = fail.into_iter().collect();
            }
            let r = match &b {
                None => Backup::new(mem.clone()).err().map(|e| io_why(&e)),
                Some(b) => {
                    let s = b.snapshots().map_err(|e| e.to_string())?.into_iter().nth(what / 2).ok_or("a snapshot is missing")?;
                    let r = if what % 2 == 0 { s.entries().err().map(|e| io_why(&e)) } else { s.manifest().err().map(|e| why(&e)) };
                    r
                }
            };
            let r = match r {
                None => None,
                Some(r) => Some(r?),
            };
            let e = mem.0.borrow();
            Ok((e.calls, e.fired, r))
        };
        let (calls, _, r) = once(None)?;
        ensure!(r.is_none(), "an error without a failure: {:?}", r);
        let at = ch.pick(calls as usize) as u64;
        let kind = *ch.of(&KINDS);
        ch.state(&(what, chunk, at, format!("{:?}", kind)));
        ch.note(|| format!("operation {}, call {} of {} fails with {:?}", what, at, calls, kind));
        let (_, fired, r) = once(Some((at, kind)))?;
        ch.faults(fired);
        ch.outcome(&r);
        if let Some(got) = r {
            ch.nontrivial();
            ensure_eq!(got, Why::Io(format!("{:?}", kind)), "the error of operation {} when call {} of {} failed with {:?} (reads of {})", what, at, calls, kind, chunk);
        }
        Ok(())
    });
    // what is not there
    let names: Vec<String> = repo.names().into_iter().filter(|n| !n.contains("difftar")).collect();
    c.explore("not_found", &format!("every subset of the {} signatures and manifests of four snapshots missing, before or after the backup is opened: what needs one of them is not found", names.len()), Opt::default(), &|ch| {
        let late = ch.flag();
        let mut left = repo.files.clone();
        let mut gone = vec![];
        for n in &names {
            if ch.flag() {
                left.remove(n);
                gone.push(n.clone());
            }
        }
        ch.state(&(late, &gone));
        ch.note(|| format!("missing {}: {:?}", if late { "after opening" } else { "before opening" }, gone));
        let mem = Mem::new(if late { &repo.files } else { &left });
        let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        mem.0.borrow_mut().files = left.clone();
        let mut n = 0;
        for s in b.snapshots().map_err(|e| e.to_string())? {
            let w = repo.snaps.iter().position(|w| w.end == s.time().sec).ok_or("an unknown snapshot")?;
            let man = &repo.snaps[w].man_name;
            match (s.manifest(), gone.contains(man)) {
                (Ok(_), false) => {}
                (Err(e), true) => {
                    n += 1;
                    ensure_eq!(why(&e)?, Why::Io("NotFound".into()), "the error for a manifest that is not there (snapshot {})", w)
                }
                (r, g) => return Err(format!("manifest of snapshot {} (missing: {}): {:?}", w, g, r.err().map(|e| e.to_string()))),
            }
            let first = w - w % 2;
            let needs_gone = (first..=w).any(|k| gone.contains(&repo.snaps[k].sig_name));
            match s.entries() {
                Err(e) => {
                    n += 1;
                    ensure_eq!(io_why(&e)?, Why::Io("NotFound".into()), "the error for signatures that are not there (snapshot {})", w)
                }
                Ok(_) => ensure!(!needs_gone, "snapshot {} is listed without its signatures", w),
            }
        }
        if n > 0 {
            ch.nontrivial();
        }
        ch.outcome(&(late, n));
        Ok(())
    });
    // a real directory
    let root = RootDir(std::env::temp_dir().join(format!("mc-c24-{}", std::process::id())), repo.files.keys().cloned().collect());
    fs::create_dir(&root.0).expect("scratch directory");
    for (n, d) in &repo.files {
        fs::write(root.0.join(n), &**d).unwrap();
    }
    let errnos = [libc::EIO, libc::EACCES, libc::EPERM, libc::ENOENT, libc::ENOTDIR, libc::EISDIR, libc::ELOOP, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EBUSY, libc::ESTALE, libc::EINVAL, libc::ETIMEDOUT, libc::ENXIO, libc::ENODEV, libc::ENAMETOOLONG, libc::EOVERFLOW];
    let dir = root.0.clone();
    c.explore("local_errors", &format!("each call that opens or reads a directory or file of the local backend failing with each of {} error numbers: the error carries it", errnos.len()), Opt::default(), &|ch| {
        let what = ch.pick(5);
        let b = LocalBackend::new(&dir);
        let man = Path::new(&repo.snaps[1].man_name);
        let backup = Backup::new(LocalBackend::new(&dir)).map_err(|e| e.to_string())?;
        // the operation; None, or (error number if the error must carry it, kind)
        let once = || -> Option<(Option<Option<i32>>, String)> {
            let of = |e: io::Error| (Some(e.raw_os_error()), format!("{:?}", e.kind()));
            match what {
                0 => b.file_names().err().map(of),
                1 => b.open_file(man).and_then(|mut f| { let mut v = vec![]; f.read_to_end(&mut v) }).err().map(of),
                2 => Backup::new(LocalBackend::new(&dir)).err().map(of),
                3 => {
                    let s = backup.snapshots().ok()?.into_iter().nth(1)?;
                    let r = s.entries().err().map(|e| (None, format!("{:?}", e.kind())));
                    r
                }
                _ => {
                    let s = backup.snapshots().ok()?.into_iter().nth(1)?;
                    let r = match s.manifest() {
                        Ok(_) => None,
                        Err(ParseError::Io(e)) => Some((None, format!("{:?}", e.kind()))),
                        Err(e) => Some((None, format!("{:?}", e))),
                    };
                    r
                }
            }
        };
        sys::fail_call(1 << 40, 0);
        if what < 3 {
            once();
        } else {
            // what has been read is not read again
            let fresh = Backup::new(LocalBackend::new(&dir)).map_err(|e| e.to_string())?;
            sys::fail_call(1 << 40, 0);
            let s = fresh.snapshots().map_err(|e| e.to_string())?.into_iter().nth(1).ok_or("a snapshot is missing")?;
            if what == 3 { drop(s.entries()) } else { drop(s.manifest()) }
        }
        let calls = sys::calls_done();
        if calls == 0 {
            return Ok(());
        }
        let at = ch.pick(calls as usize) as i64;
        let errno = *ch.of(&errnos);
        ch.state(&(what, at, errno));
        ch.faults(1);
        ch.note(|| format!("operation {}, call {} of {} fails with error {}", what, at, calls, errno));
        sys::fail_call(at, errno);
        let r = once();
        sys::calls_done();
        ch.outcome(&r);
        if let Some((number, kind)) = r {
            ch.nontrivial();
            if let Some(number) = number {
                ensure_eq!(number, Some(errno), "error number of operation {} when call {} of {} failed with {}", what, at, calls, errno);
            }
            ensure_eq!(kind, format!("{:?}", io::Error::from_raw_os_error(errno).kind()), "kind of the error of operation {} when call {} of {} failed with {}", what, at, calls, errno);
        }
        Ok(())
    });
    // what is really there, or not
    symlink("round", dir.join("round")).unwrap();
    symlink("nowhere", dir.join("astray")).unwrap();
    symlink("closed", dir.join("to closed")).unwrap();
    fs::create_dir(dir.join("sub")).unwrap();
    fs::create_dir(dir.join("locked")).unwrap();
    fs::write(dir.join("locked/inner"), b"inner").unwrap();
    fs::write(dir.join("closed"), b"secret").unwrap();
    fs::set_permissions(dir.join("closed"), fs::Permissions::from_mode(0)).unwrap();
    fs::set_permissions(dir.join("locked"), fs::Permissions::from_mode(0)).unwrap();
    let man = repo.snaps[0].man_name.clone();
    let long = "n".repeat(300);
    // name, what opening and reading it gives, what using it as the base of a backup gives
    let there: Vec<(&str, i32, i32)> = vec![
        ("round", libc::ELOOP, libc::ELOOP), ("astray", libc::ENOENT, libc::ENOENT), ("sub", libc::EISDIR, 0), ("no such", libc::ENOENT, libc::ENOENT), ("no/such/dir", libc::ENOENT, libc::ENOENT),
        (&long, libc::ENAMETOOLONG, libc::ENAMETOOLONG), (&man, 0, libc::ENOTDIR), ("closed", libc::EACCES, libc::ENOTDIR), ("to closed", libc::EACCES, libc::ENOTDIR), ("locked", libc::EACCES, libc::EACCES), ("locked/inner", libc::EACCES, libc::EACCES),
        ("", libc::EISDIR, 0),
    ];
    c.explore("odd_files", &format!("{} names of files, directories and links that are missing, in a circle, too long, closed to the user or of the wrong kind, opened, listed and used as a backup: the error carries the system's number", there.len()), Opt::default(), &|ch| {
        let (name, open, base) = *ch.of(&there);
        let what = ch.pick(3);
        ch.state(&(name, what));
        let p = dir.join(name);
        let f = || -> Option<io::Error> {
            match what {
                0 => LocalBackend::new(&dir).open_file(Path::new(name)).and_then(|mut f| { let mut v = vec![]; f.read_to_end(&mut v) }).err(),
                1 => LocalBackend::new(&p).file_names().err(),
                _ => Backup::new(LocalBackend::new(&p)).err(),
            }
        };
        let want = if what == 0 { open } else { base };
        let got = if open == libc::EACCES && want != libc::ENOTDIR {
            // the superuser is never refused
            match as_nobody(&dir.join("closed"), f) {
                Some(r) => r,
                None => return Ok(()),
            }
        } else {
            f()
        };
        ch.nontrivial();
        ch.outcome(&got.as_ref().map(|e| e.raw_os_error()));
        ensure_eq!(got.as_ref().map(|e| e.raw_os_error()), if want == 0 { None } else { Some(Some(want)) }, "{} {:?}: error number", ["opening", "listing", "a backup in"][what], name);
        if let Some(e) = got {
            io_why(&e)?;
        }
        Ok(())
    });
    let _ = fs::set_permissions(dir.join("locked"), fs::Permissions::from_mode(0o700));
    for n in ["round", "astray", "to closed", "closed", "locked/inner"] {
        let _ = fs::remove_file(dir.join(n));
    }
    for n in ["sub", "locked"] {
        let _ = fs::remove_dir(dir.join(n));
    }
    drop(root);
    // manifests: the first problem is named
    let pool: Vec<&[u8]> = vec![
        b"Hostname h", b"Localdir /d", b"Volume 1:", b"Volume 2:", b"Volume 3:", b"Volume x:", b"Volume 18446744073709551616:", b"    StartingPath a", b"    StartingPath   a 7", b"    StartingPath", b"    StartingPath a seven", b"    EndingPath b",
        b"    EndingPath b -1", b"    EndingPath", b"    Hash SHA1 0a0b", b"    Hash SHA1", b"    Hash", b"", b"Unknown words", b"\xff\xfe x", b"hash SHA1 00",
    ];
    let good: Vec<&[u8]> = vec![b"Hostname h", b"Localdir /d", b"Volume 1:", b"    StartingPath a", b"    EndingPath b 3", b"    Hash SHA1 0a0b", b"Volume 2:", b"    StartingPath b 4", b"    EndingPath c", b"    Hash SHA1 0c0d"];
    let put = c.by_tier(3, 4);
    c.explore("manifest_lines", &format!("a manifest of two volumes with up to {} lines of {} shapes put at each place instead of none, one, two, four or all of the lines there: the first problem is the error", put, pool.len()), Opt::default(), &|ch| {
        let p = ch.pick(good.len() + 1);
        let mut lines: Vec<&[u8]> = good[..p].to_vec();
        let n = ch.pick(put + 1);
        for _ in 0..n {
            lines.push(*ch.of(&pool));
        }
        let rest = good.len() - p;
        let lost = if n == put && put > 2 { *ch.of(&[0usize, 1, rest]) } else { *ch.of(&[0usize, 1, 2, 4, rest]) };
        lines.extend(&good[(p + lost.min(rest)).min(good.len())..]);
        let text = [lines.join(&b'\n'), b"\n".to_vec()].concat();
        ch.state(&text);
        ch.note(|| String::from_utf8_lossy(&text).into_owned());
        let r = judge(&text)?;
        if r.is_some() {
            ch.nontrivial();
        }
        ch.outcome(&r);
        Ok(())
    });
    // and in long manifests
    let sizes = c.by_tier(vec![1usize, 2, 3, 9, 10, 11, 99, 100, 255, 256, 257, 1000, 1025], vec![1, 2, 3, 9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65_537]);
    c.explore("long_manifests", &format!("manifests of {:?} volumes cut after, or with one line of one volume replaced by, {} shapes: near the first, middle and last volume", sizes, pool.len() + 1), Opt::default(), &|ch| {
        let n = *ch.of(&sizes);
        let v = [0, 1, n / 2, n.saturating_sub(2), n - 1][ch.pick(5)].min(n - 1);
        let line = ch.pick(4);
        let shape = ch.pick(pool.len() + 1);
        let mut lines: Vec<Vec<u8>> = vec![b"Hostname h".to_vec(), b"Localdir /".to_vec()];
        for i in 1..=n {
            lines.extend([format!("Volume {}:", i).into_bytes(), b"  StartingPath a".to_vec(), b"  EndingPath b 3".to_vec(), b"  Hash SHA1 00".to_vec()]);
        }
        let k = 2 + 4 * v + line;
        if shape == pool.len() {
            lines.truncate(k);
        } else {
            lines[k] = pool[shape].to_vec();
        }
        let text = [lines.join(&b'\n'), b"\n".to_vec()].concat();
        ch.state(&(n, k, shape));
        let r = judge(&text).map_err(|e| format!("{:.600} (line {} of {} volumes)", e, k, n))?;
        if r.is_some() {
            ch.nontrivial();
        }
        ch.outcome(&(n, r));
        Ok(())
    });
}

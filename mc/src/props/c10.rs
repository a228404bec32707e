//! C10: backend failures are reported, and a retry succeeds.
use super::c09::{repo, tree};
use crate::engine::*;
use crate::world::*;
use ruplicity::{Backup, Snapshot};
use std::io::ErrorKind;

const KINDS: [ErrorKind; 8] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::NotFound, ErrorKind::Interrupted, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WouldBlock];
/// Every other kind of error the standard library knows.
const OTHER_KINDS: [ErrorKind; 28] = [
    ErrorKind::ConnectionReset, ErrorKind::ConnectionRefused, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown, ErrorKind::NotADirectory, ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Entries(usize),
    Manifest(usize),
}

/// What one run of the program did.
#[derive(Default)]
struct Ran {
    calls: u64,
    /// (operation or None for opening, faults fired during it, error text if it failed)
    log: Vec<(Option<Op>, u64, Option<String>)>,
}

fn one(s: &Snapshot, i: usize, op: Op, r: &Repo) -> Result<Option<String>, String> {
    let w = &r.snaps[i];
    match op {
        Op::Entries(_) => match s.entries() {
            Ok(e) => {
                check_listing(e.as_signature(), &w.tree, &format!("snapshot {}", i))?;
                Ok(None)
            }
            Err(e) => Ok(Some(e.to_string())),
        },
        Op::Manifest(_) => match s.manifest() {
            Ok(m) => {
                check_manifest(&m, &w.man).map_err(|e| format!("manifest of snapshot {}: {}", i, e))?;
                Ok(None)
            }
            Err(e) => Ok(Some(e.to_string())),
        },
    }
}

/// Runs opening and then the program, repeating what fails, on a backend that fails at the given calls.
/// Everything that succeeds must be right; nothing may fail without a fault, so each fault costs one retry at most.
fn run_program(r: &Repo, prog: &[Op], chunk: usize, faults: &[(u64, ErrorKind)]) -> Result<Ran, String> {
    let mem = Mem::new(&r.files);
    {
        let mut e = mem.0.borrow_mut();
        e.chunk = chunk;
        e.fail_at = faults.to_vec();
    }
    let mut ran = Ran::default();
    let fired = || mem.0.borrow().fired;
    let b = loop {
        let f0 = fired();
        match Backup::new(mem.clone()) {
            Ok(b) => {
                ran.log.push((None, fired() - f0, None));
                break b;
            }
            Err(e) => {
                ensure!(fired() > f0, "opening the backup fails although the backend works: {}", e);
                ran.log.push((None, fired() - f0, Some(e.to_string())));
            }
        }
    };
    let snaps: Vec<Snapshot> = b.snapshots().map_err(|e| format!("snapshots(): {}", e))?.into_iter().collect();
    ensure_eq!(snaps.iter().map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect::<Vec<_>>(), r.snaps.iter().map(|s| (s.end, s.full, s.vol_names.len())).collect::<Vec<_>>(), "snapshots");
    for op in prog {
        loop {
            let i = match *op {
                Op::Entries(i) | Op::Manifest(i) => i,
            };
            let f0 = fired();
            let res = one(&snaps[i], i, *op, r).map_err(|e| format!("{:?} with {} fault(s) during it: {}", op, fired() - f0, e))?;
            let n = fired() - f0;
            ran.log.push((Some(*op), n, res.clone()));
            match res {
                None => break,
                Some(e) => ensure!(n > 0, "{:?} fails although the backend works{}: {}", op, if ran.log.len() > 1 { " again" } else { "" }, e),
            }
        }
    }
    // nothing of the failures is left
    for pass in 0..2 {
        for (i, s) in snaps.iter().enumerate() {
            for op in [Op::Entries(i), Op::Manifest(i)] {
                let f0 = fired();
                let res = one(s, i, op, r)?;
                ensure!(res.is_none() || fired() > f0, "{:?} fails at the end: {}", op, res.unwrap());
                let _ = pass;
            }
        }
    }
    ran.calls = mem.0.borrow().calls;
    Ok(ran)
}

fn describe(prog: &[Op], chunk: usize, faults: &[(u64, ErrorKind)]) -> String {
    format!("program {:?}, reads of at most {} bytes, faults at calls {:?}", prog, if chunk == usize::MAX { 0 } else { chunk }, faults)
}

pub fn run(c: &mut Ctx) {
    c.level = "fault_enumeration";
    c.rule = "a fault fired during an operation and was reported by it".into();
    c.assumptions = vec!["a failed call has no effect on the backend; std::io::Read adapters may retry Interrupted by themselves, which the property allows (the answer is then exact)".into()];
    let chunks: Vec<usize> = c.by_tier(vec![usize::MAX, 512, 100], vec![usize::MAX, 1000, 512, 100, 33]);
    let shapes: Vec<Vec<usize>> = c.by_tier(vec![vec![2, 1]], vec![vec![2, 1], vec![3], vec![1, 2], vec![2, 2]]);
    for shape in &shapes {
        let r = repo(shape, 1);
        let n = r.snaps.len();
        let label = shape.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("-");
        let mut programs: Vec<Vec<Op>> = vec![(0..n).flat_map(|i| [Op::Entries(i), Op::Manifest(i)]).collect(), (0..n).rev().flat_map(|i| [Op::Manifest(i), Op::Entries(i)]).collect()];
        for i in 0..n {
            programs.push(vec![Op::Entries(i)]);
            programs.push(vec![Op::Manifest(i)]);
            programs.push(vec![Op::Entries(i), Op::Entries((i + 1) % n), Op::Entries(i)]);
        }
        c.explore(Box::leak(format!("single_{}", label).into_boxed_str()), &format!("every backend call of {} programs over chains of {:?} snapshots failing with each of {} error kinds, for {} read sizes", programs.len(), shape, KINDS.len(), chunks.len()), Opt::default(), &|ch| {
            let prog = ch.of(&programs).clone();
            let chunk = *ch.of(&chunks);
            let n = run_program(&r, &prog, chunk, &[])?.calls;
            let f = vec![(ch.pick(n as usize) as u64, *ch.of(&KINDS))];
            ch.state(&(&prog, chunk, f[0].0));
            go(ch, &r, &prog, chunk, &f)
        });
        let few = &programs[..2];
        c.explore(Box::leak(format!("kinds_{}", label).into_boxed_str()), &format!("every backend call of {} programs failing with each of {} further error kinds", few.len(), OTHER_KINDS.len()), Opt::default(), &|ch| {
            let prog = ch.of(few).clone();
            let chunk = chunks[ch.pick(2)];
            let n = run_program(&r, &prog, chunk, &[])?.calls;
            let f = vec![(ch.pick(n as usize) as u64, *ch.of(&OTHER_KINDS))];
            ch.state(&(&prog, chunk, f[0].0));
            go(ch, &r, &prog, chunk, &f)
        });
        // the same call failing again, or another one later
        let kinds2 = &KINDS[..c.by_tier(2, 4)];
        let chunks2 = &chunks[..c.by_tier(2, 3)];
        let progs2 = &programs[..2];
        c.explore(Box::leak(format!("pairs_{}", label).into_boxed_str()), &format!("every pair of backend calls, counting those of the retries, failing with {} error kinds", kinds2.len()), Opt::default(), &|ch| {
            let prog = ch.of(progs2).clone();
            let chunk = *ch.of(chunks2);
            let n = run_program(&r, &prog, chunk, &[])?.calls;
            let p1 = ch.pick(n as usize) as u64;
            let k1 = *ch.of(kinds2);
            let n1 = run_program(&r, &prog, chunk, &[(p1, k1)])?.calls;
            let p2 = p1 + 1 + ch.pick((n1 - p1 - 1).max(1) as usize) as u64;
            let f = vec![(p1, k1), (p2, *ch.of(kinds2))];
            ch.state(&(&prog, chunk, p1, p2));
            go(ch, &r, &prog, chunk, &f)
        });
        // the backend is down from some call on, for a while
        c.explore(Box::leak(format!("outages_{}", label).into_boxed_str()), "every outage starting at any call and lasting 2 to 12 calls", Opt::default(), &|ch| {
            let prog = ch.of(&programs[..2]).clone();
            let chunk = *ch.of(&chunks);
            let n = run_program(&r, &prog, chunk, &[])?.calls;
            let p = ch.pick(n as usize) as u64;
            let len = 2 + ch.pick(11) as u64;
            let k = *ch.of(&KINDS[..2]);
            let f: Vec<_> = (p..p + len).map(|i| (i, k)).collect();
            ch.state(&(&prog, chunk, p, len));
            go(ch, &r, &prog, chunk, &f)
        });
    }
    // entries of many sizes: a fault at every byte boundary of a plain and a compressed archive
    let step = c.by_tier(5usize, 1);
    c.explore("every_offset", &format!("a read failure before every {}th byte of every stored file (the reads before it cut there)", step), Opt::default(), &|ch| {
        let mut r = Repo::default();
        let gzl = if ch.flag() { Some(6) } else { None };
        for k in 0..2 {
            r.backup(k == 0, at(k), tree(k), 1, &SigStyle { dialect: Dialect::Gnu, gz: gzl });
        }
        let names: Vec<String> = r.snaps.iter().flat_map(|s| [s.sig_name.clone(), s.man_name.clone()]).collect();
        let f = ch.of(&names).clone();
        let len = r.files[&f].len();
        let off = ch.pick(len / step + 1) * step;
        let kind = *ch.of(&KINDS[..4]);
        ch.state(&(gzl, &f, off));
        ch.note(|| format!("{} fails with {:?} at {} of {}", f, kind, off, len));
        let mem = Mem::new(&r.files);
        mem.0.borrow_mut().cuts.insert(f.clone(), vec![off]);
        mem.0.borrow_mut().fail_offset = Some((f.clone(), off, kind));
        let b = Backup::new(mem.clone()).map_err(|e| e.to_string())?;
        let snaps: Vec<Snapshot> = b.snapshots().map_err(|e| e.to_string())?.into_iter().collect();
        let mut failed = 0;
        for (i, s) in snaps.iter().enumerate() {
            for op in [Op::Entries(i), Op::Manifest(i)] {
                for _ in 0..3 {
                    let f0 = mem.0.borrow().fired;
                    match one(s, i, op, &r).map_err(|e| format!("{:?} of a backend failing at byte {} of {} ({:?}): {}", op, off, f, kind, e))? {
                        None => break,
                        Some(e) => {
                            ensure!(mem.0.borrow().fired > f0, "{:?} fails without a failure of the backend: {}", op, e);
                            failed += 1;
                        }
                    }
                }
            }
        }
        if failed > 0 {
            ch.nontrivial();
        }
        ch.outcome(&(gzl, &f, off, failed));
        Ok(())
    });
}

fn go(ch: &mut Ch, r: &Repo, prog: &[Op], chunk: usize, f: &[(u64, ErrorKind)]) -> R {
    ch.note(|| describe(prog, chunk, f));
    for _ in f {
        ch.step();
    }
    let ran = run_program(r, prog, chunk, f).map_err(|e| format!("{}\n  {}", e, describe(prog, chunk, f)))?;
    if ran.log.iter().any(|l| l.2.is_some()) {
        ch.nontrivial();
    }
    ch.faults(f.len() as u64);
    ch.outcome(&ran.log.iter().map(|l| (l.1, l.2.is_some())).collect::<Vec<_>>());
    Ok(())
}

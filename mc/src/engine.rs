//! Stateless bounded-exhaustive explorer.
//!
//! A driver is a closure that takes every decision through `Ch`. `Ctx::explore` executes it once for
//! every possible sequence of decisions (depth first, parallel), each execution starting from fresh
//! objects. Nothing is sampled: the search ends only when no alternative is left.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// Returns an error (a violation of the property being checked) unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Compares two values, describing both in the violation if they differ.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}\n  got:      {:?}\n  expected: {:?}", format!($($t)*), a, b));
        }
    }};
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const SHARDS: usize = 64;
struct ShardSet(Vec<Mutex<HashSet<u64>>>);
impl ShardSet {
    fn new() -> Self {
        ShardSet((0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn insert(&self, h: u64) -> bool {
        self.0[(h >> 58) as usize % SHARDS].lock().unwrap().insert(h)
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

struct Shared {
    states: ShardSet,
    outcomes: ShardSet,
    transitions: AtomicU64,
    execs: AtomicU64,
    faults: AtomicU64,
    nontrivial: AtomicU64,
    max_depth: AtomicUsize,
    diverged: AtomicU64,
}

/// What the watchdog and the crash handlers can see of a running worker.
pub struct Slot {
    property: String,
    harness: &'static str,
    root: PathBuf,
    started: AtomicU64, // ms since process start + 1, 0 when idle
    cpu_started: AtomicU64, // processor time of the worker at that moment, in ms
    clock: std::sync::atomic::AtomicI64, // its processor time clock, i64::MIN if unknown
    choices: Mutex<Vec<u32>>,
}

thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: Cell<bool> = const { Cell::new(false) };
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// The processor time that a thread has used, by its clock.
fn cpu_ms(clock: i64) -> Option<u64> {
    if clock == i64::MIN {
        return None;
    }
    crate::sys::real_clock(clock as libc::clockid_t)
}

/// One execution's source of choices.
pub struct Ch<'a> {
    prefix: Vec<u32>,
    taken: Vec<(u32, u32)>,
    dev_used: u32,
    dev_bound: u32,
    tracing: bool,
    trace: Vec<String>,
    sh: &'a Shared,
    slot: Option<Arc<Slot>>,
    nontrivial: bool,
    lenient: bool,
}

impl<'a> Ch<'a> {
    fn choose(&mut self, n: usize) -> usize {
        let i = self.taken.len();
        let mut c = self.prefix.get(i).copied().unwrap_or(0);
        if c as usize >= n {
            if !self.lenient {
                self.sh.diverged.fetch_add(1, Relaxed);
            }
            c = n as u32 - 1;
        }
        self.taken.push((c, n as u32));
        if let Some(s) = &self.slot {
            s.choices.lock().unwrap().push(c);
        }
        c as usize
    }
    /// Chooses one of `n` alternatives, all of which will be explored.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        self.choose(n)
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.pick(xs.len())]
    }
    /// Chooses an environment answer: 0 is the default, any other answer uses up one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if n == 1 || self.dev_used >= self.dev_bound {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_used += 1;
            self.sh.faults.fetch_add(1, Relaxed);
        }
        c
    }
    pub fn deviations(&self) -> u32 {
        self.dev_used
    }
    /// Records a canonical state of the reference model that this execution went through.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.sh.states.insert(hash_of(t));
    }
    pub fn step(&mut self) {
        self.sh.transitions.fetch_add(1, Relaxed);
    }
    /// Counts faults that the driver injected by itself.
    pub fn faults(&mut self, n: u64) {
        self.sh.faults.fetch_add(n, Relaxed);
    }
    /// Records what the real code was observed to do.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.sh.outcomes.insert(hash_of(t));
    }
    /// Marks this execution as non-trivial by the harness's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    pub fn tracing(&self) -> bool {
        self.tracing
    }
}

struct Work {
    prefix: Arc<Vec<u32>>,
    alt: u32, // next alternative to run; u32::MAX = run the prefix as it is
    n: u32,
}

struct Exec {
    taken: Vec<(u32, u32)>,
    result: R,
    trace: Vec<String>,
}

pub struct HarnessStats {
    pub name: &'static str,
    pub bound: String,
    pub execs: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub faults: u64,
    pub nontrivial: u64,
    pub max_depth: usize,
    pub wall: f64,
    pub samples: Vec<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub harness: &'static str,
    pub choices: Vec<u32>,
    pub msg: String,
    pub trace: Vec<String>,
    pub stable: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Context of one property check.
pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub stats: Vec<HarnessStats>,
    pub violation: Option<Violation>,
    pub known: BTreeMap<String, String>, // key -> what fails
    pub known_hit: Mutex<BTreeMap<String, u64>>,
    pub replay: Option<(String, Vec<u32>)>,
    pub only: Option<String>,
    start: Instant,
}

pub struct Opt {
    pub dev_bound: u32,
    pub threads: usize,
    /// do not print or keep the statistics
    pub quiet: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { dev_bound: 0, threads: 0, quiet: false }
    }
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CATCHING.with(|c| c.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
        } else {
            default(info)
        }
    }));
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The start and the end of a text too long to print.
fn clip(s: &str) -> std::borrow::Cow<'_, str> {
    const MAX: usize = 3000;
    if s.len() <= 2 * MAX {
        return s.into();
    }
    let (mut a, mut b) = (MAX, s.len() - MAX);
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{} [... {} bytes ...] {}", &s[..a], b - a, &s[b..]).into()
}

fn write_replay(root: &std::path::Path, property: &str, harness: &str, choices: &[u32], msg: &str, trace: &[String], stable: bool) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", property, harness));
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let tr: Vec<String> = trace.iter().map(|t| json_str(&clip(t))).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"harness\": {},\n \"choices\": [{}],\n \"deterministic\": {},\n \"violation\": {},\n \"scenario\": [\n  {}\n ],\n \"rerun\": {}\n}}\n",
        json_str(property), json_str(harness), ch.join(","), stable, json_str(&clip(msg)), tr.join(",\n  "),
        json_str(&format!("./check.sh {} --replay replays/{}-{}.json", property, property, harness)));
    let _ = std::fs::write(&path, text);
    path
}

/// Ends the process reporting a violation from a place where unwinding is impossible.
pub fn fatal_violation(why: &str) -> ! {
    crate::sys::disarm_alloc_limit();
    let slot = SLOT.with(|s| s.try_borrow().ok().and_then(|s| s.clone()));
    if let Some(s) = slot {
        fatal_for(&s, why)
    }
    eprintln!("fatal: {}", why);
    unsafe { libc::_exit(3) }
}

fn fatal_for(s: &Slot, why: &str) -> ! {
    let choices = match s.choices.try_lock() {
        Ok(c) => c.clone(),
        Err(_) => Vec::new(),
    };
    let p = write_replay(&s.root, &s.property, s.harness, &choices, why, &[], true);
    println!("{}: {}", s.harness, why);
    println!("VIOLATION property={} replay={}", s.property, p.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

extern "C" fn on_signal(sig: libc::c_int) {
    fatal_violation(match sig {
        libc::SIGABRT => "the process aborted (SIGABRT)",
        libc::SIGSEGV => "memory fault or stack overflow (SIGSEGV)",
        libc::SIGBUS => "memory fault (SIGBUS)",
        libc::SIGFPE => "arithmetic fault (SIGFPE)",
        _ => "fatal signal",
    });
}

pub fn install_signal_handlers() {
    unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

// an execution takes seconds at most; a busy machine makes it longer by the clock on the wall only
const HANG_CPU_MS: u64 = 150_000;
const HANG_MS: u64 = 420_000;

impl Ctx {
    pub fn new(property: &str, tier: Tier, seed: u64, root: PathBuf) -> Self {
        Ctx {
            property: property.into(), tier, seed, root, level: "model_checking", rule: String::new(),
            assumptions: vec![], stats: vec![], violation: None, known: BTreeMap::new(),
            known_hit: Mutex::new(BTreeMap::new()), replay: None, only: None, start: Instant::now(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Picks the bound for the current tier.
    pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    fn exec(&self, f: &(dyn Fn(&mut Ch) -> R + Sync), sh: &Shared, slot: &Option<Arc<Slot>>, prefix: Vec<u32>, dev_bound: u32, tracing: bool, lenient: bool) -> Exec {
        let mut ch = Ch { prefix, taken: Vec::new(), dev_used: 0, dev_bound, tracing, trace: vec![], sh, slot: slot.clone(), nontrivial: false, lenient };
        if let Some(s) = slot {
            s.choices.lock().unwrap().clear();
            s.cpu_started.store(cpu_ms(s.clock.load(SeqCst)).unwrap_or(0), SeqCst);
            s.started.store(now_ms(), SeqCst);
        }
        CATCHING.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
        CATCHING.with(|c| c.set(false));
        crate::sys::reset_thread();
        if let Some(s) = slot {
            s.started.store(0, SeqCst);
        }
        let result = match r {
            Ok(r) => r,
            Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
        };
        if ch.nontrivial {
            sh.nontrivial.fetch_add(1, Relaxed);
        }
        Exec { taken: ch.taken, result, trace: ch.trace }
    }

    /// Explores every choice sequence of `f`.
    pub fn explore(&mut self, name: &'static str, bound: &str, opt: Opt, f: &(dyn Fn(&mut Ch) -> R + Sync)) {
        if self.violation.is_some() {
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let longest = AtomicU64::new(0);
        let sh = Shared {
            states: ShardSet::new(), outcomes: ShardSet::new(), transitions: AtomicU64::new(0), execs: AtomicU64::new(0),
            faults: AtomicU64::new(0), nontrivial: AtomicU64::new(0), max_depth: AtomicUsize::new(0), diverged: AtomicU64::new(0),
        };
        if let Some((h, choices)) = &self.replay {
            if h == name {
                let e = self.exec(f, &sh, &None, choices.clone(), u32::MAX, true, false);
                for t in &e.trace {
                    println!("  {}", clip(t));
                }
                match e.result {
                    Ok(()) => println!("replay of {}: no violation", name),
                    Err(m) => {
                        println!("replay of {}: {}", name, clip(&m));
                        self.violation = Some(Violation { harness: name, choices: choices.clone(), msg: m, trace: e.trace, stable: true });
                    }
                }
            }
            return;
        }
        let t = Instant::now();
        let threads = if opt.threads > 0 { opt.threads } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
        let queue: Mutex<(Vec<Work>, usize)> = Mutex::new((vec![Work { prefix: Arc::new(vec![]), alt: u32::MAX, n: 0 }], 0));
        let cv = Condvar::new();
        let idle = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
        let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot {
            property: self.property.clone(), harness: name, root: self.root.clone(), started: AtomicU64::new(0), cpu_started: AtomicU64::new(0), clock: i64::MIN.into(), choices: Mutex::new(vec![]),
        })).collect();
        let done = AtomicBool::new(false);
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let this = &*self;
        std::thread::scope(|sc| {
            let wd_slots = slots.clone();
            let done_ref = &done;
            sc.spawn(move || loop {
                for _ in 0..20 {
                    std::thread::sleep(Duration::from_millis(if done_ref.load(SeqCst) { 0 } else { 5 }));
                    if done_ref.load(SeqCst) {
                        return;
                    }
                }
                let now = now_ms();
                for s in &wd_slots {
                    let st = s.started.load(SeqCst);
                    let cpu = if st != 0 && now > st + HANG_CPU_MS { cpu_ms(s.clock.load(SeqCst)).map_or(0, |c| c.saturating_sub(s.cpu_started.load(SeqCst))) } else { 0 };
                    if st != 0 && s.started.load(SeqCst) == st && (cpu > HANG_CPU_MS || now > st + HANG_MS) {
                        fatal_for(s, "no termination: one execution is still running after two and a half minutes of processor time");
                    }
                }
            });
            let workers: Vec<_> = (0..threads).map(|w| {
                let (queue, cv, idle, stop, found, sh, samples, longest) = (&queue, &cv, &idle, &stop, &found, &sh, &samples, &longest);
                let slot = Some(slots[w].clone());
                sc.spawn(move || {
                    SLOT.with(|s| *s.borrow_mut() = slot.clone());
                    if let Some(s) = &slot {
                        unsafe {
                            let mut id: libc::clockid_t = 0;
                            if libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) == 0 {
                                s.clock.store(id as i64, SeqCst);
                            }
                        }
                    }
                    crate::sys::alt_stack();
                    let mut local: Vec<Work> = Vec::new();
                    loop {
                        let mut item = match local.pop() {
                            Some(i) => i,
                            None => {
                                let mut q = queue.lock().unwrap();
                                q.1 += 1;
                                idle.store(q.1, SeqCst);
                                loop {
                                    if stop.load(SeqCst) {
                                        q.1 += threads;
                                        cv.notify_all();
                                        return;
                                    }
                                    if let Some(i) = q.0.pop() {
                                        q.1 -= 1;
                                        idle.store(q.1, SeqCst);
                                        break i;
                                    }
                                    if q.1 >= threads {
                                        cv.notify_all();
                                        return;
                                    }
                                    q = cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                                }
                            }
                        };
                        if stop.load(SeqCst) {
                            queue.lock().unwrap().1 += threads;
                            cv.notify_all();
                            return;
                        }
                        let mut prefix: Vec<u32> = item.prefix.to_vec();
                        if item.alt != u32::MAX {
                            prefix.push(item.alt);
                            item.alt += 1;
                            if item.alt < item.n {
                                // share the upper half of a wide range
                                if idle.load(Relaxed) > 0 && item.n - item.alt > 1 {
                                    let mid = item.alt + (item.n - item.alt) / 2;
                                    local.push(Work { prefix: item.prefix.clone(), alt: mid, n: item.n });
                                    item.n = mid;
                                }
                                local.push(item);
                            }
                        }
                        let base = prefix.len();
                        let n_exec = sh.execs.fetch_add(1, Relaxed);
                        let tracing = n_exec < 1 || n_exec == 17 || n_exec == 4099;
                        let t_exec = Instant::now();
                        let e = this.exec(f, sh, &slot, prefix, opt.dev_bound, tracing, false);
                        longest.fetch_max(t_exec.elapsed().as_millis() as u64, Relaxed);
                        if tracing {
                            samples.lock().unwrap().push(format!("{}: choices {:?}: {}", name, e.taken.iter().map(|x| x.0).collect::<Vec<_>>(), e.trace.join("; ")));
                        }
                        sh.transitions.fetch_add(e.taken.len() as u64 - (base as u64).min(e.taken.len() as u64).saturating_sub(1), Relaxed);
                        sh.max_depth.fetch_max(e.taken.len(), Relaxed);
                        if let Err(m) = e.result {
                            if let Some(k) = this.known.keys().find(|k| m.contains(k.as_str())) {
                                *this.known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
                            } else {
                                let mut fd = found.lock().unwrap();
                                let ch: Vec<u32> = e.taken.iter().map(|x| x.0).collect();
                                if fd.as_ref().map_or(true, |(c, _)| ch.len() < c.len()) {
                                    *fd = Some((ch, m));
                                }
                                stop.store(true, SeqCst);
                                continue;
                            }
                        }
                        let all: Vec<u32> = e.taken.iter().map(|x| x.0).collect();
                        for i in base..e.taken.len() {
                            let n = e.taken[i].1;
                            if n > 1 {
                                local.push(Work { prefix: Arc::new(all[..i].to_vec()), alt: 1, n });
                            }
                        }
                        if idle.load(Relaxed) > 0 && local.len() > 1 {
                            let give = local.len() / 2;
                            let mut q = queue.lock().unwrap();
                            q.0.extend(local.drain(..give));
                            drop(q);
                            cv.notify_all();
                        }
                    }
                })
            }).collect();
            for w in workers {
                if w.join().is_err() {
                    eprintln!("harness error: worker died");
                    unsafe { libc::_exit(2) }
                }
            }
            done.store(true, SeqCst);
        });
        let found = found.into_inner().unwrap();
        if let Some((choices, msg)) = found {
            let mut best = (choices, msg);
            let mut budget = 4000;
            let t_shrink = Instant::now();
            loop {
                let mut improved = false;
                let try_one = |cand: Vec<u32>| -> Option<(Vec<u32>, String)> {
                    let e = self.exec(f, &sh, &None, cand, opt.dev_bound, false, true);
                    match e.result {
                        Err(m) if !self.known.keys().any(|k| m.contains(k.as_str())) => {
                            let mut c: Vec<u32> = e.taken.iter().map(|x| x.0).collect();
                            while c.last() == Some(&0) {
                                c.pop();
                            }
                            Some((c, m))
                        }
                        _ => None,
                    }
                };
                while best.0.last() == Some(&0) {
                    best.0.pop();
                }
                'outer: for i in 0..best.0.len() {
                    if best.0[i] == 0 {
                        continue;
                    }
                    for v in [0, best.0[i] / 2, best.0[i] - 1] {
                        if budget == 0 || t_shrink.elapsed().as_secs() > 20 {
                            break 'outer;
                        }
                        budget -= 1;
                        let mut c = best.0.clone();
                        c[i] = v;
                        if let Some((c2, m2)) = try_one(c) {
                            if c2 < best.0 {
                                best = (c2, m2);
                                improved = true;
                                break 'outer;
                            }
                        }
                    }
                }
                if !improved || budget == 0 {
                    break;
                }
            }
            let a = self.exec(f, &sh, &None, best.0.clone(), opt.dev_bound, true, true);
            let b = self.exec(f, &sh, &None, best.0.clone(), opt.dev_bound, false, true);
            let stable = a.result.is_err() && a.result == b.result;
            self.violation = Some(Violation { harness: name, choices: best.0, msg: best.1, trace: a.trace, stable });
        } else if sh.diverged.load(SeqCst) > 0 {
            eprintln!("harness error: {}: replaying a prefix diverged {} times", name, sh.diverged.load(SeqCst));
            unsafe { libc::_exit(2) }
        }
        let mut samples = samples.into_inner().unwrap();
        for s in &mut samples {
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
        }
        if opt.quiet {
            return;
        }
        self.stats.push(HarnessStats {
            name, bound: bound.into(), execs: sh.execs.load(SeqCst), transitions: sh.transitions.load(SeqCst), states: sh.states.len(),
            outcomes: sh.outcomes.len(), faults: sh.faults.load(SeqCst), nontrivial: sh.nontrivial.load(SeqCst),
            max_depth: sh.max_depth.load(SeqCst), wall: t.elapsed().as_secs_f64(), samples,
        });
        let s = self.stats.last().unwrap();
        println!("{:<28} execs {:>9}  transitions {:>9}  states {:>8}  outcomes {:>8}  faults {:>7}  depth {:>3}  {:.1}s", s.name, s.execs, s.transitions, s.states, s.outcomes, s.faults, s.max_depth, s.wall);
        if longest.load(Relaxed) > 3000 {
            println!("  the longest execution took {} ms", longest.load(Relaxed));
        }
    }

    /// Adds the counts of a search that is not run by `explore` (explicit-state search).
    pub fn add_stats(&mut self, s: HarnessStats) {
        println!("{:<28} execs {:>9}  transitions {:>9}  states {:>8}  outcomes {:>8}  {:.1}s", s.name, s.execs, s.transitions, s.states, s.outcomes, s.wall);
        self.stats.push(s);
    }

    pub fn finish(self) -> i32 {
        if let Some((h, _)) = &self.replay {
            return match &self.violation {
                Some(_) => {
                    println!("VIOLATION property={} replay={}", self.property, h);
                    1
                }
                None => 0,
            };
        }
        let sum = |g: fn(&HarnessStats) -> u64| self.stats.iter().map(g).sum::<u64>();
        let samples: Vec<String> = self.stats.iter().flat_map(|s| s.samples.iter().take(2)).map(|s| json_str(s)).collect();
        let per: Vec<String> = self.stats.iter().map(|s| format!(
            "{{\"harness\": {}, \"bound\": {}, \"executions\": {}, \"choice_transitions\": {}, \"distinct_model_states\": {}, \"distinct_outcomes\": {}, \"faults_injected\": {}, \"nontrivial_executions\": {}, \"max_choice_depth\": {}, \"wall_s\": {:.2}}}",
            json_str(s.name), json_str(&s.bound), s.execs, s.transitions, s.states, s.outcomes, s.faults, s.nontrivial, s.max_depth, s.wall)).collect();
        let common = format!("\"samples\": [{}], \"harnesses\": [{}], \"exhaustive\": {}, \"rule\": {}",
            samples.join(", "), per.join(", "), self.violation.is_none() && self.only.is_none(), json_str(&self.rule));
        let cov = match self.level {
            "fault_enumeration" | "exploration" => format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"states\": {}, \"transitions\": {}, \"faults_injected\": {}, {}}}",
                sum(|s| s.execs), sum(|s| s.nontrivial), sum(|s| s.states), sum(|s| s.transitions), sum(|s| s.faults), common),
            _ => format!("{{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {}, {}}}",
                sum(|s| s.states), sum(|s| s.transitions), sum(|s| s.execs), sum(|s| s.outcomes), common),
        };
        let ev = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json_str(&self.property), json_str(match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" }), self.seed, json_str(self.level), cov,
            self.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "), self.start.elapsed().as_secs_f64(), self.violation.is_some() as u32);
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.property)), ev) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
        for (k, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({} executions)", self.property, self.known[k], n);
        }
        match &self.violation {
            Some(v) => {
                println!("{}: {}", v.harness, clip(&v.msg));
                for t in v.trace.iter().take(60) {
                    println!("  {}", clip(t));
                }
                let p = write_replay(&self.root, &self.property, v.harness, &v.choices, &v.msg, &v.trace, v.stable);
                println!("VIOLATION property={} replay={}", self.property, p.display());
                1
            }
            None => {
                if sum(|s| s.execs) == 0 {
                    eprintln!("nothing was explored");
                    return 2;
                }
                println!("{}: held on {} executions", self.property, sum(|s| s.execs));
                0
            }
        }
    }
}

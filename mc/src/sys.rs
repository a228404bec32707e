//! Interposed libc functions and the allocator guard: the sources of nondeterminism and of unbounded
//! resource use that the harness owns.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, Ordering::*};

thread_local! {
    static FAKE_NOW: Cell<i64> = const { Cell::new(i64::MIN) };
    static READDIR_FAIL: Cell<i64> = const { Cell::new(-1) };
    static READDIR_CALLS: Cell<u64> = const { Cell::new(0) };
    static READDIR_FIRED: Cell<bool> = const { Cell::new(false) };
    static CALL_FAIL: Cell<(i64, i32)> = const { Cell::new((-1, 0)) };
    static CALLS: Cell<i64> = const { Cell::new(-1) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static SINGLE_LIMIT: Cell<usize> = const { Cell::new(1 << 30) };
}

/// Sets what the wall clock says to this thread (seconds since the epoch).
pub fn set_now(sec: i64) {
    FAKE_NOW.with(|c| c.set(sec));
}

/// Makes the n-th (from 0) directory read of this thread fail with EIO; -1 for none.
pub fn fail_readdir(n: i64) {
    READDIR_FAIL.with(|c| c.set(n));
    READDIR_CALLS.with(|c| c.set(0));
    READDIR_FIRED.with(|c| c.set(false));
}
pub fn readdir_fired() -> bool {
    READDIR_FIRED.with(|c| c.get())
}
pub fn readdir_calls() -> u64 {
    READDIR_CALLS.with(|c| c.get())
}

pub fn reset_thread() {
    FAKE_NOW.with(|c| c.set(i64::MIN));
    READDIR_FAIL.with(|c| c.set(-1));
    SINGLE_LIMIT.with(|c| c.set(1 << 30));
    CALLS.with(|c| c.set(-1));
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let f = FAKE_NOW.with(|c| c.get());
        if f != i64::MIN {
            (*ts).tv_sec = f as libc::time_t;
            (*ts).tv_nsec = 0;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Counts the calls of this thread that open or read directories and files, and makes the n-th (from 0; -1 for
/// none) fail with an error number (0: a read gives one byte only).
pub fn fail_call(n: i64, errno: i32) {
    CALL_FAIL.with(|c| c.set((n, errno)));
    CALLS.with(|c| c.set(0));
}
/// Ends what `fail_call` began; how many calls there were.
pub fn calls_done() -> i64 {
    CALL_FAIL.with(|c| c.set((-1, 0)));
    CALLS.with(|c| c.replace(-1))
}
/// The fault to place at this call, if any.
fn call() -> Option<i32> {
    CALLS.try_with(|c| {
        let n = c.get();
        if n < 0 {
            return None;
        }
        c.set(n + 1);
        let (k, e) = CALL_FAIL.with(|c| c.get());
        if k == n { Some(e) } else { None }
    }).unwrap_or(None)
}
unsafe fn real(slot: &AtomicPtr<libc::c_void>, name: &[u8]) -> *mut libc::c_void {
    let mut p = slot.load(Acquire);
    if p.is_null() {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _);
        slot.store(p, Release);
    }
    p
}

static REAL_OPEN: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if let Some(e) = call() {
        if e != 0 {
            *libc::__errno_location() = e;
            return -1;
        }
    }
    let f: unsafe extern "C" fn(*const libc::c_char, libc::c_int, libc::mode_t) -> libc::c_int = std::mem::transmute(real(&REAL_OPEN, b"open64\0"));
    f(path, flags, mode)
}

static REAL_OPENDIR: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const libc::c_char) -> *mut libc::DIR {
    if let Some(e) = call() {
        if e != 0 {
            *libc::__errno_location() = e;
            return std::ptr::null_mut();
        }
    }
    let f: unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR = std::mem::transmute(real(&REAL_OPENDIR, b"opendir\0"));
    f(path)
}

static REAL_READ: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, mut n: libc::size_t) -> libc::ssize_t {
    if let Some(e) = call() {
        if e != 0 {
            *libc::__errno_location() = e;
            return -1;
        }
        n = n.min(1);
    }
    let f: unsafe extern "C" fn(libc::c_int, *mut libc::c_void, libc::size_t) -> libc::ssize_t = std::mem::transmute(real(&REAL_READ, b"read\0"));
    f(fd, buf, n)
}

static REAL_READDIR: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    let mut p = REAL_READDIR.load(Acquire);
    if p.is_null() {
        p = libc::dlsym(libc::RTLD_NEXT, b"readdir64\0".as_ptr() as *const _);
        REAL_READDIR.store(p, Release);
    }
    if let Some(e) = call() {
        if e != 0 {
            *libc::__errno_location() = e;
            return std::ptr::null_mut();
        }
    }
    let n = READDIR_CALLS.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    });
    let fail = READDIR_FAIL.with(|c| c.get());
    if fail >= 0 && n == fail as u64 {
        READDIR_FIRED.with(|c| c.set(true));
        *libc::__errno_location() = libc::EIO;
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(p);
    f(dir)
}

extern "C" {
    fn tzset();
}
/// Sets the process time zone (only while no other thread is running drivers).
pub fn set_tz(tz: &str) {
    std::env::set_var("TZ", tz);
    unsafe { tzset() }
}

pub fn alt_stack() {
    unsafe {
        let size = 256 * 1024;
        let mem = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: mem, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&ss, std::ptr::null_mut());
    }
}

/// Counts live and peak bytes per thread, and stops the run when one request is out of all proportion.
pub struct Guard;

pub fn set_single_limit(n: usize) {
    SINGLE_LIMIT.with(|c| c.set(n));
}
pub fn disarm_alloc_limit() {
    SINGLE_LIMIT.with(|c| c.set(usize::MAX));
}
/// Starts a measurement of peak memory on this thread.
pub fn mem_start() -> isize {
    let l = LIVE.with(|c| c.get());
    PEAK.with(|c| c.set(l));
    l
}
/// Bytes by which this thread's live memory exceeded `start` at most since `mem_start`.
pub fn mem_peak(start: isize) -> usize {
    (PEAK.with(|c| c.get()) - start).max(0) as usize
}

#[inline]
fn account(d: isize) {
    LIVE.with(|l| {
        let v = l.get() + d;
        l.set(v);
        if d > 0 {
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}
#[inline]
fn guard(size: usize) {
    if size > SINGLE_LIMIT.with(|c| c.get()) {
        crate::engine::fatal_violation(&format!("a single allocation of {} bytes was requested", size));
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        guard(l.size());
        account(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        guard(n);
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// A clock, in milliseconds.
pub fn real_clock(clk: libc::clockid_t) -> Option<u64> {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::syscall(libc::SYS_clock_gettime, clk, &mut ts) == 0 { Some(ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000) } else { None }
    }
}

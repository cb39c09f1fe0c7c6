//! Containment of cases that crash, loop or allocate without bound.
//!
//! * Every thread publishes the tape of the case it runs in a static slot.
//! * A signal handler writes the slot to a file and ends the process with `EXIT_CRASH`.
//! * The global allocator counts the bytes that a case allocates; above a budget that is far
//!   beyond any correct run, the process ends with `EXIT_ALLOC`.
//! * `tick` counts calls from the code under test back into the harness; above a budget that is
//!   far beyond any correct run, it panics, which makes endless work a deterministic failure.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_CRASH: i32 = 78;
pub const EXIT_HANG: i32 = 79;
pub const MAX_THREADS: usize = 16;
const MAX_TAPE: usize = 4096;

pub struct Slot {
    pub arm: AtomicU32,
    pub len: AtomicUsize,
    pub data: [AtomicU32; MAX_TAPE],
    /// Case number, for the watchdog.
    pub serial: AtomicU64,
    /// The thread's processor time clock and its value at the beginning of the case.
    pub clock: AtomicI32,
    pub since: AtomicU64,
}

fn read_clock(clock: i32) -> Option<u64> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(clock as libc::clockid_t, &mut t) };
    (r == 0).then(|| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}

/// Processor time, in seconds, that the case running in the slot has used.
pub fn case_seconds(slot: usize) -> u64 {
    let s = &SLOTS[slot];
    let serial = s.serial.load(Relaxed);
    if serial % 2 == 0 {
        return 0;
    }
    let used = read_clock(s.clock.load(Relaxed)).map_or(0, |now| now.saturating_sub(s.since.load(Relaxed)));
    if s.serial.load(Relaxed) != serial {
        return 0;
    }
    used / 1_000_000_000
}

/// Limits the processor time of this process.
pub fn limit_cpu(seconds: u64) {
    let limit = libc::rlimit { rlim_cur: seconds, rlim_max: seconds + 1 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_CPU, &limit);
    }
}

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot {
    arm: AtomicU32::new(0),
    len: AtomicUsize::new(0),
    data: [ZERO; MAX_TAPE],
    serial: AtomicU64::new(0),
    clock: AtomicI32::new(0),
    since: AtomicU64::new(0),
};
pub static SLOTS: [Slot; MAX_THREADS] = [EMPTY; MAX_THREADS];
static CRASH_FD: AtomicI32 = AtomicI32::new(-1);

const ALLOC_BUDGET: u64 = 3 << 30;
const TICK_BUDGET: u64 = 20_000_000;

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static ALLOCATED: Cell<u64> = const { Cell::new(0) };
    static ALLOC_LIMIT: Cell<u64> = const { Cell::new(ALLOC_BUDGET) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static TICK_LIMIT: Cell<u64> = const { Cell::new(TICK_BUDGET) };
}

/// Counts one step of work caused by the code under test.
#[inline]
pub fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > TICK_LIMIT.with(|l| l.get()) {
            t.set(0);
            panic!("work budget exceeded: the operation does not end");
        }
    });
}

/// Sets the budget for the rest of the case.
pub fn set_tick_budget(n: u64) {
    TICKS.with(|t| t.set(0));
    TICK_LIMIT.with(|l| l.set(n));
}

/// The current case may use this much more processor time.
pub fn grant_seconds(n: u64) {
    let slot = SLOT.with(|c| c.get());
    if slot != usize::MAX {
        SLOTS[slot].since.fetch_add(n * 1_000_000_000, Relaxed);
    }
}

/// A case of this thread may allocate this much in all.
pub fn set_alloc_budget(n: u64) {
    ALLOC_LIMIT.with(|l| l.set(n));
}

pub fn begin_case(slot: usize, arm: u32, tape: &[u32]) {
    let s = &SLOTS[slot];
    SLOT.with(|c| c.set(slot));
    ALLOCATED.with(|c| c.set(0));
    ALLOC_LIMIT.with(|l| l.set(ALLOC_BUDGET));
    set_tick_budget(TICK_BUDGET);
    s.arm.store(arm, Relaxed);
    let len = tape.len().min(MAX_TAPE);
    for (dst, &src) in s.data.iter().zip(tape) {
        dst.store(src, Relaxed);
    }
    s.len.store(len, Relaxed);
    unsafe {
        let mut clock: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock);
        s.clock.store(clock as i32, Relaxed);
        s.since.store(read_clock(clock as i32).unwrap_or(0), Relaxed);
    }
    s.serial.fetch_add(1, Relaxed);
}

pub fn end_case(slot: usize) {
    SLOT.with(|c| c.set(usize::MAX));
    SLOTS[slot].serial.fetch_add(1, Relaxed);
}

fn write_num(fd: i32, mut n: u32) {
    let mut buf = [0u8; 12];
    let mut i = buf.len() - 1;
    buf[i] = b' ';
    loop {
        i -= 1;
        buf[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    unsafe {
        libc::write(fd, buf[i..].as_ptr() as *const _, buf.len() - i);
    }
}

fn dump_slot(slot: usize) {
    let fd = CRASH_FD.load(Relaxed);
    if fd < 0 || slot >= MAX_THREADS {
        return;
    }
    let s = &SLOTS[slot];
    write_num(fd, s.arm.load(Relaxed));
    for v in &s.data[..s.len.load(Relaxed)] {
        write_num(fd, v.load(Relaxed));
    }
    unsafe {
        libc::write(fd, b"\n".as_ptr() as *const _, 1);
    }
}

pub fn dump_hang(slot: usize) -> ! {
    dump_slot(slot);
    unsafe { libc::_exit(EXIT_HANG) }
}

extern "C" fn on_signal(_sig: i32) {
    let slot = SLOT.with(|c| c.get());
    dump_slot(slot);
    unsafe { libc::_exit(EXIT_CRASH) }
}

/// Opens the crash file and installs the signal handlers.
pub fn install(crash_file: &str) {
    let path = std::ffi::CString::new(crash_file).unwrap();
    unsafe {
        let fd = libc::open(
            path.as_ptr(),
            libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
            0o644,
        );
        CRASH_FD.store(fd, Relaxed);
        for sig in [
            libc::SIGSEGV,
            libc::SIGBUS,
            libc::SIGABRT,
            libc::SIGILL,
            libc::SIGFPE,
            libc::SIGTRAP,
        ] {
            let mut action: libc::sigaction = std::mem::zeroed();
            action.sa_sigaction = on_signal as extern "C" fn(i32) as usize;
            action.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(sig, &action, std::ptr::null_mut());
        }
    }
}

pub struct CountingAlloc;

#[inline]
fn hold(size: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + size));
}

/// Bytes that this thread allocated and did not free; only differences mean something.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

#[inline]
fn charge(size: usize) {
    // The thread-local may be gone while the thread ends.
    let _ = ALLOCATED.try_with(|c| {
        let n = c.get() + size as u64;
        c.set(n);
        if n > ALLOC_LIMIT.try_with(|l| l.get()).unwrap_or(ALLOC_BUDGET) {
            c.set(0);
            let slot = SLOT.try_with(|c| c.get()).unwrap_or(usize::MAX);
            if slot != usize::MAX {
                dump_slot(slot);
                unsafe { libc::_exit(EXIT_ALLOC) }
            }
        }
    });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        charge(layout.size());
        hold(layout.size() as i64);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        hold(-(layout.size() as i64));
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        charge(layout.size());
        hold(layout.size() as i64);
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        charge(new_size.saturating_sub(layout.size()));
        hold(new_size as i64 - layout.size() as i64);
        System.realloc(ptr, layout, new_size)
    }
}

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

/// Bytes allocated by this thread since the case began.
pub fn allocated() -> u64 {
    ALLOCATED.with(|c| c.get())
}

/// Processor time of this thread in nanoseconds.
pub fn cpu_time() -> u64 {
    read_clock(libc::CLOCK_THREAD_CPUTIME_ID as i32).unwrap_or(0)
}

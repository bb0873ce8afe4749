//! The operating system as the client sees it: blocking sleeps, clocks and entropy.
//!
//! The client and the libraries below it reach these through libc symbols. This executable defines
//! those symbols itself, so that on the simulation thread (and only there) a sleep advances virtual
//! time, clocks show virtual time and random bytes come from the seed. Every other thread, and the
//! simulation thread outside a run, gets the real thing.
use {
    crate::rng::Rng,
    libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec},
    std::cell::{Cell, RefCell},
};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    /// Virtual nanoseconds since the start of the run.
    static NOW: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static STARVED: Cell<bool> = const { Cell::new(false) };
    /// Requests for more open files since time last passed: how often the ledger was opened.
    static OPENS: Cell<u32> = const { Cell::new(0) };
    static ON_SLEEP: Cell<Option<fn(u64)>> = const { Cell::new(None) };
}

/// Virtual epoch of the monotonic and of the wall clock, in seconds.
const BASE: u64 = 1_800_000_000;

pub fn activate(seed: u64, on_sleep: fn(u64)) {
    ENTROPY.with(|e| *e.borrow_mut() = Some(Rng::derive(seed, "entropy")));
    NOW.with(|n| n.set(0));
    OPENS.with(|o| o.set(0));
    ON_SLEEP.with(|s| s.set(Some(on_sleep)));
    ACTIVE.with(|a| a.set(true));
}
pub fn deactivate() {
    ACTIVE.with(|a| a.set(false));
}
/// Makes the operating system refuse the number of open files the ledger asks for.
pub fn starve_files(yes: bool) {
    STARVED.with(|s| s.set(yes));
}
pub fn set_now(ns: u64) {
    NOW.with(|n| {
        if n.replace(ns) != ns {
            OPENS.with(|o| o.set(0));
        }
    });
}
/// A client that opens its ledger again and again while no time passes never waits.
pub fn spinning() -> bool {
    OPENS.with(|o| o.get()) > SPIN
}
const SPIN: u32 = 60;
/// Runs `f` with the real operating system (for libraries that are not part of the system).
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = f();
    ACTIVE.with(|a| a.set(was));
    r
}
fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

unsafe fn entropy(buf: *mut c_void, len: size_t) -> ssize_t {
    if len == 0 {
        return 0;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    ENTROPY.with(|e| e.borrow_mut().as_mut().unwrap().fill(out));
    len as ssize_t
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && active() {
        return entropy(a as *mut c_void, b as size_t) as c_long;
    }
    raw(n, a, b, c, d, e, f)
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if active() {
        return entropy(buf, len);
    }
    raw(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0) as ssize_t
}

unsafe fn sleep_virtually(req: *const timespec) {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    set_now(NOW.with(|n| n.get()) + ns);
    if let Some(f) = ON_SLEEP.with(|s| s.get()) {
        f(ns);
    }
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if active() {
        sleep_virtually(req);
        return 0;
    }
    raw(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0) as c_int
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if active() && flags == 0 {
        sleep_virtually(req);
        return 0;
    }
    match raw(libc::SYS_clock_nanosleep, clock as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0) {
        0 => 0,
        _ => *libc::__errno_location(),
    }
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut timespec) -> c_int {
    if active() && matches!(clock, libc::CLOCK_REALTIME | libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_MONOTONIC_COARSE) {
        let now = NOW.with(|n| n.get());
        (*ts).tv_sec = (BASE + now / 1_000_000_000) as _;
        (*ts).tv_nsec = (now % 1_000_000_000) as _;
        return 0;
    }
    raw(libc::SYS_clock_gettime, clock as c_long, ts as c_long, 0, 0, 0, 0) as c_int
}

/// The ledger library insists on a million file descriptors.
/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn getrlimit(what: libc::__rlimit_resource_t, out: *mut libc::rlimit) -> c_int {
    let r = raw(libc::SYS_prlimit64, 0, what as c_long, 0, out as c_long, 0, 0) as c_int;
    if r == 0 && active() && what == libc::RLIMIT_NOFILE {
        OPENS.with(|o| o.set(o.get() + 1));
        let n = if STARVED.with(|s| s.get()) || spinning() { 1024 } else { 1_000_000 };
        (*out).rlim_cur = n;
        (*out).rlim_max = n;
    }
    r
}

/// # Safety
/// As libc's.
#[no_mangle]
pub unsafe extern "C" fn setrlimit(what: libc::__rlimit_resource_t, lim: *const libc::rlimit) -> c_int {
    if active() && what == libc::RLIMIT_NOFILE {
        if STARVED.with(|s| s.get()) || spinning() {
            *libc::__errno_location() = libc::EPERM;
            return -1;
        }
        return 0;
    }
    raw(libc::SYS_prlimit64, 0, what as c_long, lim as c_long, 0, 0, 0) as c_int
}

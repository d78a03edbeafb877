//! Virtual wall clock. The process-wide `clock_gettime` symbol is ours, so that
//! `SystemTime::now()` (and with it everything in the code under test that asks
//! for the time of day) sees a per-thread virtual time when one is set. Other
//! clocks, and threads without a virtual time, go to the kernel.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

thread_local! {
    static NOW: Cell<Option<u64>> = const { Cell::new(None) };
    static NANOS: Cell<u32> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(
    clk: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        if let Ok(Some(t)) = NOW.try_with(|c| c.get()) {
            let _ = READS.try_with(|c| c.set(c.get() + 1));
            (*ts).tv_sec = t as libc::time_t;
            (*ts).tv_nsec = NANOS.try_with(|c| c.get()).unwrap_or(0) as libc::c_long;
            return 0;
        }
    }
    if TWIN.load(Ordering::Relaxed) {
        // every other clock ticks once a reading
        let n = TICKS.fetch_add(1, Ordering::Relaxed);
        (*ts).tv_sec = (1000 + n / 1_000_000) as libc::time_t;
        (*ts).tv_nsec = (n % 1_000_000 * 1000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

static TWIN: AtomicBool = AtomicBool::new(false);
static TICKS: AtomicU64 = AtomicU64::new(0);

/// From here on this process has the same process id and sees the same times as
/// every other twin (as processes in two containers may).
pub fn twin() {
    TWIN.store(true, Ordering::Relaxed);
}

#[no_mangle]
pub extern "C" fn getpid() -> libc::pid_t {
    if TWIN.load(Ordering::Relaxed) {
        return 7;
    }
    unsafe { libc::syscall(libc::SYS_getpid) as libc::pid_t }
}

/// The latest wall clock that is ever set (in the year 2242): nobody's clock
/// shows more, and code may rely on that (a u64 holds nanoseconds until 2554).
pub const LAST: u64 = 1 << 33;

/// Like `at`, that much after the full second.
pub fn at_fraction<T>(t: u64, nanos: u32, f: impl FnOnce() -> T) -> T {
    struct Reset(u32);
    impl Drop for Reset {
        fn drop(&mut self) {
            NANOS.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(NANOS.with(|c| c.replace(nanos)));
    at(t, f)
}

/// Run `f` with the wall clock of this thread standing still at `t`.
pub fn at<T>(t: u64, f: impl FnOnce() -> T) -> T {
    struct Reset(Option<u64>);
    impl Drop for Reset {
        fn drop(&mut self) {
            NOW.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(NOW.with(|c| c.replace(Some(t))));
    f()
}

pub fn set(t: Option<u64>) {
    NOW.with(|c| c.set(t));
}

pub fn reads() -> u64 {
    READS.with(|c| c.get())
}

/// The substitution must be in effect, or every clock property is vacuous.
pub fn self_check() -> Result<(), String> {
    for t in [0u64, 1, 1_700_000_000, LAST] {
        let got = at(t, || {
            std::time::SystemTime::now()
                .duration_since(std::time::UNIX_EPOCH)
                .unwrap()
                .as_secs()
        });
        if got != t {
            return Err(format!("virtual clock not in effect: set {t}, read {got}"));
        }
    }
    Ok(())
}

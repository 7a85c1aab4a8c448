//! Virtual monotonic clock. A thread that called `freeze` sees a clock that moves only by
//! `advance`; everybody else sees the real one.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<u64> = Cell::new(0);
}

unsafe fn real(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Replaces the libc symbol for everything linked into the executable.
///
/// # Safety
/// called as the C function
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(
    clk: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        if let Ok(v) = NOW.try_with(|n| n.get()) {
            if v != 0 {
                (*ts).tv_sec = (v / 1_000_000_000) as libc::time_t;
                (*ts).tv_nsec = (v % 1_000_000_000) as libc::c_long;
                return 0;
            }
        }
    }
    real(clk, ts)
}

pub fn freeze() {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { real(libc::CLOCK_MONOTONIC, &mut ts) };
    NOW.with(|n| {
        if n.get() == 0 {
            n.set((ts.tv_sec as u64 + 1000) * 1_000_000_000)
        }
    });
}

pub fn advance_ms(ms: u64) {
    NOW.with(|n| {
        assert!(n.get() != 0, "clock not frozen");
        n.set(n.get() + ms * 1_000_000)
    });
}

pub fn now_ms() -> u64 {
    NOW.with(|n| n.get() / 1_000_000)
}

/// the real monotonic clock, not affected by freezing
pub fn real_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

//! Interposed `clock_gettime`: `Instant::now()` and `SystemTime::now()`, in
//! hyper, h2 and std alike, read the simulated clock on simulation threads.
use std::cell::Cell;

pub const MONO_BASE: u64 = 1_000_000 * 1_000_000_000;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static REAL_BASE: Cell<u64> = const { Cell::new(0) };
}

pub fn enable(real_base: u64) {
    NOW.with(|n| n.set(0));
    REAL_BASE.with(|n| n.set(real_base));
    ON.with(|n| n.set(true));
}
pub fn disable() {
    ON.with(|n| n.set(false));
}
pub fn set_now(now: u64) {
    NOW.with(|n| n.set(now));
}
/// Moves the wall clock relative to the monotonic one.
pub fn jump_real(by: i64) {
    REAL_BASE.with(|n| n.set(n.get().wrapping_add_signed(by)));
}
pub fn real_now() -> u64 {
    REAL_BASE.with(|r| r.get()) + NOW.with(|n| n.get())
}

/// # Safety
/// Same contract as the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ON.with(|n| n.get()) {
        let t = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            real_now()
        } else {
            MONO_BASE + NOW.with(|n| n.get())
        };
        (*ts).tv_sec = (t / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

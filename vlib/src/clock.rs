//! A per-thread virtual clock. The harness binary defines `clock_gettime`, which takes precedence
//! over libc's, so `Instant`, `SystemTime` and chrono in the code under test read this clock while
//! it is active on the thread. No hook in the code under test is needed.
use std::cell::Cell;

thread_local! {
    // (active, nanoseconds added since case start)
    static V: Cell<(bool, i64)> = const { Cell::new((false, 0)) };
}
const MONO0: i64 = 1_000_000 * 1_000_000_000;
const REAL0: i64 = 1_800_000_000 * 1_000_000_000;

pub fn reset() {
    V.with(|v| v.set((false, 0)));
}
pub fn off() {
    V.with(|v| v.set((false, 0)));
}
/// Starts virtual time on this thread at a fixed origin (2027-01-15T08:00:00Z).
pub fn start() {
    V.with(|v| v.set((true, 0)));
}
pub fn advance_ns(ns: i64) {
    V.with(|v| {
        let (a, n) = v.get();
        v.set((a, n + ns));
    });
}
pub fn advance_ms(ms: u64) {
    advance_ns(ms as i64 * 1_000_000);
}
pub fn advance_s(s: u64) {
    advance_ns(s as i64 * 1_000_000_000);
}
/// Virtual nanoseconds since `start`.
pub fn elapsed_ns() -> i64 {
    V.with(|v| v.get().1)
}
/// Virtual wall clock, seconds since the epoch.
pub fn unix() -> i64 {
    (REAL0 + elapsed_ns()).div_euclid(1_000_000_000)
}

fn raw(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as i32 }
}
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let (active, n) = V.try_with(|v| v.get()).unwrap_or((false, 0));
    if active && !ts.is_null() {
        let base = if id == libc::CLOCK_REALTIME { REAL0 } else { MONO0 };
        let t = base + n;
        (*ts).tv_sec = t.div_euclid(1_000_000_000);
        (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
        0
    } else {
        raw(id, ts)
    }
}

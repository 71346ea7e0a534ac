//! A virtual clock. While a thread's clock is virtual, the monotonic and wall clocks read a value
//! that moves only when it is told to, and sleeping moves it. This works by defining the C
//! functions the standard library reads time with; other threads keep the real clock.

use std::cell::Cell;
use std::time::Duration;

const OFF: u64 = u64::MAX;
/// Where virtual time starts, in nanoseconds.
pub const BASE: u64 = 1_000_000 * 1_000_000_000;

thread_local! {
    static NOW: Cell<u64> = const { Cell::new(OFF) };
    static SLEPT: Cell<u64> = const { Cell::new(0) };
}

#[cfg(not(miri))]
mod hooks {
    use super::*;
    use libc::{c_int, clockid_t, timespec};

    fn ours(clk: clockid_t) -> bool {
        matches!(
            clk,
            libc::CLOCK_MONOTONIC
                | libc::CLOCK_REALTIME
                | libc::CLOCK_BOOTTIME
                | libc::CLOCK_MONOTONIC_RAW
                | libc::CLOCK_MONOTONIC_COARSE
                | libc::CLOCK_REALTIME_COARSE
        )
    }
    fn ns(ts: &timespec) -> u64 {
        (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64)
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
        let now = NOW.with(|n| n.get());
        if now != OFF && ours(clk) {
            (*ts).tv_sec = (now / 1_000_000_000) as _;
            (*ts).tv_nsec = (now % 1_000_000_000) as _;
            return 0;
        }
        libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as c_int
    }
    fn sleep(d: u64) {
        NOW.with(|n| n.set(n.get().saturating_add(d).min(OFF - 1)));
        SLEPT.with(|n| n.set(n.get().saturating_add(d)));
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(
        clk: clockid_t,
        flags: c_int,
        req: *const timespec,
        rem: *mut timespec,
    ) -> c_int {
        let now = NOW.with(|n| n.get());
        if now != OFF {
            let t = ns(&*req);
            sleep(if flags & libc::TIMER_ABSTIME != 0 { t.saturating_sub(now) } else { t });
            return 0;
        }
        let r = libc::syscall(
            libc::SYS_clock_nanosleep,
            clk as libc::c_long,
            flags as libc::c_long,
            req,
            rem,
        );
        if r == 0 {
            0
        } else {
            *libc::__errno_location()
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
        let now = NOW.with(|n| n.get());
        if now != OFF {
            sleep(ns(&*req));
            return 0;
        }
        libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
    }
}

/// Makes this thread's clock virtual until dropped.
pub struct Virtual(());
impl Virtual {
    pub fn start() -> Virtual {
        NOW.with(|n| n.set(BASE));
        Virtual(())
    }
}
impl Drop for Virtual {
    fn drop(&mut self) {
        NOW.with(|n| n.set(OFF));
    }
}
/// Nanoseconds since the virtual clock started.
pub fn now() -> u64 {
    NOW.with(|n| n.get()).wrapping_sub(BASE)
}
pub fn advance(d: Duration) {
    advance_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}
pub fn advance_ns(d: u64) {
    NOW.with(|n| n.set(n.get().saturating_add(d).min(OFF - 1)));
}
pub fn set(since_start: u64) {
    NOW.with(|n| n.set(BASE + since_start));
}

/// The virtual clock is in effect and moves as told.
pub fn self_test() -> bool {
    let _v = Virtual::start();
    let a = std::time::Instant::now();
    advance(Duration::from_secs(5));
    let b = std::time::Instant::now();
    std::thread::sleep(Duration::from_secs(3600));
    let c = std::time::Instant::now();
    b - a == Duration::from_secs(5) && c - b == Duration::from_secs(3600)
}

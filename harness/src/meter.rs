//! What a piece of work costs: bytes allocated (counted by the allocator) and processor
//! time of the thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let live = LIVE.get() + n;
            LIVE.set(live);
            if n > 0 {
                TOTAL.set(TOTAL.get() + n as u64);
                if live > PEAK.get() {
                    PEAK.set(live);
                }
            }
        }
    });
}

// SAFETY: everything is passed on to the system's allocator
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        add(-(l.size() as i64));
        unsafe { System.realloc(p, l, n) }
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Nanoseconds this thread has run.
pub fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    // SAFETY: the structure is the one the call fills in on 64 bit Linux
    let r = unsafe { clock_gettime(3, &raw mut t) };
    assert_eq!(r, 0, "thread clock");
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub nanos: u64,
    /// most bytes in use at a time
    pub peak: u64,
    /// all bytes asked for
    pub total: u64,
}

/// Do it and measure it. A result which is kept is counted as in use.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    ON.set(true);
    let t0 = cpu();
    let r = f();
    let nanos = cpu() - t0;
    ON.set(false);
    (r, Cost { nanos, peak: PEAK.get().max(0) as u64, total: TOTAL.get() })
}

//! What code compiled with LLVM's sanitizer coverage calls (tools/covwrap). This crate is
//! never compiled with it itself. Without instrumentation nothing here is ever called.

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

/// Start and end of the counters, which the linker puts into one section.
static START: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);
static RECORD: AtomicBool = AtomicBool::new(false);

/// How close the operands of comparisons came: one bit per hash of constant and closeness.
const CMPS: usize = 1 << 14;
static mut CMP: [u8; CMPS] = [0; CMPS];
/// Those set since the last reset.
static mut SET: [u16; 1024] = [0; 1024];
static NSET: AtomicUsize = AtomicUsize::new(0);

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    if START.load(Relaxed) == 0 || (a as usize) < START.load(Relaxed) {
        START.store(a as usize, Relaxed);
    }
    if (b as usize) > END.load(Relaxed) {
        END.store(b as usize, Relaxed);
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

#[inline]
fn cmp(size: u64, konst: u64, x: u64) {
    // most of four bytes are characters: no closer and no further
    if !RECORD.load(Relaxed) || size == 4 && (0x20..0x80).contains(&konst) {
        return;
    }
    // distance: how many leading bits of the difference are zero, and how many differ
    let d = konst.abs_diff(x);
    let near = u64::from(d.leading_zeros());
    let bits = u64::from((konst ^ x).count_ones());
    for k in [near, 100 + bits] {
        let h = (konst ^ size << 56 ^ k << 40).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (64 - 14);
        let h = h as usize & (CMPS - 1);
        // SAFETY: only the one thread which records writes these, races lose a hint
        unsafe {
            let p = (&raw mut CMP).cast::<u8>().add(h);
            if *p == 0 {
                let n = NSET.load(Relaxed);
                if n < 1024 {
                    *p = 1;
                    *(&raw mut SET).cast::<u16>().add(n) = h as u16;
                    NSET.store(n + 1, Relaxed);
                }
            }
        }
    }
}

macro_rules! cmps {
    ($($name:ident $t:ty, $c:expr;)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $name(a: $t, b: $t) {
            // constants come first; two variables, or single bytes, tell nothing worth keeping
            if $c {
                cmp(size_of::<$t>() as u64, u64::from(a), u64::from(b));
            }
        }
    )* };
}
cmps! {
    __sanitizer_cov_trace_cmp1 u8, false;
    __sanitizer_cov_trace_cmp2 u16, false;
    __sanitizer_cov_trace_cmp4 u32, false;
    __sanitizer_cov_trace_cmp8 u64, false;
    __sanitizer_cov_trace_const_cmp1 u8, false;
    __sanitizer_cov_trace_const_cmp2 u16, true;
    __sanitizer_cov_trace_const_cmp4 u32, true;
    __sanitizer_cov_trace_const_cmp8 u64, true;
}

/// Which case a switch takes shows in the counters.
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}

#[must_use]
pub fn instrumented() -> bool {
    END.load(Relaxed) > START.load(Relaxed)
}

/// How many places there are.
#[must_use]
pub fn size() -> usize {
    END.load(Relaxed) - START.load(Relaxed)
}

/// Forget what was passed.
pub fn start() {
    let n = size();
    if n > 0 {
        // SAFETY: the counters' section
        unsafe { std::ptr::write_bytes(START.load(Relaxed) as *mut u8, 0, n) };
    }
    for i in 0..NSET.swap(0, Relaxed) {
        // SAFETY: see `cmp`
        unsafe {
            let h = *(&raw const SET).cast::<u16>().add(i);
            *(&raw mut CMP).cast::<u8>().add(usize::from(h)) = 0;
        }
    }
    RECORD.store(true, Relaxed);
}

fn bucket(n: u8) -> usize {
    match n {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4..=7 => 3,
        8..=15 => 4,
        16..=31 => 5,
        32..=127 => 6,
        _ => 7,
    }
}

/// The features of what ran since `start`: places with how often (roughly), and comparisons.
pub fn stop(mut each: impl FnMut(usize)) {
    RECORD.store(false, Relaxed);
    let (a, n) = (START.load(Relaxed), size());
    let mut i = 0;
    while i < n {
        // SAFETY: within the section; eight at a time where they are aligned
        unsafe {
            if (a + i) % 8 == 0 && i + 8 <= n && *((a + i) as *const u64) == 0 {
                i += 8;
                continue;
            }
            let c = *((a + i) as *const u8);
            if c != 0 {
                each(i * 8 + bucket(c));
            }
        }
        i += 1;
    }
    for i in 0..NSET.load(Relaxed) {
        // SAFETY: see `cmp`
        let h = unsafe { *(&raw const SET).cast::<u16>().add(i) };
        each(n * 8 + usize::from(h));
    }
}

/// One more than the largest feature.
#[must_use]
pub fn features() -> usize {
    size() * 8 + CMPS
}

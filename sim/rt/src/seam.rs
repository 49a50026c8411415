//! Interposed symbols: instrumentation callbacks, blocking, clocks, randomness.
//! Defined in the executable, so they win over libc's; outside a run they do
//! what libc's do.
use crate::{sched, shm, sys, tape};

static mut NGUARD: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        NGUARD += 1;
        *a = NGUARD;
        a = a.add(1);
    }
}

pub fn guards() -> u32 {
    unsafe { NGUARD }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    sched::edge(*g);
}

macro_rules! access {
    ($($n:ident $s:literal)+) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *mut u8) {
            sched::access(a as usize, $s);
        }
    )+};
}
access! {
    __sanitizer_cov_load1 false
    __sanitizer_cov_load2 false
    __sanitizer_cov_load4 false
    __sanitizer_cov_load8 false
    __sanitizer_cov_load16 false
    __sanitizer_cov_store1 true
    __sanitizer_cov_store2 true
    __sanitizer_cov_store4 true
    __sanitizer_cov_store8 true
    __sanitizer_cov_store16 true
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

const EAGAIN: isize = 11;
const ETIMEDOUT: isize = 110;

/// std's locks, parking and once-cells come here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if sched::seam_on() {
        if n == sys::SYS_FUTEX {
            let op = b & 0x7f;
            match op {
                // FUTEX_WAIT, FUTEX_WAIT_BITSET
                0 | 9 => {
                    if *(a as *const u32) != c as u32 {
                        return ret(-EAGAIN);
                    }
                    let rel = if d == 0 {
                        None
                    } else {
                        let ts = d as *const i64;
                        let ns = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
                        // BITSET deadlines are absolute.
                        Some(if op == 9 { ns.saturating_sub(sched::now_ns()) } else { ns })
                    };
                    return if sched::block(a, rel) { ret(-ETIMEDOUT) } else { 0 };
                }
                // FUTEX_WAKE, FUTEX_WAKE_BITSET
                1 | 10 => return sched::wake(a, c) as isize,
                _ => {}
            }
        }
        if n == sys::SYS_GETRANDOM {
            return getrandom(a as *mut u8, b, c as u32);
        }
    }
    ret(sys::sc6(n, a, b, c, d, e, f))
}

static mut RAND: tape::Rng = tape::Rng(0);

/// Seeds the randomness the run hands out (system entropy and hash keys).
pub fn seed_entropy(s: u64) {
    unsafe { *&raw mut RAND = tape::Rng(s) }
}

/// Next word of the simulated entropy source.
pub fn entropy() -> u64 {
    unsafe { (*&raw mut RAND).next() }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if sched::seam_on() {
        shm::stat_add("entropy_read", 1);
        for i in 0..n {
            *p.add(i) = entropy() as u8;
        }
        return n as isize;
    }
    ret(sys::sc6(sys::SYS_GETRANDOM, p as usize, n, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if sched::seam_on() {
        shm::stat_add("clock_read", 1);
        let t = 1_700_000_000_000_000_000u64 * u64::from(id == 0) + sched::now_ns();
        *ts = (t / 1_000_000_000) as i64;
        *ts.add(1) = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys::sc6(sys::SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::seam_on() {
        sched::yield_now();
        return 0;
    }
    ret(sys::sc6(24, 0, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const i64, rem: *mut i64) -> i32 {
    if sched::seam_on() {
        let ns = (*ts as u64) * 1_000_000_000 + *ts.add(1) as u64;
        let key = &raw const RAND as usize; // nobody wakes this address
        sched::block(key, Some(if flags & 1 != 0 { ns.saturating_sub(sched::now_ns()) } else { ns }));
        return 0;
    }
    -(sys::sc6(230, id as usize, flags as usize, ts as usize, rem as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const i64, rem: *mut i64) -> i32 {
    if sched::seam_on() {
        return clock_nanosleep(1, 0, ts, rem);
    }
    ret(sys::sc6(35, ts as usize, rem as usize, 0, 0, 0, 0)) as i32
}

//! The scheduler. Simulated threads are real threads of which exactly one is
//! ever released; who runs next, and for how many instrumented steps, is drawn
//! from the tape. The instrumented code calls back at every control-flow edge
//! and every load and store; the count of those callbacks is the clock.
use crate::{alloc, shm, sys, tape};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAX_TH: usize = 24;
/// Nanoseconds of simulated time per instrumented step.
pub const NS_PER_STEP: u64 = 10;
const INF: i64 = 2_000_000;
const MAX_SWITCHES: u64 = 4000;
const MAX_HOT: u32 = 600;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// Waiting on a futex word; `until` is a simulated deadline or `u64::MAX`.
    Blocked { addr: usize, until: u64 },
    Done,
}

#[derive(Clone, Copy)]
struct Th {
    st: St,
    sut: u32,
    timed_out: bool,
}

static mut TH: [Th; MAX_TH] = [Th { st: St::Done, sut: 0, timed_out: false }; MAX_TH];
static mut N: usize = 1;
static mut CUR: usize = 0;
static FLAG: [AtomicU32; MAX_TH] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU32 = AtomicU32::new(0);
    [Z; MAX_TH]
};
/// Counts callbacks and schedules.
static mut ACTIVE: bool = false;
/// More than one thread exists.
static mut MULTI: bool = false;
static mut COUNTDOWN: i64 = INF;
static mut LOADED: i64 = INF;
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut OP_LIMIT: u64 = u64::MAX;
static mut SKEW_NS: u64 = 0;
static mut SLICE: usize = 0;
static mut HOT: u32 = 0;
static mut HOT_DEN: u32 = 3;
static mut SWITCHES: u64 = 0;

#[inline]
pub fn cur() -> usize {
    unsafe { CUR }
}
#[inline]
pub fn region() -> usize {
    // Worker and driver code, and the main thread of a run, use arena 0.
    unsafe {
        if CUR == 0 {
            0
        } else {
            1 + (CUR - 1) % (alloc::REGIONS - 1)
        }
    }
}
#[inline]
pub fn in_sut() -> bool {
    unsafe { ACTIVE && TH[CUR].sut != 0 }
}

/// Marks the dynamic extent of library code: allocations made here belong to
/// the library.
#[inline]
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { (*&raw mut TH)[CUR].sut -= 1 }
        }
    }
    unsafe { (*&raw mut TH)[CUR].sut += 1 }
    let _g = G;
    f()
}

/// Leaves library code again (callbacks into the application).
#[inline]
pub fn app<T>(f: impl FnOnce() -> T) -> T {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { (*&raw mut TH)[CUR].sut = self.0 }
        }
    }
    let g = unsafe {
        let old = TH[CUR].sut;
        (*&raw mut TH)[CUR].sut = 0;
        G(old)
    };
    let r = f();
    drop(g);
    r
}

/// Accounts for steps another machine took after it was forked.
pub fn add_steps(total: u64) {
    unsafe {
        let d = total.saturating_sub(steps());
        STEPS += d;
    }
}

/// Context switches so far.
pub fn switches() -> u64 {
    unsafe { SWITCHES }
}

pub fn steps() -> u64 {
    unsafe { STEPS + (LOADED - COUNTDOWN) as u64 }
}

pub fn now_ns() -> u64 {
    unsafe { SKEW_NS + steps() * NS_PER_STEP }
}

/// Advances simulated time without executing anything (a delay on the wire, a
/// slow disk).
pub fn advance(ns: u64) {
    unsafe { SKEW_NS += ns }
}

pub fn flush_clock() {
    let m = shm::shm();
    m.steps = steps();
    m.sim_ns = now_ns();
    m.switches = unsafe { SWITCHES };
    m.peak = alloc::SUT_PEAK.load(Relaxed) as u64;
}

fn reload(n: i64) {
    unsafe {
        STEPS += (LOADED - COUNTDOWN) as u64;
        LOADED = n;
        COUNTDOWN = n;
        // Stop exactly at the limits.
        let lim = LIMIT.min(OP_LIMIT);
        let left = lim.saturating_sub(STEPS).max(1);
        if (left as i64) < COUNTDOWN || left > i64::MAX as u64 {
            let l = left.min(INF as u64 * 1000) as i64;
            if l < COUNTDOWN {
                LOADED = l;
                COUNTDOWN = l;
            }
        }
    }
}

/// Start of a run in the forked child.
pub fn begin(limit: u64) {
    unsafe {
        STEPS = 0;
        LOADED = INF;
        COUNTDOWN = INF;
        LIMIT = limit;
        OP_LIMIT = u64::MAX;
        SKEW_NS = 0;
        HOT = 0;
        SWITCHES = 0;
        N = 1;
        CUR = 0;
        MULTI = false;
        (*&raw mut TH)[0] = Th { st: St::Ready, sut: 0, timed_out: false };
        ACTIVE = true;
    }
    reload(INF);
}

pub fn end() {
    unsafe { ACTIVE = false }
}

/// Runs one operation under its own step budget.
pub fn budget<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        let old = OP_LIMIT;
        OP_LIMIT = (steps() + n).min(old);
        reload(COUNTDOWN.max(1));
        struct G(u64);
        impl Drop for G {
            fn drop(&mut self) {
                unsafe {
                    OP_LIMIT = self.0;
                    reload(INF);
                }
            }
        }
        let _g = G(old);
        f()
    }
}

fn slice() -> i64 {
    unsafe {
        if !MULTI || SLICE == 0 || SWITCHES > MAX_SWITCHES {
            return INF;
        }
        match tape::choose(2 * SLICE) {
            0 => INF,
            n => n as i64,
        }
    }
}

fn wake_timers() {
    let now = now_ns();
    unsafe {
        for t in 1..N {
            if let St::Blocked { until, .. } = TH[t].st {
                if until <= now {
                    (*&raw mut TH)[t].st = St::Ready;
                    (*&raw mut TH)[t].timed_out = true;
                }
            }
        }
    }
}

/// The next thread to run; `None` when every thread is done.
fn next(rotate: bool) -> Option<usize> {
    unsafe {
        loop {
            wake_timers();
            let mut v = [0usize; MAX_TH];
            let mut n = 0;
            // Current thread first: choice 0 continues it.
            for k in 0..N {
                let t = (CUR + k) % N;
                if t != 0 && TH[t].st == St::Ready {
                    v[n] = t;
                    n += 1;
                }
            }
            if n > 0 {
                let i = if rotate && n > 1 { 1 } else { tape::choose(n) };
                return Some(v[i]);
            }
            let mut first = u64::MAX;
            let mut blocked = false;
            for t in 1..N {
                if let St::Blocked { until, .. } = TH[t].st {
                    blocked = true;
                    first = first.min(until);
                }
            }
            if !blocked {
                return None;
            }
            if first == u64::MAX {
                shm::fail("deadlock", "every simulated thread is blocked and no timer is pending");
            }
            let now = now_ns();
            SKEW_NS += first.saturating_sub(now);
        }
    }
}

fn switch(rotate: bool) {
    unsafe {
        let me = CUR;
        match next(rotate) {
            Some(t) => {
                reload(slice());
                if t != me {
                    SWITCHES += 1;
                    shm::sched_note(t as u64, STEPS);
                    CUR = t;
                    unpark(t);
                    if TH[me].st != St::Done || me == 0 {
                        park(me);
                    }
                }
            }
            None => {
                if me != 0 {
                    CUR = 0;
                    unpark(0);
                }
            }
        }
    }
}

fn park(t: usize) {
    while FLAG[t].load(Acquire) == 0 {
        sys::futex_wait(FLAG[t].as_ptr(), 0);
    }
    FLAG[t].store(0, Release);
}

fn unpark(t: usize) {
    FLAG[t].store(1, Release);
    sys::futex_wake(FLAG[t].as_ptr());
}

#[cold]
#[inline(never)]
fn slow() {
    unsafe {
        reload(1);
        if STEPS >= OP_LIMIT {
            shm::fail("livelock", "an operation did not return within its budget of simulated steps");
        }
        if STEPS >= LIMIT {
            shm::fail("livelock", "the run did not finish within its budget of simulated steps");
        }
        if !MULTI || CUR == 0 {
            reload(INF);
            return;
        }
        // Infinite slices end here too: rotate, so that spinning is fair.
        let spin = SLICE == 0 || SWITCHES > MAX_SWITCHES;
        switch(spin);
    }
}

/// A preemption point at the boundary of an operation.
pub fn yield_now() {
    unsafe {
        if MULTI && CUR != 0 && ACTIVE {
            switch(false);
        }
    }
}

#[inline]
pub fn tick() {
    unsafe {
        if ACTIVE {
            COUNTDOWN -= 1;
            if COUNTDOWN <= 0 {
                slow();
            }
        }
    }
}

/// The lowest place of the stack an instrumented function was seen at.
static mut LOW: usize = 0;

/// Starts to measure the stack of the current thread.
#[inline(never)]
pub fn stack_mark() -> usize {
    let here = 0u8;
    let at = &raw const here as usize;
    unsafe { LOW = at }
    at
}

/// Bytes of stack used below the mark.
pub fn stack_used(mark: usize) -> usize {
    unsafe { mark.saturating_sub(LOW) }
}

#[inline]
pub(crate) fn edge(id: u32) {
    unsafe {
        if ACTIVE {
            let here = 0u8;
            let at = &raw const here as usize;
            if at < LOW {
                LOW = at;
            }
            shm::shm().cov[id as usize % shm::COV_CAP] = 1;
            COUNTDOWN -= 1;
            if COUNTDOWN <= 0 {
                slow();
            }
        }
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
pub(crate) fn access(addr: usize, store: bool) {
    unsafe {
        if !ACTIVE || !MULTI || CUR == 0 {
            return;
        }
        let lo = &raw const __data_start as usize;
        let hi = &raw const _end as usize;
        let global = addr >= lo && addr < hi;
        if global || (store && alloc::region_of(addr).is_some_and(|r| r != region())) {
            hot(global);
        } else {
            COUNTDOWN -= 1;
            if COUNTDOWN <= 0 {
                slow();
            }
        }
    }
}

/// An access to memory other threads can see: a good place to be preempted.
#[cold]
#[inline(never)]
fn hot(global: bool) {
    unsafe {
        shm::stat_add(if global { "access_global_memory" } else { "store_to_foreign_block" }, 1);
        if HOT < MAX_HOT && SLICE != 0 && SWITCHES < MAX_SWITCHES {
            HOT += 1;
            if tape::chance(1, HOT_DEN) {
                switch(false);
            }
        }
    }
}

/// Runs the bodies as simulated threads until all are done. `mean` is the mean
/// number of instrumented steps between preemptions, 0 = only at yields and
/// blocking.
pub fn run_threads(mean: usize, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        SLICE = mean;
        let first = N;
        for b in bodies {
            let t = N;
            assert!(t < MAX_TH, "too many simulated threads");
            (*&raw mut TH)[t] = Th { st: St::Ready, sut: 0, timed_out: false };
            FLAG[t].store(0, Release);
            static UP: AtomicU32 = AtomicU32::new(0);
            UP.store(0, Release);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    UP.store(1, Release);
                    sys::futex_wake(UP.as_ptr());
                    park(t);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    if r.is_err() {
                        let m = crate::last_panic();
                        shm::fail("panic", &m);
                    }
                    drop(r);
                    // Done. The thread never exits while the process lives:
                    // its exit path would run outside the scheduler.
                    (*&raw mut TH)[t].st = St::Done;
                    switch(false);
                    loop {
                        sys::futex_wait(UP.as_ptr(), 1);
                    }
                })
                .expect("spawn");
            while UP.load(Acquire) == 0 {
                sys::futex_wait(UP.as_ptr(), 0);
            }
            N += 1;
        }
        let _ = first;
        MULTI = N - first > 1;
        CUR = 0;
        if let Some(t) = next(false) {
            reload(slice());
            CUR = t;
            unpark(t);
            park(0);
        }
        CUR = 0;
        MULTI = false;
        // Threads of this batch are over; their slots are not reused.
        reload(INF);
    }
}

/// Runs one body on a simulated thread of its own (2 MiB of stack, as a thread
/// of an application has).
pub fn run_one(f: Box<dyn FnOnce() + Send>) {
    run_threads(0, vec![f]);
}

// ---- blocking, for the futex seam ----

pub(crate) fn seam_on() -> bool {
    unsafe { ACTIVE && CUR != 0 }
}

/// Returns true when the wait timed out.
pub(crate) fn block(addr: usize, rel_ns: Option<u64>) -> bool {
    unsafe {
        shm::stat_add("futex_wait", 1);
        let until = rel_ns.map_or(u64::MAX, |n| now_ns().saturating_add(n));
        let t = &mut (*&raw mut TH)[CUR];
        t.timed_out = false;
        t.st = St::Blocked { addr, until };
        let me = CUR;
        switch(false);
        let t = &mut (*&raw mut TH)[me];
        std::mem::take(&mut t.timed_out)
    }
}

pub(crate) fn wake(addr: usize, n: usize) -> usize {
    unsafe {
        let mut k = 0;
        for t in 1..N {
            if k == n {
                break;
            }
            if matches!(TH[t].st, St::Blocked { addr: a, .. } if a == addr) {
                (*&raw mut TH)[t].st = St::Ready;
                k += 1;
            }
        }
        k
    }
}

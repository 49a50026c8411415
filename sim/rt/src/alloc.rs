//! The allocator seam. Deterministic addresses (one arena per simulated
//! thread, at fixed addresses), ownership tags, conservation accounting,
//! poisoning of freed memory, detection of double and invalid frees, and a
//! memory quota.
use crate::{sched, shm, sys};
use std::{
    alloc::{GlobalAlloc, Layout},
    sync::atomic::{AtomicBool, AtomicUsize, Ordering::*},
};

pub const BASE: usize = 0x1000_0000_0000;
pub const REGION: usize = 1 << 30;
pub const REGIONS: usize = 10;
const CLASSES: usize = 31;
const ALIVE: u32 = 0x5a11_fe01;
const DEAD: u32 = 0xdead_f4ee;
const HDR: usize = 16;

#[repr(C)]
struct Hdr {
    magic: u32,
    class: u8,
    tag: u8,
    /// Distance from the block start to this header (over-aligned blocks).
    off: u16,
    size: u64,
}

struct Arena {
    next: usize,
    top: usize,
    free: [usize; CLASSES],
}

static mut ARENAS: [Arena; REGIONS] = {
    const A: Arena = Arena { next: 0, top: 0, free: [0; CLASSES] };
    [A; REGIONS]
};
static LOCK: AtomicBool = AtomicBool::new(false);
static MAPPED: AtomicBool = AtomicBool::new(false);

/// Live bytes / blocks allocated by library code (tag 1).
pub static SUT_BYTES: AtomicUsize = AtomicUsize::new(0);
pub static SUT_BLOCKS: AtomicUsize = AtomicUsize::new(0);
pub static SUT_PEAK: AtomicUsize = AtomicUsize::new(0);
/// Total bytes library code ever asked for in this run.
pub static SUT_TOTAL: AtomicUsize = AtomicUsize::new(0);
/// 0 = no quota.
pub static QUOTA: AtomicUsize = AtomicUsize::new(0);
/// Displaces every later address of the arenas (layout perturbation).
pub static SHIFT: AtomicUsize = AtomicUsize::new(0);

/// When not 0, blocks come from drawn ends of the arena, so that the order of
/// addresses is no longer the order of allocation.
pub static SCRAMBLE: AtomicUsize = AtomicUsize::new(0);

pub struct SimAlloc;

fn lock() {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    if !MAPPED.load(Relaxed) {
        if !sys::map_fixed(BASE, REGION * REGIONS) {
            sys::exit_now(70);
        }
        for i in 0..REGIONS {
            unsafe {
                (*&raw mut ARENAS)[i].next = BASE + i * REGION;
                (*&raw mut ARENAS)[i].top = BASE + (i + 1) * REGION;
            }
        }
        MAPPED.store(true, Relaxed);
    }
}

fn unlock() {
    LOCK.store(false, Release);
}

fn class_of(n: usize) -> usize {
    (usize::BITS - (n.max(32) - 1).leading_zeros()) as usize
}

unsafe fn take(class: usize) -> usize {
    let r = sched::region();
    let a = &mut (*&raw mut ARENAS)[r];
    let mut sc = SCRAMBLE.load(Relaxed);
    if sc != 0 {
        sc = (sc ^ (sc >> 29)).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
        SCRAMBLE.store(sc, Relaxed);
    }
    let reuse = sc >> 62 != 1;
    if reuse && a.free[class] != 0 {
        let p = a.free[class];
        a.free[class] = *((p + HDR) as *const usize);
        return p;
    }
    let sh = SHIFT.load(Relaxed);
    if sh != 0 {
        a.next += sh;
    }
    let p = a.next;
    if p + (1 << class) > a.top {
        return 0;
    }
    if sc >> 63 == 1 {
        a.top -= 1 << class;
        return a.top;
    }
    a.next += 1 << class;
    p
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let extra = if l.align() > 16 { l.align() } else { 0 };
        let class = class_of(l.size() + HDR + extra);
        if class >= CLASSES {
            return std::ptr::null_mut();
        }
        let sut = sched::in_sut();
        if sut {
            SUT_TOTAL.fetch_add(l.size(), Relaxed);
            let live = SUT_BYTES.load(Relaxed) + l.size();
            let q = QUOTA.load(Relaxed);
            if q != 0 && live > q {
                shm::fail("memory-runaway", "live memory of the library exceeded the quota of the simulated machine");
            }
        }
        lock();
        let b = take(class);
        unlock();
        if b == 0 {
            if sut && shm::ready() {
                shm::fail("memory-runaway", "arena exhausted by library allocations");
            }
            return std::ptr::null_mut();
        }
        let mut h = b;
        if extra != 0 {
            h = (b + HDR + extra - 1) / extra * extra - HDR;
            if h < b {
                h += extra;
            }
        }
        *(h as *mut Hdr) = Hdr { magic: ALIVE, class: class as u8, tag: sut as u8, off: (h - b) as u16, size: l.size() as u64 };
        if sut {
            SUT_BLOCKS.fetch_add(1, Relaxed);
            let live = SUT_BYTES.fetch_add(l.size(), Relaxed) + l.size();
            if live > SUT_PEAK.load(Relaxed) {
                SUT_PEAK.store(live, Relaxed);
            }
        }
        let p = (h + HDR) as *mut u8;
        std::ptr::write_bytes(p, 0xa5, l.size().min(512));
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = (p as usize - HDR) as *mut Hdr;
        if (*h).magic != ALIVE || (*h).size != l.size() as u64 {
            if shm::ready() {
                shm::fail("invalid-free", "a block was freed twice, freed with the wrong size, or its header was overwritten");
            }
            sys::exit_now(71);
        }
        (*h).magic = DEAD;
        if (*h).tag == 1 {
            SUT_BLOCKS.fetch_sub(1, Relaxed);
            SUT_BYTES.fetch_sub(l.size(), Relaxed);
        }
        std::ptr::write_bytes(p, 0xdf, l.size().min(512));
        let b = h as usize - (*h).off as usize;
        let class = (*h).class as usize;
        let r = (b - BASE) / REGION;
        // A dead header must be recognisable at the place a stale pointer sees.
        if (*h).off != 0 {
            *(b as *mut Hdr) = Hdr { magic: DEAD, class: class as u8, tag: 0, off: 0, size: 0 };
        }
        lock();
        let a = &mut (*&raw mut ARENAS)[r];
        *((b + HDR) as *mut usize) = a.free[class];
        a.free[class] = b;
        unlock();
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// Which arena an address belongs to, if any.
#[inline]
pub fn region_of(a: usize) -> Option<usize> {
    if (BASE..BASE + REGION * REGIONS).contains(&a) {
        Some((a - BASE) / REGION)
    } else {
        None
    }
}

pub fn sut_live() -> (usize, usize) {
    (SUT_BLOCKS.load(Relaxed), SUT_BYTES.load(Relaxed))
}

pub fn reset_peak() {
    SUT_PEAK.store(SUT_BYTES.load(Relaxed), Relaxed);
    SUT_TOTAL.store(0, Relaxed);
}

//! Every choice of a run (generated operations, faults, delays, schedule) is
//! drawn here and nowhere else. A run is a pure function of its tape and of the
//! code: a fresh run draws from a PRNG and records, a replay reads the recorded
//! values. Zero is always the simplest choice, so a tape shrinks by deleting
//! and lowering entries, and an exhausted tape reads as zeros.
use crate::shm::{shm, SPAN_CAP, TAPE_CAP};

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next();
    r.next() ^ b
}

enum Src {
    Seed(Rng),
    Tape(Vec<u32>, usize),
}

static mut SRC: Option<Src> = None;

pub fn start_seed(seed: u64) {
    unsafe { *&raw mut SRC = Some(Src::Seed(Rng(seed))) }
}

pub fn start_tape(t: Vec<u32>) {
    unsafe { *&raw mut SRC = Some(Src::Tape(t, 0)) }
}

#[inline]
fn raw(n: u32) -> u32 {
    let m = shm();
    let i = m.tape_len as usize;
    let v = match unsafe { (*&raw mut SRC).as_mut().expect("tape not started") } {
        Src::Seed(_) if i >= TAPE_CAP => 0,
        Src::Seed(r) => ((u128::from(r.next()) * u128::from(n)) >> 64) as u32,
        Src::Tape(t, p) => {
            let v = t.get(*p).copied().unwrap_or(0);
            *p += 1;
            v.min(n - 1)
        }
    };
    if i < TAPE_CAP {
        m.tape[i] = v;
        m.tape_len += 1;
    }
    v
}

/// A value in `0..n`, 0 is the simplest.
#[inline]
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    raw(n.min(u32::MAX as usize) as u32) as usize
}

/// True with probability `num / den`; false is the simplest.
pub fn chance(num: u32, den: u32) -> bool {
    // 0 must mean "no": put the yes range at the top.
    raw(den) >= den - num
}

/// In `lo..=hi`.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + choose(hi - lo + 1)
}

pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len())]
}

/// Weighted index; the first entry is the simplest.
pub fn weighted(w: &[u32]) -> usize {
    let sum: u32 = w.iter().sum();
    let mut x = raw(sum);
    for (i, w) in w.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= w;
    }
    0
}

/// A size that is usually small, up to `max`.
pub fn small(max: usize) -> usize {
    let hi = match choose(4) {
        0 => 1,
        1 => 3,
        2 => 6,
        _ => max,
    };
    choose(hi.min(max) + 1)
}

/// A 64-bit word.
pub fn word() -> u64 {
    (u64::from(raw(u32::MAX)) << 32) | u64::from(raw(u32::MAX))
}

/// Marks a deletable stretch of the tape (one operation, one fault, one item).
pub fn span<T>(f: impl FnOnce() -> T) -> T {
    let m = shm();
    let a = m.tape_len;
    let i = m.span_len as usize;
    if i < SPAN_CAP {
        m.spans[i] = (a, a);
        m.span_len += 1;
    }
    let r = f();
    if i < SPAN_CAP {
        shm().spans[i].1 = shm().tape_len;
    }
    r
}

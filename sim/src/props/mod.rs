//! One module per property: workload, faults, oracle.
use rt::{sched, violation};
pub mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod calls;
mod typed;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// Runs of the quick tier.
    pub quick: u64,
    /// Simulated steps per run.
    pub limit: u64,
    pub rule: &'static str,
    pub measure: &'static str,
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const ALL: &[Prop] = &[c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

/// A library call that must return, on its own step budget.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match sched::budget(400_000_000, || sut::guard(f)) {
        Ok(v) => v,
        Err(p) => violation!("panic", "{what}: {p}"),
    }
}

/// Text for the event log.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(3000) {
        match c {
            b'\n' => s.push_str("\\n\n   "),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*c as char),
            c => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 3000 {
        s.push_str("...");
    }
    s
}

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, c| (h ^ u64::from(c)).wrapping_mul(0x100_0000_01b3))
}

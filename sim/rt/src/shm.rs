//! The record of one run, in memory shared between the worker process and the
//! forked child that executes the run, so that it survives any death of the
//! child (stack overflow, abort, kill).
use crate::sys;

pub const TAPE_CAP: usize = 1 << 17;
pub const SPAN_CAP: usize = 1 << 14;
pub const LOG_CAP: usize = 1 << 18;
pub const MSG_CAP: usize = 6000;
pub const STAT_CAP: usize = 256;
pub const COV_CAP: usize = 1 << 16;

/// Outcome codes.
pub const RUNNING: u32 = 0;
pub const PASS: u32 = 1;
pub const FAIL: u32 = 2;

#[repr(C)]
pub struct Shm {
    pub outcome: u32,
    pub class_len: u32,
    pub class: [u8; 96],
    pub msg_len: u32,
    pub msg: [u8; MSG_CAP],
    pub tape_len: u32,
    pub tape: [u32; TAPE_CAP],
    pub span_len: u32,
    pub spans: [(u32, u32); SPAN_CAP],
    pub log_len: u32,
    pub log: [u8; LOG_CAP],
    pub log_hash: u64,
    pub sched_hash: u64,
    pub state_hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub peak: u64,
    /// The run did something the check counts as non-trivial.
    pub nontrivial: u32,
    /// Scratch for observations of child machines (see c06).
    pub aux_len: u32,
    pub aux: [u8; LOG_CAP],
    /// Counters that accumulate over all the runs of a worker.
    pub stat: [u64; STAT_CAP],
    pub stat_name: [(usize, usize); STAT_CAP],
    pub cov: [u8; COV_CAP],
}

static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn init() {
    unsafe {
        if SHM.is_null() {
            SHM = sys::map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
        }
    }
}

#[allow(clippy::mut_from_ref)]
#[inline]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

#[inline]
pub fn ready() -> bool {
    unsafe { !SHM.is_null() }
}

impl Shm {
    pub fn reset_run(&mut self) {
        self.outcome = RUNNING;
        self.class_len = 0;
        self.msg_len = 0;
        self.tape_len = 0;
        self.span_len = 0;
        self.log_len = 0;
        self.log_hash = 0xcbf2_9ce4_8422_2325;
        self.sched_hash = 0xcbf2_9ce4_8422_2325;
        self.state_hash = 0xcbf2_9ce4_8422_2325;
        self.steps = 0;
        self.sim_ns = 0;
        self.switches = 0;
        self.peak = 0;
        self.nontrivial = 0;
        self.aux_len = 0;
    }
    pub fn class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn log(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.log_len as usize]).into_owned()
    }
    pub fn aux(&self) -> String {
        String::from_utf8_lossy(&self.aux[..self.aux_len as usize]).into_owned()
    }
    pub fn aux_push(&mut self, s: &str) {
        let at = self.aux_len as usize;
        let n = s.len().min(LOG_CAP - at);
        self.aux[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
        self.aux_len += n as u32;
    }
    pub fn tape(&self) -> Vec<u32> {
        self.tape[..self.tape_len as usize].to_vec()
    }
    pub fn spans(&self) -> Vec<(u32, u32)> {
        self.spans[..self.span_len as usize].to_vec()
    }
    pub fn stats(&self) -> Vec<(String, u64)> {
        let mut v = vec![];
        for i in 0..STAT_CAP {
            let (p, n) = self.stat_name[i];
            if p == 0 {
                break;
            }
            let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n)) };
            v.push((s.to_string(), self.stat[i]));
        }
        v
    }
}

/// Count an event. Names are static strings, so the slot table is valid in the
/// worker and in its forked children alike.
pub fn stat_add(name: &'static str, n: u64) {
    if !ready() {
        return;
    }
    let s = shm();
    for i in 0..STAT_CAP {
        let (p, l) = s.stat_name[i];
        if p == 0 {
            s.stat_name[i] = (name.as_ptr() as usize, name.len());
            s.stat[i] = n;
            return;
        }
        if l == name.len() && (p == name.as_ptr() as usize || unsafe { std::slice::from_raw_parts(p as *const u8, l) } == name.as_bytes()) {
            s.stat[i] += n;
            return;
        }
    }
}

fn fnv(h: &mut u64, b: &[u8]) {
    for c in b {
        *h = (*h ^ u64::from(*c)).wrapping_mul(0x100_0000_01b3);
    }
}

/// Append one line to the event log of the run.
pub fn log_line(s: &str) {
    if !ready() {
        return;
    }
    let m = shm();
    fnv(&mut m.log_hash, s.as_bytes());
    fnv(&mut m.log_hash, b"\n");
    let at = m.log_len as usize;
    if at + s.len() + 1 <= LOG_CAP {
        m.log[at..at + s.len()].copy_from_slice(s.as_bytes());
        m.log[at + s.len()] = b'\n';
        m.log_len += s.len() as u32 + 1;
    }
}

pub fn sched_note(a: u64, b: u64) {
    let m = shm();
    fnv(&mut m.sched_hash, &a.to_le_bytes());
    fnv(&mut m.sched_hash, &b.to_le_bytes());
}

/// Fold an abstract state into the run's state hash (the measure of distinct
/// situations reached).
pub fn state_note(s: &str) {
    let m = shm();
    fnv(&mut m.state_hash, s.as_bytes());
}

/// Record a violation and end the process that runs the simulation. Only the
/// first one counts.
pub fn fail(class: &str, msg: &str) -> ! {
    let m = shm();
    if m.outcome == RUNNING {
        let n = class.len().min(m.class.len());
        m.class[..n].copy_from_slice(&class.as_bytes()[..n]);
        m.class_len = n as u32;
        let n = msg.len().min(MSG_CAP);
        m.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
        m.msg_len = n as u32;
        m.outcome = FAIL;
        crate::sched::flush_clock();
    }
    sys::exit_now(77)
}

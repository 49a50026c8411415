//! Runtime of the simulator: seams, scheduler, choice tape, run records. This
//! crate is never instrumented.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod run;
pub mod sched;
pub mod seam;
pub mod shm;
pub mod sys;
pub mod tape;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

static mut PANIC: [u8; 512] = [0; 512];
static mut PANIC_LEN: usize = 0;

/// Replaces the panic hook by one that only remembers the message.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        sched::app(|| {
            let s = format!(
                "{} at {}",
                i.payload()
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| i.payload().downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "(no message)".into()),
                i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
            );
            unsafe {
                let n = s.len().min(512);
                PANIC[..n].copy_from_slice(&s.as_bytes()[..n]);
                PANIC_LEN = n;
            }
        })
    }));
}

pub fn last_panic() -> String {
    unsafe { String::from_utf8_lossy(&PANIC[..PANIC_LEN]).into_owned() }
}

/// One line of the event log.
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::sched::app(|| $crate::shm::log_line(&format!($($a)*))) };
}

/// Ends the run with a violation.
#[macro_export]
macro_rules! violation {
    ($class:expr, $($a:tt)*) => { $crate::shm::fail($class, &$crate::sched::app(|| format!($($a)*))) };
}

#[inline]
pub fn stat(name: &'static str) {
    shm::stat_add(name, 1);
}

/// Counts a fault that actually took effect in this run.
pub fn fault(name: &'static str) {
    shm::stat_add(name, 1);
    shm::shm().nontrivial = 1;
}

pub fn nontrivial() {
    shm::shm().nontrivial = 1;
}

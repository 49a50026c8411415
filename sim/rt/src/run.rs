//! One run: fork, execute, collect. The child starts from the same process
//! image every time, so statics, allocator and entropy are as in a fresh
//! process and a run depends on its tape alone.
use crate::{alloc, sched, seam, shm, sys, tape};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, f: i32, ...) -> i32;
}

#[derive(Clone, Debug)]
pub enum Input {
    Seed(u64),
    Tape(Vec<u32>),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// `None` = the property held on this run.
    pub violation: Option<(String, String)>,
}

pub const CPU_LIMIT_S: u64 = 30;

/// Executes `f` in a forked child with the given source of choices.
pub fn exec(input: &Input, limit: u64, f: fn()) -> Outcome {
    let m = shm::shm();
    m.reset_run();
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            // Silence the abort message of the standard library.
            let fd = open(c"/dev/null".as_ptr(), 1);
            dup2(fd, 2);
            setrlimit(0, &[CPU_LIMIT_S, CPU_LIMIT_S + 1]); // RLIMIT_CPU
            setrlimit(4, &[0, 0]); // RLIMIT_CORE
            match input {
                Input::Seed(s) => tape::start_seed(*s),
                Input::Tape(t) => tape::start_tape(t.clone()),
            }
            seam::seed_entropy(0x5eed);
            alloc::reset_peak();
            sched::begin(limit);
            f();
            sched::flush_clock();
            sched::end();
            if m.outcome == shm::RUNNING {
                m.outcome = shm::PASS;
            }
            sys::exit_now(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let violation = match m.outcome {
            shm::PASS if st == 0 => None,
            shm::FAIL => Some((m.class(), m.msg())),
            _ => {
                let sig = st & 0x7f;
                Some(match sig {
                    24 | 9 => ("hang".into(), format!("no progress: the run used {CPU_LIMIT_S} s of processor time without finishing")),
                    0 => ("abort".into(), format!("the process ended by itself, status {}", st >> 8)),
                    s => ("crash".into(), format!("the process died of signal {s} (6 = abort or stack overflow, 11 = invalid memory access)")),
                })
            }
        };
        Outcome { violation }
    }
}

/// Executes `f` on a simulated thread of a forked copy of this machine and
/// waits for it. `f` draws no choices. Called from the main thread of a run.
pub fn twin(f: Box<dyn FnOnce() + Send>) {
    let m = shm::shm();
    unsafe {
        let pid = fork();
        if pid < 0 {
            sys::exit_now(72);
        }
        if pid == 0 {
            sched::run_one(f);
            sched::flush_clock();
            sys::exit_now(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if m.outcome != shm::RUNNING {
            sys::exit_now(77);
        }
        if st != 0 {
            shm::fail("crash", &format!("a machine died with wait status {st}"));
        }
        sched::add_steps(m.steps);
    }
}

/// Re-executes the program without address space randomisation.
pub fn fix_layout() {
    use std::os::unix::process::CommandExt;
    const NO_RANDOMIZE: u64 = 0x0004_0000;
    if std::env::var_os("YPSIM_ASLR").is_some() {
        return;
    }
    unsafe {
        let p = personality(0xffff_ffff);
        if p < 0 || (p as u64) & NO_RANDOMIZE != 0 {
            return;
        }
        if personality(p as u64 | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    let mut a = std::env::args_os();
    a.next();
    let e = std::process::Command::new("/proc/self/exe").args(a).exec();
    panic!("re-exec failed: {e}");
}

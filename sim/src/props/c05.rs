//! C05: concurrent calls do not influence each other.
use super::{
    calls::{self, Call},
    Prop,
};
use rt::{
    ev, fault, sched, shm,
    tape::{chance, choose, pick, range, span},
    violation,
};
use std::sync::{Arc, Mutex};
use sut::peer::Mode;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 60_000,
    limit: 6_000_000_000,
    rule: "2 to 4 simulated threads execute drawn programs of library calls (reading, writing, queries, conversations; valid, damaged and hostile data; callbacks that fail, panic or call the library themselves) with preemption inside library code, and each call is also executed alone, before or afterwards; non-trivial = a switch happened inside a call, a callback failed or panicked, or a call was made from inside another; distinct = different event log",
    measure: "hash of the schedule (thread and step of every switch); states: kinds of calls and their results in global order",
    stubs: &["thread scheduler", "process entropy", "application callbacks (values, visitors, serializers, sinks, representations)"],
    assumptions: &["preemption at control-flow edges, loads and stores of the library, its map crates and the instantiating crate; sequentially consistent memory"],
};

struct Step {
    call: Call,
    /// Result of the call alone.
    alone: Option<String>,
}

/// What the call gives when nothing else happens.
fn alone(c: &Call) -> String {
    let Some(f) = c.fuse() else { return c.exec().0 };
    let Some(inner) = f.inner.as_deref() else { return c.exec().0 };
    // A call made from inside this one must change neither.
    let (whole, fired) = c.exec();
    let mut outer = c.clone();
    let g = outer.fuse_mut();
    g.mode = Mode::Off;
    g.inner = None;
    let mut want = outer.exec().0;
    if fired {
        want = format!("{want}\nnested: {}", inner.exec().0);
        fault("fault:call_inside_callback");
    }
    if whole != want {
        violation!("influenced", "{} {}\nwith the inner call\n  {whole}\neach alone\n  {want}", c.name(), c.show());
    }
    want
}

fn step(t: usize, k: usize, s: &Step) -> String {
    let before = sched::switches();
    let (r, fired) = s.call.exec();
    if sched::switches() != before {
        fault("fault:preempted_inside_call");
    }
    if let (true, Some(f)) = (fired, s.call.fuse()) {
        fault(match f.mode {
            Mode::Panic => "fault:callback_panicked",
            Mode::Fail => "fault:callback_failed",
            _ => "fault:call_inside_callback",
        });
    }
    rt::stat(s.call.name());
    ev!("t{t}.{k} {} gave {:x}", s.call.name(), super::hash(&r));
    shm::state_note(s.call.name());
    check(&s.call, &r, s.alone.as_deref());
    r
}

fn check(c: &Call, r: &str, alone: Option<&str>) {
    if let Some(a) = alone {
        if a != r {
            violation!("influenced", "{} {}\nconcurrently\n  {r}\nalone\n  {a}", c.name(), c.show());
        }
    }
}

type Plan = (Vec<Vec<Step>>, usize);
type Done = Vec<(Call, String)>;

fn setup() -> Plan {
    let n = range(2, 4);
    let pool: Vec<Call> = (0..range(2, 5)).map(|_| span(calls::draw)).collect();
    let before = chance(2, 3);
    let v = (0..n)
        .map(|t| {
            (0..range(1, 4))
                .map(|k| {
                    let call = pool[choose(pool.len())].clone();
                    ev!("t{t}.{k} is {} {}", call.name(), call.show());
                    let alone = before.then(|| alone(&call));
                    Step { call, alone }
                })
                .collect()
        })
        .collect();
    (v, pick(&[0, 3, 20, 200, 2000]))
}

fn run() {
    static PLAN: Mutex<Option<Plan>> = Mutex::new(None);
    static DONE: Mutex<Done> = Mutex::new(vec![]);
    sched::run_one(Box::new(|| {
        let p = setup();
        *PLAN.lock().unwrap() = Some(p);
    }));
    let (plan, mean) = PLAN.lock().unwrap().take().unwrap();
    let plan = plan.into_iter().map(Arc::new).enumerate();
    let bodies = plan.map(|(t, steps)| -> Box<dyn FnOnce() + Send> {
        Box::new(move || {
            for (k, s) in steps.iter().enumerate() {
                let r = step(t, k, s);
                DONE.lock().unwrap().push((s.call.clone(), r));
                sched::yield_now();
            }
        })
    });
    sched::run_threads(mean, bodies.collect());
    sched::run_one(Box::new(|| {
        let d = std::mem::take(&mut *DONE.lock().unwrap());
        for (c, r) in &d {
            check(c, r, Some(&alone(c)));
        }
    }));
}

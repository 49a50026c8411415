//! C07: memory is released exactly once on every path.
use super::{
    c10::plain_mix,
    calls::{self, Call},
    lib, show, Prop,
};
use crate::gen::{self, Item, Val};
use rt::{
    alloc, ev, fault, sched, shm,
    tape::{chance, choose, pick, range, span},
    violation,
};
use std::fmt::Write;
use sut::{
    attempt, hooks,
    peer::{Mode, SVal},
    reprs::Faulty,
    schema::Sch,
    yp::{repr::*, Node},
};

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 120_000,
    limit: 8_000_000_000,
    rule: "calls with callbacks of the application that fail, panic or call the library again at a drawn point, each repeated with other contents of the same shape while the allocator keeps the books; documents with aliases and chains of aliases against the same text without them; non-trivial = a callback failed or panicked, the input was rejected, or aliases were loaded; distinct = different event log",
    measure: "kinds of calls, with the way they ended",
    stubs: &["allocator (with books per owner)", "application callbacks (values, visitors, serializers, sinks, representations, conversions, iterators, hashers)"],
    assumptions: &["memory obtained while library code runs, outside callbacks, is memory the call took"],
};

#[derive(Clone)]
enum Unit {
    Call(Call),
    Node(usize, Item, String, u64, usize),
}

impl Unit {
    fn name(&self) -> &'static str {
        match self {
            Self::Call(c) => c.name(),
            Self::Node(..) => "op:node_operation",
        }
    }

    fn show(&self) -> String {
        match self {
            Self::Call(c) => c.show(),
            Self::Node(k, i, t, n, r) => format!("{k} {} tag {t:?}, panic at {n}, representation {r}", gen::canon(i, &mut vec![], true)),
        }
    }

    /// Other contents of the same shape and size.
    fn salted(&self, salt: usize, style: usize) -> Self {
        let w = format!("u{salt:05}x");
        // What makes this round differ from the others: as a text, and the
        // same as a value.
        let u = match style {
            1 => format!("{w} and some more words behind it"),
            2 => w.repeat(70),
            3 => format!("{w}: \n# \"'"),
            4 => format!("{w}\nsecond line\n"),
            5 => format!("- {w}é中"),
            _ => w.clone(),
        };
        let line = match style {
            0..=2 => format!("- {u}"),
            3 => format!("- \"{w}: \\n# \\\"'\""),
            4 => format!("- |\n  {w}\n  second line"),
            5 => format!("- '- {w}é中'"),
            6 => format!("- {}", 70_000_000 + salt),
            7 => format!("- &{w} 1\n- *{w}"),
            8 => format!("- !{w} 1"),
            9 => format!("- [{w}, {{{w}: 1}}]"),
            _ => format!("- {w}: {}.5\n  x: y", 70_000 + salt),
        };
        let value: Val = match style {
            6 => Val::Int(70_000_000 + salt as i64),
            9 => Val::Seq(vec![Val::Str(w.clone()).into()]),
            10 => Val::Map(vec![(Val::Str(w.clone()).into(), Val::Float(70_000.5 + salt as f64).into())]),
            _ => Val::Str(u.clone()),
        };
        let mut value: Item = value.into();
        if style == 8 {
            value.tag = Some((format!("!{w}"), w.clone()));
        }
        let text = |t: &str| format!("{line}\n---\n{t}");
        let item = |i: &Item| -> Item { Val::Seq(vec![value.clone(), i.clone()]).into() };
        let mut me = self.clone();
        match &mut me {
            Self::Node(_, i, t, ..) => {
                *i = match &i.val {
                    Val::Map(v) => Val::Map(std::iter::once((Val::Str(u.clone()).into(), Val::Null.into())).chain(v.iter().cloned()).collect()).into(),
                    _ => item(i),
                };
                *t = format!("{t}{u}");
            }
            Self::Call(c) => match c {
                Call::Load(b, _) | Call::Sub(b, ..) | Call::Stream(b, _) => {
                    let mut v = text("").into_bytes();
                    v.extend_from_slice(b);
                    *b = v;
                }
                Call::Typed(t, _) | Call::Battery(t, ..) | Call::TextToVisitor(t, ..) | Call::ShowError(t, ..) | Call::Custom(t, ..) => *t = text(t),
                Call::Described(v, s, ..) => {
                    *s = Sch::Tuple(vec![Sch::Str, s.clone()]);
                    let item = |i: &Item| -> Item { Val::Seq(vec![Val::Str(u.clone()).into(), i.clone()]).into() };
                    v.iter_mut().for_each(|i| *i = item(i));
                }
                Call::Dump(v, _) => v.push(item(&Val::Null.into())),
                Call::Write(v, ..) => *v = SVal::Tuple(vec![SVal::Str(u), v.clone()]),
                Call::NodeToSerializer(i, _) | Call::NodeToVisitor(i, ..) | Call::PeerToNode(i, ..) | Call::Show(i, ..) => *i = item(i),
            },
        }
        me
    }

    /// Executes, forgets the result, and tells how it ended.
    fn exec(&self) -> &'static str {
        match self {
            Self::Call(c) => {
                let (r, fired) = c.exec();
                match c.fuse() {
                    Some(f) if fired => match f.mode {
                        Mode::Panic => "fault:callback_panicked",
                        Mode::Fail => "fault:callback_failed",
                        _ => "fault:call_inside_callback",
                    },
                    _ if r.starts_with("panic") => "probe:panicked",
                    _ if r.contains("error ") => "fault:input_rejected",
                    _ => "",
                }
            }
            Self::Node(k, i, t, n, r) => {
                hooks::arm(*n);
                let s = match r {
                    0 => attempt(|| hooks::node_program::<RcRepr>(*k, i, t)),
                    1 => attempt(|| hooks::node_program::<ArcRepr>(*k, i, t)),
                    _ => attempt(|| hooks::node_program::<Faulty>(*k, i, t)),
                };
                let fired = hooks::fired();
                if let Ok(s) = &s {
                    if s.starts_with("changed by") {
                        violation!("half-update", "{s}");
                    }
                }
                if fired {
                    "fault:callback_panicked"
                } else if s.is_err() {
                    "probe:panicked"
                } else {
                    ""
                }
            }
        }
    }
}

fn draw() -> Unit {
    if chance(1, 3) {
        let m = plain_mix();
        let at = if chance(1, 4) { 0 } else { range(1, pick(&[3, 10, 30])) as u64 };
        let kind = choose(hooks::KINDS);
        let mut d = gen::document(&m);
        if matches!(kind, 8 | 9) {
            d = match choose(6) {
                0 => Val::Bool(chance(1, 2)).into(),
                1 => gen::scalar(&m).into(),
                _ => Val::Seq((0..choose(5)).map(|_| gen::scalar(&m).into()).collect()).into(),
            };
        }
        return Unit::Node(kind, d, pick(&["", "t", "some-tag"]).into(), at, choose(3));
    }
    Unit::Call(calls::draw())
}

const STYLES: usize = 11;
const WARM: usize = 2;
const KEPT: usize = 4;

fn conservation() {
    let units: Vec<Unit> = (0..range(1, 3)).map(|_| span(draw)).collect();
    let salted = chance(2, 3).then(|| choose(STYLES));
    for u in &units {
        ev!("{} {}", u.name(), u.show());
        rt::stat(u.name());
        let mut last = alloc::sut_live();
        let first = last;
        let mut grew = vec![];
        for k in 0..WARM + KEPT {
            let v = match salted {
                Some(s) => u.salted(k, s),
                None => u.clone(),
            };
            let how = v.exec();
            drop(v);
            let now = alloc::sut_live();
            if k == 0 {
                shm::state_note(u.name());
                shm::state_note(how);
                ev!("  {how}");
            }
            if how.starts_with("fault:") {
                fault(how);
            }
            if k >= WARM {
                grew.push((now.0 as i64 - last.0 as i64, now.1 as i64 - last.1 as i64));
            }
            last = now;
            if k + 1 == WARM && last == first && salted.is_none() {
                break;
            }
        }
        if !grew.is_empty() && grew.iter().all(|g| g.0 > 0 || g.1 > 0) {
            violation!("leak", "{} {}\nis repeated and its results dropped; blocks and bytes that stay behind each time: {grew:?}", u.name(), u.show());
        }
    }
}

// ---- sharing ----

/// A document with definitions and uses of anchors. Gives its text with the
/// aliases and with as many nulls in their places.
fn aliases() -> (String, usize) {
    let mut s = String::new();
    let mut n = 0;
    let mut names: Vec<String> = vec![];
    let seq = chance(1, 2);
    let docs = if chance(1, 4) { 2 } else { 1 };
    let chain = chance(1, 2);
    for d in 0..docs {
        names.clear();
        if d > 0 {
            s += "---\n";
        }
        for k in 0..range(1, 9) {
            span(|| {
                let a = format!("a{k}");
                if seq {
                    write!(s, "- &{a}").unwrap();
                } else {
                    write!(s, "k{k}: &{a}").unwrap();
                }
                let m = range(1, 24);
                let flow = chance(1, 2);
                s += if flow { " [" } else { "\n" };
                for j in 0..m {
                    let alias = !names.is_empty() && (chain || chance(1, 3));
                    let v = if alias {
                        n += 1;
                        format!("*{}", if chain { names.last().unwrap().clone() } else { pick_name(&names) })
                    } else {
                        format!("text number {j}")
                    };
                    if flow {
                        write!(s, "{v}, ").unwrap();
                    } else {
                        writeln!(s, "  - {v}").unwrap();
                    }
                }
                if flow {
                    s += "]\n";
                }
                names.push(a);
            });
        }
    }
    (s, n)
}

fn pick_name(v: &[String]) -> String {
    v[choose(v.len())].clone()
}

fn held<R: Repr>(text: &str, cyclic: bool) -> (usize, usize, usize) {
    let live = alloc::sut_live().1;
    alloc::reset_peak();
    alloc::QUOTA.store(live + (32 << 20), std::sync::atomic::Ordering::Relaxed);
    let r = lib("loading a document with aliases", || sut::load_keep::<R>(text.as_bytes(), cyclic));
    alloc::QUOTA.store(0, std::sync::atomic::Ordering::Relaxed);
    let peak = alloc::SUT_PEAK.load(std::sync::atomic::Ordering::Relaxed) - live;
    let took = alloc::sut_live().1 - live;
    let Ok((v, a)) = r else {
        ev!("  rejected");
        return (0, 0, 0);
    };
    // Copies of handles share the document.
    let before = alloc::sut_live().1;
    let n = v.len();
    let copies: Vec<Vec<Node<R>>> = lib("cloning", || (0..8).map(|_| v.iter().map(sut::clone_node).collect()).collect());
    let cost = alloc::sut_live().1 - before;
    if cost > n * 8 * 256 + 1024 {
        violation!("copied", "8 handles to a loaded document of {took} bytes take {cost} bytes more");
    }
    let part: Option<Node<R>> = lib("getting a part", || v.first().and_then(|n| sut::seq_of(n).pop()));
    lib("dropping", || drop(v));
    lib("dropping", || drop(copies));
    lib("dropping", || drop(a));
    if let Some(p) = part {
        let _ = lib("reading a part that outlives the document", || sut::seq_of(&p).len());
        lib("dropping", || drop(p));
    }
    let left = alloc::sut_live().1 as i64 - live as i64;
    (took, peak, left.max(0) as usize)
}

fn sharing() {
    rt::stat("op:load_with_aliases");
    let (text, n) = aliases();
    if n == 0 {
        return;
    }
    fault("fault:aliases");
    let mut plain = String::new();
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if c == '*' {
            // `*a1` and `~  ` are as long as each other.
            plain.push('~');
            while it.peek().is_some_and(|c| c.is_alphanumeric()) {
                it.next();
            }
        } else {
            plain.push(c);
        }
    }
    ev!("{n} aliases in\n   {}", show(text.as_bytes()));
    let cyclic = chance(1, 4);
    let arc = chance(1, 2);
    let go = |t: &str| {
        if arc {
            held::<ArcRepr>(t, cyclic)
        } else {
            held::<RcRepr>(t, cyclic)
        }
    };
    go(&plain);
    let base = go(&plain);
    let got = go(&text);
    let again = go(&text);
    ev!("  with null {base:?}, with aliases {got:?}");
    if base.0 == 0 || got.0 == 0 {
        rt::stat("probe:alias_document_rejected");
        return;
    }
    if again.2 > 0 && got.2 > 0 {
        violation!("leak", "a document with aliases was loaded and dropped twice; bytes that stayed behind: {} and {}", got.2, again.2);
    }
    if got.0 > base.0 + n * 160 + 512 {
        violation!("copied", "with {n} aliases the document takes {} bytes, with nulls in their places {}", got.0, base.0);
    }
    if got.1 > 2 * base.1 + n * 400 + 4096 {
        violation!("copied", "with {n} aliases loading takes up to {} bytes, with nulls in their places {}", got.1, base.1);
    }
    shm::state_note(&format!("{} {}", n.min(30), got.0 / 4096));
}

fn run() {
    super::c01::PURE.store(true, std::sync::atomic::Ordering::Relaxed);
    sched::run_one(Box::new(|| {
        if chance(1, 5) {
            sharing();
        } else {
            conservation();
        }
    }));
}

//! C10: a peer that fails midway gets its error reported and nothing after it.
use super::{
    lib,
    typed::{fitting, schema, told},
    Prop,
};
use crate::gen::{self, Item};
use rt::{
    ev, fault, sched, shm,
    tape::{chance, choose, pick, range, span, word},
    violation,
};
use sut::{
    canon::canon,
    guard,
    model::build,
    peer::{self, Mode, Report, SVal, Seed, Sink, TDe, FAIL, HINTS},
    schema::{self as sch, Sch},
    yp::{repr::*, Node},
};

pub const PROP: Prop = Prop {
    id: "C10",
    run: || sched::run_one(Box::new(run)),
    quick: 300_000,
    limit: 4_000_000_000,
    rule: "a conversation (value into node or text, node into a serializer, node or text into a visitor, deserializer into node, formatting into a sink) is held undisturbed and with the peer failing at one or more drawn calls, in a drawn order; non-trivial = a failure fired at a call behind the first one; distinct = different event log (conversation, data, failing call, result)",
    measure: "hash of kind of conversation, number of calls and failing call",
    stubs: &["the peer (value, serializer, visitor and seeds, deserializer, output sink)", "process entropy"],
    assumptions: &["a peer that is called again after it has failed has been sent further data"],
};

const NAMES: &[&str] = &["a", "b", "key", "name", "x y", "", "true", "1", "é", "- z"];

pub fn sval(m: &gen::Mix, depth: usize) -> SVal {
    span(|| {
        let kids = |n: usize| -> Vec<SVal> { (0..n).map(|_| sval(m, depth - 1)).collect() };
        let n = if depth > 0 { choose(m.width + 1) } else { 0 };
        // Long ones of small parts.
        let (n, depth) = if depth > 0 && chance(1, 40) { (pick(&[9usize, 17, 33, 65, 130]), 1) } else { (n, depth) };
        let fields = |n: usize| -> Vec<(&'static str, SVal)> { NAMES.iter().take(n).map(|k| (*k, sval(m, depth - 1))).collect() };
        match choose(if depth == 0 { 20 } else { 32 }) {
            0 => SVal::Str(gen::string(m)),
            1 => SVal::I64(gen::int(m)),
            2 => SVal::Bool(chance(1, 2)),
            3 => SVal::F64(gen::float()),
            4 => SVal::Unit,
            5 => SVal::I8(choose(256) as u8 as i8),
            6 => SVal::I16(choose(65536) as u16 as i16),
            7 => SVal::I32(word() as i32),
            8 => SVal::I128(pick(&[0, -1, i128::MAX, i128::MIN, 1 << 70])),
            9 => SVal::U8(choose(256) as u8),
            10 => SVal::U16(choose(65536) as u16),
            11 => SVal::U32(word() as u32),
            12 => SVal::U64(if chance(1, 2) { u64::MAX } else { choose(100) as u64 }),
            13 => SVal::U128(pick(&[0, u128::MAX, 1 << 64])),
            14 => SVal::F32(pick(&[0., 0.1, -2.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 1e10])),
            15 => SVal::Char(gen::ch()),
            16 => SVal::None,
            17 => SVal::UnitStruct,
            18 => SVal::UnitVariant(pick(NAMES)),
            19 => SVal::Bytes((0..if chance(1, 20) { 300 } else { choose(4) }).map(|_| choose(256) as u8).collect()),
            20 => SVal::Some(Box::new(sval(m, depth - 1))),
            21 => SVal::Newtype(Box::new(sval(m, depth - 1))),
            22 => SVal::NewtypeVariant(pick(NAMES), Box::new(sval(m, depth - 1))),
            23 | 24 => SVal::Seq(kids(n), choose(HINTS) as u8),
            25 => SVal::Tuple(kids(n)),
            26 => SVal::TupleStruct(kids(n)),
            27 => SVal::TupleVariant(pick(NAMES), kids(n)),
            28 | 29 => {
                let v = (0..n)
                    .map(|k| {
                        // Some keys come twice.
                        let k = if chance(1, 8) { choose(k + 1) } else { k };
                        let key = match choose(3) {
                            0 => SVal::Str(format!("k{k}")),
                            1 => SVal::I32(k as i32),
                            _ => SVal::Seq(vec![SVal::U8(k as u8)], choose(HINTS) as u8),
                        };
                        (key, sval(m, depth - 1))
                    })
                    .collect();
                SVal::Map(v, chance(1, 2), choose(HINTS) as u8)
            }
            30 => SVal::Struct(fields(n)),
            _ => SVal::StructVariant(pick(NAMES), fields(n)),
        }
    })
}

pub fn plain_mix() -> gen::Mix {
    let mut m = gen::mix();
    m.anchors = false;
    m.aliases = false;
    m.depth = m.depth.min(3);
    m.width = m.width.min(4);
    m
}

/// How a conversation ended.
#[derive(PartialEq, Debug, Clone)]
enum End {
    /// With a text that identifies the result.
    Ok(String),
    /// The peer's own error, unchanged.
    Mine,
    /// Another error.
    Other(String),
}

enum Talk {
    ValueToNode(SVal, bool),
    ValueToText(SVal),
    NodeToSerializer(Item, bool),
    NodeToVisitor(Item, bool, Seed, bool),
    /// Every question fits the content.
    NodeFitting(Item, bool, u64, bool),
    TextToVisitor(Vec<Item>, String, Seed),
    /// A read of a described type.
    NodeToType(Item, Sch, bool, bool),
    PeerToNode(Item, u64, bool),
    NodeToSink(Item, bool, bool),
    ErrorToSink(String, usize, usize),
}

fn serde_end<T>(r: Result<T, sut::yp::serde::SerdeError>, f: impl FnOnce(T) -> String) -> End {
    match r {
        Ok(v) => End::Ok(f(v)),
        Err(e) if e.msg == FAIL => End::Mine,
        Err(e) => End::Other(e.msg),
    }
}

fn peer_end<T>(r: Result<T, peer::PeerErr>, f: impl FnOnce(T) -> String) -> End {
    match r {
        Ok(v) => End::Ok(f(v)),
        Err(e) if e == peer::mine() => End::Mine,
        Err(e) => End::Other(format!("{e:?}")),
    }
}

impl Talk {
    fn draw() -> Self {
        let m = plain_mix();
        let doc = || gen::document(&m);
        let arc = chance(1, 3);
        match choose(13) {
            11 | 12 => Self::NodeFitting(doc(), arc, word(), chance(1, 3)),
            0 => Self::ValueToNode(sval(&m, m.depth), arc),
            1 => Self::ValueToText(sval(&m, m.depth)),
            2 => Self::NodeToSerializer(doc(), arc),
            3 => Self::NodeToVisitor(doc(), arc, Seed::new(pick(&[0, word()]), true), chance(1, 3)),
            4 => Self::NodeToVisitor(doc(), arc, Seed::new(word(), false), chance(1, 3)),
            5 => {
                let v: Vec<Item> = (0..range(1, 3)).map(|_| doc()).collect();
                let n: Vec<Node<RcRepr>> = v.iter().map(build).collect();
                let t = lib("dumping", || sut::dump_rc(&n));
                Self::TextToVisitor(v, t, Seed::new(pick(&[0, word() >> 2]), true))
            }
            6 => Self::PeerToNode(doc(), word(), arc),
            7 => Self::NodeToSink(doc(), chance(1, 2), arc),
            8 | 9 => {
                let s = schema(range(1, 4));
                Self::NodeToType(fitting(&s), s, arc, chance(1, 2))
            }
            _ => Self::ErrorToSink(pick(&["- !e!x 1\n", "- 'x", "{a b}", "a: &x\n  *y", "é: {"]).into(), choose(3), choose(3)),
        }
    }

    fn name(&self) -> &'static str {
        match self {
            Self::ValueToNode(..) => "op:value_to_node",
            Self::ValueToText(..) => "op:value_to_text",
            Self::NodeToSerializer(..) => "op:node_to_serializer",
            Self::NodeToVisitor(..) => "op:node_to_visitor",
            Self::NodeFitting(..) => "op:node_to_fitting_visitor",
            Self::TextToVisitor(..) => "op:text_to_visitor",
            Self::NodeToType(..) => "op:node_to_type",
            Self::PeerToNode(..) => "op:deserializer_to_node",
            Self::NodeToSink(..) => "op:node_to_sink",
            Self::ErrorToSink(..) => "op:error_to_sink",
        }
    }

    fn show(&self) -> String {
        match self {
            Self::ValueToNode(v, _) | Self::ValueToText(v) => format!("{v:?}"),
            Self::NodeToSerializer(i, _) | Self::PeerToNode(i, ..) | Self::NodeToSink(i, ..) => gen::canon(i, &mut vec![], true),
            Self::NodeToVisitor(i, _, s, _) => format!("{} asked with {:x} {}", gen::canon(i, &mut vec![], true), s.salt, s.total),
            Self::NodeToType(i, s, _, parsed) => format!("{} as {s:?}{}", gen::canon(i, &mut vec![], true), if *parsed { " parsed" } else { "" }),
            Self::NodeFitting(i, _, s, parsed) => format!("{} asked with {s:x} as fits{}", gen::canon(i, &mut vec![], true), if *parsed { " parsed" } else { "" }),
            Self::TextToVisitor(_, t, s) => format!("{t:?} asked with {:x}", s.salt),
            Self::ErrorToSink(t, ..) => t.clone(),
        }
    }

    /// Holds the conversation, with the fuse armed by the caller.
    fn hold(&self) -> Result<(End, Report), String> {
        fn go<R: Repr>(t: &Talk) -> End {
            match t {
                Talk::NodeToSerializer(i, _) => {
                    let n = sched::app(|| build::<R>(i));
                    peer_end(sut::node_into_serializer(&n), |()| String::new())
                }
                Talk::NodeToVisitor(i, _, s, parsed) => {
                    let n = sched::app(|| build::<R>(i));
                    let n = if *parsed { sut::parse::<R>(&sut::yp::dump(&[n], &[])).unwrap().remove(0) } else { n };
                    serde_end(sut::node_into_visitor(&n, *s), |()| String::new())
                }
                Talk::NodeFitting(i, _, s, parsed) => {
                    let n = sched::app(|| build::<R>(i));
                    let n = if *parsed { sut::parse::<R>(&sut::yp::dump(&[n], &[])).unwrap().remove(0) } else { n };
                    serde_end(sut::node_into_visitor(&n, Seed::fitting(*s, i)), |()| String::new())
                }
                Talk::NodeToType(i, s, _, parsed) => {
                    let n = sched::app(|| build::<R>(i));
                    let n = if *parsed { sut::parse::<R>(&sut::yp::dump(&[n], &[])).unwrap().remove(0) } else { n };
                    serde_end(sch::read(&n, s), |()| String::new())
                }
                Talk::PeerToNode(i, s, _) => peer_end(sut::node_from_peer::<R>(TDe(i, *s)), |n| canon(&n, false, false)),
                Talk::NodeToSink(i, alt, _) => {
                    let n = sched::app(|| build::<R>(i));
                    let mut s = Sink::default();
                    match sut::node_to_sink(&n, *alt, &mut s) {
                        Ok(()) => End::Ok(s.0),
                        Err(_) => End::Mine,
                    }
                }
                _ => unreachable!(),
            }
        }
        let e = guard(|| match self {
            Self::ValueToNode(v, true) => serde_end(sut::to_node_arc(v), |n| canon(&n, false, false)),
            Self::ValueToNode(v, false) => serde_end(sut::to_node_rc(v), |n| canon(&n, false, false)),
            Self::ValueToText(v) => serde_end(sut::to_text(v), |t| t),
            Self::TextToVisitor(_, t, s) => {
                peer::plan(s.salt, s.total);
                serde_end(sut::text_into_visitor(t), |v| v.len().to_string())
            }
            Self::ErrorToSink(t, how, kind) => {
                let mut s = Sink::default();
                let r = if *kind == 0 {
                    let e = sut::yp::serde::from_str::<u8>(t).err().expect("an error");
                    sut::show_to_sink(&e, *how, &mut s)
                } else {
                    let e = sut::parse_rc(t).err().expect("an error");
                    sut::show_to_sink(&e, *how, &mut s)
                };
                match r {
                    Ok(()) => End::Ok(s.0),
                    Err(_) => End::Mine,
                }
            }
            Self::NodeToSerializer(_, true) | Self::NodeToVisitor(_, true, ..) | Self::NodeFitting(_, true, ..) | Self::NodeToType(_, _, true, _) | Self::PeerToNode(_, _, true) | Self::NodeToSink(_, _, true) => go::<ArcRepr>(self),
            _ => go::<RcRepr>(self),
        });
        let r = peer::report();
        e.map(|e| (e, r))
    }

    fn undisturbed(&self) -> (End, Report) {
        peer::arm(Mode::Off, 0);
        let (e, r) = match sched::budget(400_000_000, || self.hold()) {
            Ok(x) => x,
            Err(p) => violation!("panic", "an undisturbed conversation panicked: {p}"),
        };
        if e == End::Mine {
            violation!("phantom-error", "the peer did not fail, but its error was reported");
        }
        // The reference: what the peer must have seen, and the result.
        let want: Option<Vec<String>> = match self {
            Self::NodeToSerializer(i, _) => {
                let mut v = vec![];
                peer::ser_trace(i, &mut v);
                Some(v)
            }
            Self::ValueToNode(v, _) | Self::ValueToText(v) => {
                let mut t = vec![];
                v.trace(&mut t);
                Some(t)
            }
            Self::NodeToVisitor(i, _, s, _) if s.total => {
                let mut v = vec![];
                peer::vis_trace(i, *s, &mut v);
                Some(v)
            }
            Self::NodeFitting(i, _, s, _) => {
                let mut v = vec![];
                peer::fit_trace(i, Seed::fitting(*s, i), &mut v);
                Some(v)
            }
            Self::NodeToType(i, s, ..) => {
                let mut v = vec![];
                told(s, i, &mut v);
                Some(v)
            }
            Self::TextToVisitor(d, _, s) => {
                peer::plan(s.salt, s.total);
                let s = peer::planned();
                let mut v = vec![];
                d.iter().for_each(|i| peer::vis_trace(i, s, &mut v));
                Some(v)
            }
            _ => None,
        };
        if let Some(w) = want {
            if let End::Other(e) = &e {
                violation!("undisturbed-failed", "nobody failed, but the conversation ended with: {e}");
            }
            if !peer::agree(&w, &r.trace) {
                violation!("items-differ", "the peer must receive\n  {}\nand received\n  {}", w.join(" "), r.trace.join(" "));
            }
        }
        let want = match self {
            // Which of two equal keys stays is up to the map.
            Self::ValueToNode(v, _) if !v.twice() => Some(v.canon()),
            Self::PeerToNode(i, ..) => Some(gen::canon(i, &mut vec![], false)),
            _ => None,
        };
        if let Some(w) = want {
            if e != End::Ok(w.clone()) {
                violation!("result-differs", "the result must be\n  {w}\nand is\n  {e:?}");
            }
        }
        (e, r)
    }
}

fn defaults() {
    // A factory of a default that fails.
    rt::stat("op:default_factory");
    let m = plain_mix();
    let d = gen::document(&m);
    let n: Node<RcRepr> = build(&d);
    let calls = std::cell::Cell::new(0);
    let fails = chance(1, 2);
    let mut key = gen::string(&m);
    if let (sut::yp::Yaml::Map(m), true) = (n.yaml(), chance(2, 3)) {
        let own: Vec<_> = m.keys().filter_map(|k| k.as_str().ok()).collect();
        if !own.is_empty() {
            key = pick(&own).to_string();
        }
    }
    let has = matches!(n.yaml(), sut::yp::Yaml::Map(_)) && n.get(key.as_str()).is_ok();
    let is_map = matches!(n.yaml(), sut::yp::Yaml::Map(_));
    let r = lib("reading with a default", || {
        n.get_default(key.as_str(), 7u8, |x| {
            calls.set(calls.get() + 1);
            let _ = x.pos();
            if fails {
                Err(4711)
            } else {
                Ok(3)
            }
        })
    });
    let want = if has {
        if fails {
            Err(4711)
        } else {
            Ok(3)
        }
    } else if is_map {
        Ok(7)
    } else {
        r
    };
    if r != want || calls.get() != u32::from(has) {
        violation!("default-factory", "key {key:?} present {has}: got {r:?} after {} calls", calls.get());
    }
}

fn run() {
    if chance(1, 12) {
        return defaults();
    }
    let t = Talk::draw();
    rt::stat(t.name());
    ev!("{} {}", t.name(), t.show());
    shm::state_note(t.name());
    let first = chance(1, 2);
    let mut full = first.then(|| t.undisturbed());
    // The number of calls is needed to place the failures.
    let calls = match &full {
        Some((_, r)) => r.calls,
        None => 64,
    };
    if calls == 0 {
        return;
    }
    let mut cut = vec![];
    for _ in 0..range(1, 4) {
        let n = 1 + choose(calls as usize) as u64;
        peer::arm(Mode::Fail, n);
        match sched::budget(400_000_000, || t.hold()) {
            Ok((e, r)) => {
                ev!("  fails at call {n}: {}", if r.fired { "yes" } else { "not reached" });
                if r.fired {
                    rt::stat("fault:peer_failed");
                    if n > 1 {
                        fault("fault:peer_failed_midway");
                    }
                    shm::state_note(&n.to_string());
                }
                cut.push((n, e, r));
            }
            Err(p) => violation!("panic", "with the peer failing at call {n}: {p}"),
        }
    }
    let (end, all) = full.take().unwrap_or_else(|| t.undisturbed());
    shm::state_note(&all.calls.to_string());
    for (n, e, r) in cut {
        if r.fired {
            if e != End::Mine {
                violation!("error-changed", "the peer failed at call {n} of {} with {FAIL:?}, the result was {e:?}", all.calls);
            }
            if r.after > 0 {
                violation!("data-after-failure", "{} calls came after the peer had failed at call {n} of {}", r.after, all.calls);
            }
        } else if e != end {
            violation!("result-differs", "two undisturbed conversations ended differently: {e:?} and {end:?}");
        }
        if r.trace.len() > all.trace.len() || r.trace != all.trace[..r.trace.len()] || (r.fired && r.trace.len() as u64 != n) || (!r.fired && r.trace.len() != all.trace.len()) {
            violation!("not-a-prefix", "up to the failure at call {n} the peer received\n  {}\nundisturbed\n  {}", r.trace.join(" "), all.trace.join(" "));
        }
    }
}

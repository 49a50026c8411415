//! Programs of library calls, drawn before they run and executable anywhere:
//! alone, on a simulated thread, inside a callback of another call, in a twin
//! process. The result of a call is a text that holds everything observable.
use super::c10::{plain_mix, sval};
use super::{
    c01, c08,
    typed::{fitting, schema, spots},
};
use crate::{
    fault,
    gen::{self, Item},
};
use rt::{
    sched,
    tape::{chance, choose, pick, range, word},
};
use std::{cell::RefCell, fmt::Write, rc::Rc};
use sut::{
    attempt,
    canon::canon,
    model::build,
    peer::{self, Mode, SVal, Seed, Sink, TDe},
    probe, reprs,
    schema::{self as sch, Sch},
    stream::{self, Got, Reader},
    yp::{
        parser::{Anchors, PError},
        repr::*,
        Node,
    },
};

#[derive(Clone)]
pub enum Call {
    Load(Vec<u8>, usize),
    Typed(String, usize),
    Battery(String, [usize; 3], bool),
    Dump(Vec<Item>, bool),
    Sub(Vec<u8>, usize, usize, usize, bool),
    Stream(Vec<u8>, bool),
    /// A value of the application becomes text or a node.
    Write(SVal, usize, Fuse),
    NodeToSerializer(Item, Fuse),
    NodeToVisitor(Item, Seed, Fuse),
    TextToVisitor(String, Seed, Fuse),
    PeerToNode(Item, u64, Fuse),
    /// Values read as the type they fit, or nearly.
    Described(Vec<Item>, Sch, usize, Fuse),
    Show(Item, bool, Fuse),
    ShowError(String, usize, Fuse),
    /// Representation of the application.
    Custom(String, usize, Fuse),
}

#[derive(Clone)]
pub struct Fuse {
    pub mode: Mode,
    pub at: u64,
    /// For `Mode::Nest`.
    pub inner: Option<Box<Call>>,
}

fn fuse(nest: bool) -> Fuse {
    let mode = match choose(if nest { 5 } else { 4 }) {
        0 => Mode::Off,
        1 => Mode::Fail,
        2 | 3 => Mode::Panic,
        _ => Mode::Nest,
    };
    let at = match mode {
        Mode::Off => 0,
        _ => range(1, pick(&[3, 12, 60])) as u64,
    };
    let inner = (mode == Mode::Nest).then(|| Box::new(simple()));
    Fuse { mode, at, inner }
}

/// A text that is valid, damaged or hostile.
pub fn bytes() -> Vec<u8> {
    if chance(1, 12) {
        // Near the limit of nesting, on both sides of it.
        let n = range(1, 140);
        let (a, b, c) = pick(&[("[", "x", "]"), ("{a: ", "x", "}"), ("- ", "x", ""), ("? ", "x", ""), ("[{a: ", "x", "}]")]);
        return format!("{}{b}{}\n", a.repeat(n), c.repeat(n)).into_bytes();
    }
    let mut b = c01::stream_bytes();
    for _ in 0..choose(3) {
        fault::damage(&mut b);
    }
    b.truncate(4000);
    b
}

fn text() -> String {
    String::from_utf8_lossy(&bytes()).into_owned()
}

fn simple() -> Call {
    match choose(6) {
        0 => Call::Load(bytes(), choose(6)),
        1 => Call::Typed(text(), choose(probe::FAMILY)),
        2 => Call::Battery(text(), [choose(probe::FAMILY), choose(probe::FAMILY), choose(probe::FAMILY)], chance(1, 2)),
        3 => {
            let m = plain_mix();
            Call::Dump((0..range(1, 3)).map(|_| gen::document(&m)).collect(), chance(1, 2))
        }
        4 => {
            let b = bytes();
            let at = fault::place(&b);
            Call::Sub(b, at, choose(26), choose(5), chance(1, 2))
        }
        _ => {
            let mut b = vec![];
            if chance(1, 2) {
                b.extend_from_slice(gen::PRELUDE.as_bytes());
            }
            let m = gen::small_mix();
            for _ in 0..range(2, 4) {
                let mut s = String::new();
                if chance(1, 3) {
                    c08::bad_piece(&m, &mut s);
                } else {
                    s = gen::render_doc(&m, &gen::document(&m), true).out;
                }
                b.extend_from_slice(s.as_bytes());
            }
            Call::Stream(b, chance(1, 2))
        }
    }
}

pub fn draw() -> Call {
    if chance(1, 2) {
        return simple();
    }
    let m = plain_mix();
    match choose(10) {
        0 => Call::Write(sval(&m, m.depth), choose(3), fuse(true)),
        1 => Call::NodeToSerializer(gen::document(&m), fuse(true)),
        2 => Call::NodeToVisitor(gen::document(&m), Seed::new(word(), chance(1, 2)), fuse(true)),
        3 => Call::TextToVisitor(text(), Seed::new(word() >> 2, chance(1, 2)), fuse(true)),
        4 => Call::PeerToNode(gen::document(&m), word(), fuse(true)),
        5 => Call::Show(gen::document(&m), chance(1, 2), fuse(true)),
        8 | 9 => described(),
        6 => Call::ShowError(text(), choose(3), fuse(true)),
        _ => Call::Custom(text(), choose(4), fuse(true)),
    }
}

fn described() -> Call {
    let s = schema(range(1, 4));
    let mut v: Vec<Item> = (0..range(1, 4)).map(|_| fitting(&s)).collect();
    if chance(1, 4) {
        // One wrong value.
        let last = v.len() - 1;
        let mut all = vec![];
        spots(&s, &v[last], &mut vec![], &mut all);
        let (way, mut no) = all.swap_remove(choose(all.len()));
        if !no.is_empty() {
            *crate::props::typed::at(&mut v[last], &way) = no.swap_remove(choose(no.len()));
        }
    }
    Call::Described(v, s, choose(4), fuse(true))
}

fn err(e: &PError) -> String {
    format!("error {} {e} {e:?}", sut::err_name(e))
}

fn nodes<R: Repr>(v: &[Node<R>]) -> String {
    let mut s = String::new();
    for n in v {
        s += &canon(n, true, true);
        s.push('\n');
    }
    s
}

fn tables<R: Repr>(v: &[Anchors<R>]) -> String {
    let mut s = String::new();
    for a in v {
        for (k, n) in a {
            writeln!(s, "&{k} {}", canon(n, true, true)).unwrap();
        }
        s.push_str("--\n");
    }
    s
}

fn loaded<R: Repr>(r: Result<Vec<Node<R>>, PError>) -> String {
    r.map_or_else(|e| err(&e), |v| nodes(&v))
}

fn cyclic<R: Repr>(r: Result<(Vec<Node<R>>, Vec<Anchors<R>>), PError>) -> String {
    r.map_or_else(|e| err(&e), |(v, a)| nodes(&v) + &tables(&a))
}

fn small<R: Repr>(v: &[Node<R>]) -> bool {
    v.iter().all(|n| probe::expanded(n, 800) < 800)
}

fn serr(e: &sut::yp::serde::SerdeError) -> String {
    format!("error {} @{} {e}", e.msg, e.pos)
}

impl Call {
    pub fn name(&self) -> &'static str {
        match self {
            Self::Load(..) => "op:load",
            Self::Typed(..) => "op:typed_read",
            Self::Battery(..) => "op:queries",
            Self::Dump(..) => "op:dump",
            Self::Sub(..) => "op:sub_parser",
            Self::Stream(..) => "op:document_by_document",
            Self::Write(..) => "op:typed_write",
            Self::NodeToSerializer(..) => "op:node_to_serializer",
            Self::NodeToVisitor(..) => "op:node_to_visitor",
            Self::TextToVisitor(..) => "op:text_to_visitor",
            Self::Described(..) => "op:described_type",
            Self::PeerToNode(..) => "op:deserializer_to_node",
            Self::Show(..) => "op:debug_to_sink",
            Self::ShowError(..) => "op:error_to_sink",
            Self::Custom(..) => "op:application_representation",
        }
    }

    pub fn fuse(&self) -> Option<&Fuse> {
        match self {
            Self::Write(.., f)
            | Self::NodeToSerializer(_, f)
            | Self::NodeToVisitor(.., f)
            | Self::TextToVisitor(.., f)
            | Self::PeerToNode(.., f)
            | Self::Described(.., f)
            | Self::Show(.., f)
            | Self::ShowError(.., f)
            | Self::Custom(.., f) => Some(f),
            _ => None,
        }
    }

    pub fn fuse_mut(&mut self) -> &mut Fuse {
        match self {
            Self::Write(.., f)
            | Self::NodeToSerializer(_, f)
            | Self::NodeToVisitor(.., f)
            | Self::TextToVisitor(.., f)
            | Self::PeerToNode(.., f)
            | Self::Described(.., f)
            | Self::Show(.., f)
            | Self::ShowError(.., f)
            | Self::Custom(.., f) => f,
            _ => unreachable!(),
        }
    }

    pub fn show(&self) -> String {
        let i = |i: &Item| gen::canon(i, &mut vec![], true);
        let mut s = match self {
            Self::Load(b, k) => format!("{k} {}", super::show(b)),
            Self::Sub(b, at, w, ..) => format!("{w} at {at} {}", super::show(b)),
            Self::Stream(b, _) => super::show(b),
            Self::Typed(t, k) => format!("{k} {t:?}"),
            Self::Battery(t, ..) | Self::TextToVisitor(t, ..) | Self::ShowError(t, ..) | Self::Custom(t, ..) => format!("{t:?}"),
            Self::Dump(v, _) => v.iter().map(|d| i(d) + " ").collect(),
            Self::Write(v, k, _) => format!("{k} {v:?}"),
            Self::Described(v, s, k, _) => format!("{k} {s:?} {}", v.iter().map(|d| i(d) + " ").collect::<String>()),
            Self::NodeToSerializer(d, _) | Self::NodeToVisitor(d, ..) | Self::PeerToNode(d, ..) | Self::Show(d, ..) => i(d),
        };
        if let Some(f) = self.fuse() {
            if f.mode != Mode::Off {
                write!(s, " {:?} at {}", f.mode, f.at).unwrap();
            }
            if let Some(c) = &f.inner {
                write!(s, " ({} {})", c.name(), c.show()).unwrap();
            }
        }
        s
    }

    /// Executes the call on this thread. The flag tells whether the fuse blew.
    pub fn exec(&self) -> (String, bool) {
        let nested = Rc::new(RefCell::new(None));
        let mut fired = false;
        if let Some(f) = self.fuse() {
            if let Some(c) = f.inner.clone() {
                let out = nested.clone();
                peer::nest(Some(Box::new(move || {
                    let r = c.exec().0;
                    *out.borrow_mut() = Some(r);
                })));
            }
            if let Self::Custom(..) = self {
                match f.mode {
                    Mode::Nest => reprs::arm_nested(f.at),
                    Mode::Panic => reprs::arm(f.at),
                    _ => reprs::disarm(),
                }
            } else {
                peer::arm(f.mode, f.at);
            }
        }
        let r = attempt(|| self.body());
        if self.fuse().is_some() {
            if let Self::Custom(..) = self {
                fired = reprs::fired();
                reprs::disarm();
            } else {
                fired = peer::report().fired;
            }
            peer::nest(None);
        }
        let mut s = r.unwrap_or_else(|p| format!("panic {p}"));
        if let Some(n) = nested.borrow_mut().take() {
            fired = true;
            s = format!("{s}\nnested: {n}");
        }
        (s, fired)
    }

    fn body(&self) -> String {
        match self {
            Self::Load(b, k) => match k {
                0 => loaded(sut::load_rc(b)),
                1 => loaded(sut::load_arc(b)),
                2 => cyclic(sut::load_cyclic::<RcRepr>(b)),
                3 => cyclic(sut::load_cyclic::<ArcRepr>(b)),
                4 => loaded(sut::parse_arc(&String::from_utf8_lossy(b))),
                _ => cyclic(sut::parse_cyclic_rc(&String::from_utf8_lossy(b))),
            },
            Self::Typed(t, i) => probe::typed_str(t, *i),
            Self::Battery(t, p, arc) => {
                fn go<R: Repr>(t: &str, p: &[usize]) -> String {
                    let v = match sut::load_cyclic::<R>(t.as_bytes()) {
                        Ok(v) => v,
                        Err(e) => return err(&e),
                    };
                    let none = Anchors::new();
                    let mut s = String::new();
                    for (i, n) in v.0.iter().enumerate().take(3) {
                        if small(std::slice::from_ref(n)) {
                            s += &probe::battery(n, v.1.get(i).unwrap_or(&none), p);
                        }
                    }
                    s
                }
                if *arc {
                    go::<ArcRepr>(t, p)
                } else {
                    go::<RcRepr>(t, p)
                }
            }
            Self::Dump(d, arc) => {
                if *arc {
                    sut::dump_arc(&d.iter().map(build).collect::<Vec<_>>())
                } else {
                    sut::dump_rc(&d.iter().map(build).collect::<Vec<_>>())
                }
            }
            Self::Sub(b, at, w, l, f) => stream::sub_parser(b, *at, *w, *l, *f),
            Self::Stream(b, c) => {
                let mut s = String::new();
                let mut r = Reader::<RcRepr>::new(b, *c);
                for _ in 0..6 {
                    match r.next_doc() {
                        Got::Doc(n) => s += &nodes(&[n]),
                        Got::End => break,
                        Got::Bad(e) => {
                            s += &err(&e);
                            let at = r.at();
                            match b[at..].windows(4).position(|w| w == b"\n---") {
                                Some(k) => r.seek(at + k + 1),
                                None => break,
                            }
                        }
                    }
                    sched::app(sched::yield_now);
                }
                s + &tables(&r.anchors())
            }
            Self::Write(v, k, _) => match k {
                0 => sut::to_text(v).unwrap_or_else(|e| serr(&e)),
                1 => sut::to_node_rc(v).map_or_else(|e| serr(&e), |n| nodes(&[n])),
                _ => sut::to_node_arc(v).map_or_else(|e| serr(&e), |n| nodes(&[n])),
            },
            Self::NodeToSerializer(i, _) => {
                let n: Node<ArcRepr> = build(i);
                format!("{:?} {:?}", sut::node_into_serializer(&n), trace())
            }
            Self::NodeToVisitor(i, s, _) => {
                let n: Node<RcRepr> = build(i);
                format!("{} {:?}", sut::node_into_visitor(&n, *s).map_or_else(|e| serr(&e), |()| "ok".into()), trace())
            }
            Self::TextToVisitor(t, s, _) => {
                peer::plan(s.salt, s.total);
                format!("{} {:?}", sut::text_into_visitor(t).map_or_else(|e| serr(&e), |v| v.len().to_string()), trace())
            }
            Self::Described(v, s, k, _) => {
                fn go<R: Repr>(v: &[Item], s: &Sch, parsed: bool) -> String {
                    let mut n: Vec<Node<R>> = v.iter().map(build).collect();
                    if parsed {
                        match sut::parse::<R>(&sut::yp::dump(&n, &[])) {
                            Ok(v) => n = v,
                            Err(e) => return err(&e),
                        }
                    }
                    let r: Vec<_> = n.iter().map(|n| sch::read(n, s).map_err(|e| serr(&e))).collect();
                    format!("{r:?} {:?}", trace())
                }
                if *k < 2 {
                    go::<ArcRepr>(v, s, *k == 0)
                } else {
                    go::<RcRepr>(v, s, *k == 2)
                }
            }
            Self::PeerToNode(i, s, _) => sut::node_from_peer::<RcRepr>(TDe(i, *s)).map_or_else(|e| format!("{e:?}"), |n| nodes(&[n])),
            Self::Show(i, alt, _) => {
                let n: Node<RcRepr> = build(i);
                let mut s = Sink::default();
                let r = sut::node_to_sink(&n, *alt, &mut s);
                format!("{r:?} {}", s.0)
            }
            Self::ShowError(t, how, _) => {
                let mut s = Sink::default();
                match sut::parse_rc(t) {
                    Ok(v) => nodes(&v),
                    Err(e) => {
                        let r = sut::show_to_sink(&e, *how, &mut s);
                        format!("{r:?} {}", s.0)
                    }
                }
            }
            Self::Custom(t, k, _) => {
                if k % 2 == 0 {
                    loaded(sut::parse::<reprs::Faulty>(t))
                } else {
                    match sut::load_cyclic::<reprs::Faulty>(t.as_bytes()) {
                        Ok((v, a)) if small(&v) => {
                            let none = Anchors::new();
                            v.first().map_or_else(String::new, |n| probe::battery(n, a.first().unwrap_or(&none), &[*k, k + 5]))
                        }
                        Ok((v, a)) => nodes(&v) + &tables(&a),
                        Err(e) => err(&e),
                    }
                }
            }
        }
    }
}

fn trace() -> Vec<String> {
    peer::trace_so_far()
}

//! C04: shared nodes are snapshots.
use super::{c10::plain_mix, Prop};
use crate::gen;
use rt::{
    alloc, ev, sched, shm,
    tape::{chance, choose, pick, range, span},
    violation,
};
use std::{
    collections::HashSet,
    fmt::Write,
    sync::{Arc, Mutex, RwLock, Weak},
};
use sut::{
    canon::canon,
    guard,
    model::build,
    probe,
    yp::{
        parser::Anchors,
        repr::*,
        Node, NodeArc, NodeRc, Yaml,
    },
};

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 70_000,
    limit: 4_000_000_000,
    rule: "2 to 4 simulated threads clone, read, compare, hash, dump, update, compose, hand over and drop handles of shared documents, with preemption inside library code; non-trivial = a switch happened inside a library call; distinct = different event log",
    measure: "hash of the schedule (thread and step of every switch); states: sequence of operations in global order",
    stubs: &["thread scheduler", "process entropy", "allocator (tagging, poisoning, conservation)"],
    assumptions: &["preemption at control-flow edges, loads and stores of the library, its map crates and the instantiating crate; sequentially consistent memory"],
};

// ---- the model of one version of a document ----

#[derive(Clone)]
pub struct Tree {
    pos: u64,
    tag: String,
    v: T,
}

#[derive(Clone)]
enum T {
    Null,
    Bool(bool),
    Int(String),
    Float(String),
    Str(String),
    Seq(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    Alias(String),
}

fn default_tag(v: &T) -> &'static str {
    match v {
        T::Null => "tag:yaml.org,2002:null",
        T::Bool(_) => "tag:yaml.org,2002:bool",
        T::Int(_) => "tag:yaml.org,2002:int",
        T::Float(_) => "tag:yaml.org,2002:float",
        T::Str(_) => "tag:yaml.org,2002:str",
        T::Seq(_) => "tag:yaml.org,2002:seq",
        T::Map(_) => "tag:yaml.org,2002:map",
        T::Alias(_) => "",
    }
}

fn int(s: &str) -> i64 {
    let n = s.replace("0x", "").replace("0o", "");
    i64::from_str_radix(&n, if s.contains("0x") { 16 } else if s.contains("0o") { 8 } else { 10 }).unwrap_or(i64::MIN + 7)
}

fn num(s: &str) -> f64 {
    s.parse().unwrap_or(f64::NAN)
}

impl Tree {
    /// Plain copy of a node nobody else has a handle of yet.
    fn of<R: Repr>(n: &Node<R>) -> Self {
        let v = match n.yaml() {
            Yaml::Null => T::Null,
            Yaml::Bool(b) => T::Bool(*b),
            Yaml::Int(s) => T::Int(s.clone()),
            Yaml::Float(s) => T::Float(s.clone()),
            Yaml::Str(s) => T::Str(s.clone()),
            Yaml::Seq(v) => T::Seq(v.iter().map(Self::of).collect()),
            Yaml::Map(m) => T::Map(m.iter().map(|(k, v)| (Self::of(k), Self::of(v))).collect()),
            Yaml::Alias(a) => T::Alias(a.clone()),
        };
        let tag = if n.tag() == default_tag(&v) { String::new() } else { n.tag().to_string() };
        Self { pos: n.pos(), tag, v }
    }

    fn canon(&self, s: &mut String) {
        write!(s, "@{} ", self.pos).unwrap();
        if !self.tag.is_empty() {
            write!(s, "!{} ", self.tag).unwrap();
        }
        match &self.v {
            T::Null => s.push_str("null"),
            T::Bool(b) => write!(s, "bool {b}").unwrap(),
            T::Int(t) => write!(s, "int {}", int(t)).unwrap(),
            T::Float(t) => {
                let f = num(t);
                if f.is_nan() {
                    s.push_str("float nan");
                } else {
                    write!(s, "float {:016x}", f.to_bits()).unwrap();
                }
            }
            T::Str(t) => write!(s, "str {t:?}").unwrap(),
            T::Seq(v) => {
                s.push('[');
                for t in v {
                    t.canon(s);
                    s.push(',');
                }
                s.push(']');
            }
            T::Map(v) => {
                s.push('{');
                for (k, t) in v {
                    k.canon(s);
                    s.push('=');
                    t.canon(s);
                    s.push(',');
                }
                s.push('}');
            }
            T::Alias(a) => write!(s, "*{a}").unwrap(),
        }
    }

    fn eq(&self, o: &Self) -> bool {
        match (&self.v, &o.v) {
            (T::Null, T::Null) => true,
            (T::Bool(a), T::Bool(b)) => a == b,
            (T::Int(a), T::Int(b)) => int(a) == int(b),
            (T::Float(a), T::Float(b)) => num(a) == num(b) || (num(a).is_nan() && num(b).is_nan()),
            (T::Str(a), T::Str(b)) | (T::Alias(a), T::Alias(b)) => a == b,
            (T::Seq(a), T::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.eq(b)),
            (T::Map(a), T::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((a, c), (b, d))| a.eq(b) && c.eq(d)),
            _ => false,
        }
    }

    /// A node nobody shares.
    fn build<R: Repr>(&self) -> Node<R> {
        let y: Yaml<R> = match &self.v {
            T::Null => Yaml::Null,
            T::Bool(b) => Yaml::Bool(*b),
            T::Int(s) => Yaml::Int(s.clone()),
            T::Float(s) => Yaml::Float(s.clone()),
            T::Str(s) => Yaml::Str(s.clone()),
            T::Seq(v) => v.iter().map(Self::build::<R>).collect(),
            T::Map(v) => v.iter().map(|(k, v)| (k.build::<R>(), v.build::<R>())).collect(),
            T::Alias(a) => Yaml::Alias(a.clone()),
        };
        Node::new(y, self.pos, &self.tag)
    }

    /// Changes one leaf, or the order of the children.
    fn alter(&mut self) {
        match &mut self.v {
            T::Seq(v) if !v.is_empty() => {
                let (i, j) = (choose(v.len()), choose(v.len()));
                if chance(1, 4) {
                    v.swap(i, j);
                } else {
                    v[i].alter();
                }
            }
            T::Map(v) if !v.is_empty() => {
                let (i, j) = (choose(v.len()), choose(v.len()));
                if chance(1, 4) {
                    v.swap(i, j);
                } else {
                    v[i].1.alter();
                }
            }
            T::Bool(b) => *b = !*b,
            T::Int(s) => *s = pick(&["0", "1", "-7", "0x10", "16", "255"]).into(),
            T::Float(s) => *s = pick(&["0.0", "-0.0", "1.5", "2.25e3", "2250.0"]).into(),
            T::Str(s) if !s.is_empty() && chance(1, 2) => {
                let last = s.pop();
                s.push(if last == Some('x') { 'y' } else { 'x' });
            }
            v => {
                *v = match choose(4) {
                    0 => T::Null,
                    1 => T::Str("leaf".into()),
                    2 => T::Int("1".into()),
                    _ => T::Bool(true),
                }
            }
        }
    }

    fn kids(&self) -> Vec<&Self> {
        match &self.v {
            T::Seq(v) => v.iter().collect(),
            T::Map(v) => v.iter().map(|p| &p.1).collect(),
            _ => vec![],
        }
    }
}

/// What every read of one version must give.
pub struct Exp {
    tree: Tree,
    canon: String,
    dump: String,
    debug: String,
    acc: String,
    hash: u64,
    typed: Vec<(usize, String)>,
    pretty: String,
}

impl Exp {
    fn new(tree: Tree) -> Arc<Self> {
        let mut s = String::new();
        tree.canon(&mut s);
        let n: NodeRc = tree.build();
        let typed = (0..2).map(|_| choose(probe::FAMILY)).collect::<Vec<_>>();
        Arc::new(Self {
            canon: s,
            dump: call("dump", || sut::dump_rc(&[n.clone()])),
            debug: call("debug", || sut::debug_node(&n)),
            pretty: call("debug", || sut::pretty_node(&n)),
            acc: call("accessors", || probe::accessors(&n, &Anchors::new())),
            hash: call("hash", || probe::hash_of(&n)),
            typed: typed.into_iter().map(|i| (i, call("typed read", || probe::typed(&n, i)))).collect(),
            tree,
        })
    }
}

fn call<X>(what: &str, f: impl FnOnce() -> X) -> X {
    let before = sched::switches();
    match guard(f) {
        Ok(v) => {
            if sched::switches() != before {
                rt::fault("fault:preempted_inside_call");
            }
            v
        }
        Err(p) => violation!("panic", "{what}: {p}"),
    }
}

fn differ(what: &str, got: &str, want: &str) {
    if got != want {
        violation!("read-differs", "{what} gave\n  {got}\nand the handle's value is\n  {want}");
    }
}

/// All kinds of read, through any handle.
fn read(n: &NodeArc, e: &Exp, how: usize) {
    match how {
        0 => differ("reading", &call("read", || canon(n, true, true)), &e.canon),
        1 => differ("dump", &call("dump", || sut::dump_arc(std::slice::from_ref(n))), &e.dump),
        2 => differ("debug", &call("debug", || sut::debug_node(n)), &e.debug),
        3 => differ("accessors", &call("accessors", || probe::accessors(n, &Anchors::new())), &e.acc),
        4 => {
            let h = call("hash", || probe::hash_of(n));
            if h != e.hash {
                violation!("read-differs", "hash {h:x}, the value hashes to {:x}", e.hash);
            }
        }
        5 => {
            for (i, want) in &e.typed {
                differ("typed read", &call("typed read", || probe::typed(n, *i)), want);
            }
        }
        6 => differ("pretty debug", &call("debug", || sut::pretty_node(n)), &e.pretty),
        _ => {
            // Through the owned containers.
            let k = e.tree.kids();
            let got: Vec<String> = match &e.tree.v {
                T::Map(_) => call("as_map", || sut::map_of(n)).values().map(|v| canon(v, true, true)).collect(),
                _ => call("as_seq", || sut::seq_of(n)).iter().map(|v| canon(v, true, true)).collect(),
            };
            let want: Vec<String> = k
                .iter()
                .map(|t| {
                    let mut s = String::new();
                    t.canon(&mut s);
                    s
                })
                .collect();
            differ("container", &got.join("\n"), &want.join("\n"));
        }
    }
}

const READS: usize = 8;

// ---- who holds what ----

struct Entry {
    weak: Weak<Yaml<ArcRepr>>,
    handles: usize,
    contains: HashSet<usize>,
}

#[derive(Default)]
struct Registry {
    v: Vec<Entry>,
    /// Releases in progress.
    dropping: usize,
}

fn ptrs(n: &NodeArc, s: &mut HashSet<usize>) {
    if s.insert(Arc::as_ptr(n.rc_ref()) as usize) {
        match n.yaml() {
            Yaml::Seq(v) => v.iter().for_each(|n| ptrs(n, s)),
            Yaml::Map(m) => m.iter().for_each(|(k, v)| {
                ptrs(k, s);
                ptrs(v, s);
            }),
            _ => {}
        }
    }
}

impl Registry {
    fn add(&mut self, n: &NodeArc) -> usize {
        let p = Arc::as_ptr(n.rc_ref());
        if let Some(i) = self.v.iter().position(|e| std::ptr::eq(e.weak.as_ptr(), p)) {
            self.v[i].handles += 1;
            return i;
        }
        let mut contains = HashSet::new();
        ptrs(n, &mut contains);
        self.v.push(Entry { weak: Arc::downgrade(n.rc_ref()), handles: 1, contains });
        self.v.len() - 1
    }

    /// The data no live handle reaches must be gone, the other data must not.
    fn audit(&self) {
        if self.dropping > 0 {
            return;
        }
        for (i, e) in self.v.iter().enumerate() {
            let p = e.weak.as_ptr() as usize;
            let held = self.v.iter().any(|o| o.handles > 0 && o.contains.contains(&p));
            match (held, e.weak.strong_count()) {
                (true, 0) => violation!("released-early", "version {i} is held by a handle, but its data is gone"),
                (false, n) if n > 0 => violation!("not-released", "the last handle of version {i} was dropped, but its data still has {n} owners"),
                _ => {}
            }
        }
    }
}

struct Handle {
    n: NodeArc,
    e: Arc<Exp>,
    id: usize,
}

struct World {
    watch: bool,
    reg: Mutex<Registry>,
    cells: Vec<RwLock<Option<Handle>>>,
    published: Vec<Handle>,
    mail: Mutex<Vec<Handle>>,
}

impl World {
    fn own(&self, n: NodeArc, e: Arc<Exp>) -> Handle {
        let id = if self.watch { self.reg.lock().unwrap().add(&n) } else { 0 };
        Handle { n, e, id }
    }

    fn leave(&self, id: usize) {
        if self.watch {
            let mut r = self.reg.lock().unwrap();
            r.v[id].handles -= 1;
            r.dropping += 1;
        }
    }

    fn left(&self) {
        if self.watch {
            let mut r = self.reg.lock().unwrap();
            r.dropping -= 1;
            r.audit();
        }
    }

    fn dup(&self, h: &Handle) -> Handle {
        let n = call("clone", || sut::clone_node(&h.n));
        self.own(n, h.e.clone())
    }

    fn end(&self, h: Handle) {
        let Handle { n, e, id } = h;
        self.leave(id);
        call("drop", || sut::drop_node(n));
        self.left();
        drop(e);
    }

    /// Replaces the content of one handle.
    fn update(&self, h: &mut Handle, how: usize, other: Option<&Handle>) -> &'static str {
        let (y, v, name): (Option<Yaml<ArcRepr>>, T, _) = match (how, other) {
            (0, _) => {
                let d = gen::document(&plain_mix());
                let n: NodeArc = build(&d);
                let t = Tree::of(&n);
                (Some(unshare(n)), t.v, "set_yaml")
            }
            (1, Some(o)) => (None, o.e.tree.v.clone(), "set_repr of another handle"),
            (3 | 4, _) => {
                // The same content in buffers of its own, or almost.
                let mut t = h.e.tree.clone();
                if how == 4 {
                    t.alter();
                }
                (Some(unshare(t.build())), t.v, "set_yaml of a copy")
            }
            _ => {
                // The old children and one more, or one less.
                let mut t = h.e.tree.v.clone();
                let y = match (&h.n.yaml(), &mut t) {
                    (Yaml::Seq(_), T::Seq(tv)) => {
                        let mut v = call("as_seq", || sut::seq_of(&h.n));
                        if v.len() > 2 && chance(1, 2) {
                            v.remove(0);
                            tv.remove(0);
                        } else {
                            let x = gen::scalar(&plain_mix());
                            let n: NodeArc = build(&x.into());
                            tv.push(Tree::of(&n));
                            v.push(n);
                        }
                        Yaml::Seq(v)
                    }
                    (Yaml::Map(_), T::Map(tv)) => {
                        let mut m = call("as_map", || sut::map_of(&h.n));
                        let val: NodeArc = build(&gen::scalar(&plain_mix()).into());
                        let t = Tree::of(&val);
                        let key: NodeArc = Node::new(pick(&["a", "new", "b"]), 77, "");
                        let kt = Tree::of(&key);
                        match tv.iter_mut().find(|p| p.0.eq(&kt)) {
                            // Which key object stays and whether the order
                            // changes is the map's business: drop and append.
                            Some(_) => {
                                call("remove", || m.remove(&key));
                                tv.retain(|p| !p.0.eq(&kt));
                            }
                            None => {}
                        }
                        tv.push((kt, t));
                        call("insert", || m.insert(key, val));
                        Yaml::Map(m)
                    }
                    _ => {
                        t = T::Str("changed".into());
                        "changed".into()
                    }
                };
                (Some(y), t, "set_yaml of changed children")
            }
        };
        let e = Exp::new(Tree { pos: h.e.tree.pos, tag: h.e.tree.tag.clone(), v });
        self.leave(h.id);
        match (y, other) {
            (Some(y), _) => call("set_yaml", || sut::set_yaml(&mut h.n, y)),
            (None, Some(o)) => {
                let r = call("clone_yaml", || o.n.clone_yaml());
                call("set_repr", || sut::set_repr(&mut h.n, r));
            }
            _ => {}
        }
        h.e = e;
        if self.watch {
            h.id = self.reg.lock().unwrap().add(&h.n);
        }
        self.left();
        name
    }
}

/// The content of a node nobody shares.
fn unshare(n: NodeArc) -> Yaml<ArcRepr> {
    n.yaml().clone()
}

fn act(w: &World, me: usize, hs: &mut Vec<Handle>) {
    let log = |s: &str| {
        ev!("t{me} {s}");
        shm::state_note(s);
    };
    if hs.is_empty() {
        let h = w.dup(&w.published[choose(w.published.len())]);
        log("clone published");
        hs.push(h);
        return;
    }
    let i = choose(hs.len());
    match choose(18) {
        0 | 1 | 2 => {
            let how = choose(READS);
            read(&hs[i].n, &hs[i].e, how);
            log(&format!("read {how}"));
        }
        3 => {
            let h = w.dup(&hs[i]);
            hs.push(h);
            log("clone");
        }
        4 | 5 => {
            let h = hs.swap_remove(i);
            w.end(h);
            log("drop");
        }
        6 | 7 => {
            let o = choose(hs.len());
            let how = choose(5);
            let s = if o != i {
                let mut h = hs.swap_remove(i);
                let o = o.min(hs.len() - 1);
                let s = w.update(&mut h, how, Some(&hs[o]));
                hs.push(h);
                s
            } else {
                w.update(&mut hs[i], if how == 1 { 0 } else { how }, None)
            };
            log(s);
        }
        8 => {
            // Compare with another handle, also of another thread.
            let want;
            let got;
            if chance(1, 3) {
                // With copies that live in buffers of their own, one after
                // another.
                for _ in 0..range(1, 4) {
                    let mut t = hs[i].e.tree.clone();
                    if chance(1, 2) {
                        t.alter();
                    }
                    let n: NodeArc = t.build();
                    let want = t.eq(&hs[i].e.tree);
                    let got = call("eq", || if chance(1, 2) { sut::eq_node(&n, &hs[i].n) } else { sut::eq_node(&hs[i].n, &n) });
                    if want != got {
                        violation!("read-differs", "comparison with a copy gave {got}, the values compare {want}");
                    }
                    if want && call("hash", || probe::hash_of(&n)) != hs[i].e.hash {
                        violation!("read-differs", "an equal copy hashes differently");
                    }
                    call("drop", || sut::drop_node(n));
                }
                log("eq with copies");
                return;
            }
            if chance(1, 2) {
                let p = &w.published[choose(w.published.len())];
                want = p.e.tree.eq(&hs[i].e.tree);
                got = call("eq", || sut::eq_node(&p.n, &hs[i].n));
            } else {
                let o = choose(hs.len());
                want = hs[o].e.tree.eq(&hs[i].e.tree);
                got = call("eq", || sut::eq_node(&hs[o].n, &hs[i].n));
            }
            if want != got {
                violation!("read-differs", "comparison gave {got}, the values of the two handles compare {want}");
            }
            log("eq");
        }
        9 | 10 => {
            // Read through a reference all threads share.
            let p = &w.published[choose(w.published.len())];
            let how = choose(READS);
            read(&p.n, &p.e, how);
            log(&format!("read published {how}"));
        }
        11 => {
            let h = w.dup(&w.published[choose(w.published.len())]);
            hs.push(h);
            log("clone published");
        }
        12 => {
            // Read or replace a reloadable document.
            let c = &w.cells[choose(w.cells.len())];
            if chance(1, 2) {
                let g = c.read().unwrap();
                if let Some(h) = &*g {
                    read(&h.n, &h.e, choose(READS));
                    if chance(1, 2) {
                        let h = w.dup(h);
                        hs.push(h);
                    }
                }
                drop(g);
                log("read cell");
            } else {
                let mut g = c.write().unwrap();
                if let Some(h) = &mut *g {
                    w.update(h, choose(5), Some(&hs[i]));
                }
                drop(g);
                log("reload cell");
            }
        }
        13 => {
            // Swap the document of a cell for one of ours.
            let h = w.dup(&hs[i]);
            let old = w.cells[choose(w.cells.len())].write().unwrap().replace(h);
            if let Some(h) = old {
                if chance(1, 2) {
                    hs.push(h);
                } else {
                    w.end(h);
                }
            }
            log("swap cell");
        }
        14 => {
            // Handle of a part of a document, outliving the whole.
            let k = hs[i].e.tree.kids().len();
            if k == 0 {
                return;
            }
            let j = choose(k);
            let t = hs[i].e.tree.kids()[j].clone();
            let n = match hs[i].n.yaml() {
                Yaml::Seq(_) => call("get_ind", || sut::child(&hs[i].n, j)),
                _ => {
                    let T::Map(v) = &hs[i].e.tree.v else { unreachable!() };
                    let key: NodeArc = v[j].0.build();
                    call("get", || sut::value_of(&hs[i].n, key))
                }
            };
            let Some(n) = n else { violation!("read-differs", "child {j} of {} was not found", hs[i].e.canon) };
            let h = w.own(n, Exp::new(t));
            if chance(1, 2) {
                let p = hs.swap_remove(i);
                w.end(p);
            }
            read(&h.n, &h.e, 0);
            hs.push(h);
            log("child");
        }
        15 => {
            // A document made of documents.
            let n = range(1, 3);
            let parts: Vec<Handle> = (0..n).map(|_| w.dup(&hs[choose(hs.len())])).collect();
            let pos = choose(100) as u64;
            let tree = Tree { pos, tag: "joined".into(), v: T::Seq(parts.iter().map(|h| h.e.tree.clone()).collect()) };
            let mut ids = vec![];
            let mut nodes = vec![];
            for h in parts {
                ids.push(h.id);
                nodes.push(h.n);
            }
            let n = call("compose", || sut::join(nodes, pos, "joined"));
            let h = w.own(n, Exp::new(tree));
            if w.watch {
                let mut r = w.reg.lock().unwrap();
                ids.into_iter().for_each(|i| r.v[i].handles -= 1);
            }
            hs.push(h);
            log("compose");
        }
        16 => {
            let h = hs.swap_remove(i);
            w.mail.lock().unwrap().push(h);
            log("send");
        }
        _ => {
            let h = w.mail.lock().unwrap().pop();
            if let Some(h) = h {
                read(&h.n, &h.e, choose(READS));
                hs.push(h);
                log("receive");
            }
        }
    }
    if hs.len() > 6 {
        let h = hs.swap_remove(0);
        w.end(h);
        log("drop");
    }
}

fn fresh(w: &World, m: &gen::Mix) -> Handle {
    let d = gen::document(m);
    if chance(1, 2) {
        let r = gen::render_doc(m, &d, true);
        let t = format!("{}{}", if m.handles { gen::PRELUDE } else { "" }, r.out);
        let n = call("parse", || sut::parse_arc(&t));
        if let Ok(mut v) = n {
            let n = v.swap_remove(0);
            drop(v);
            let e = Exp::new(Tree::of(&n));
            ev!("document {}", e.canon);
            return w.own(n, e);
        }
    }
    let mut d = d;
    plain(&mut d);
    let n: NodeArc = build(&d);
    let e = Exp::new(Tree::of(&n));
    ev!("document {}", e.canon);
    w.own(n, e)
}

/// Without aliases, which only a parser resolves.
fn plain(i: &mut gen::Item) {
    match &mut i.val {
        gen::Val::Seq(v) => v.iter_mut().for_each(plain),
        gen::Val::Map(v) => v.iter_mut().for_each(|p| {
            plain(&mut p.0);
            plain(&mut p.1);
        }),
        gen::Val::Alias(_) => i.val = gen::Val::Null,
        _ => {}
    }
}

fn warm() {
    let v = call("parse", || sut::parse_arc("{a: [1, 2.5], b: x}\n")).unwrap();
    let e = Exp::new(Tree::of(&v[0]));
    read(&v[0], &e, 0);
}

type Bodies = Vec<Box<dyn FnOnce() + Send>>;

fn setup() -> (Arc<World>, usize, Bodies) {
    let mut m = gen::mix();
    m.depth = m.depth.min(3);
    m.width = m.width.min(4);
    let mut w = World { watch: chance(1, 2), reg: Mutex::default(), cells: vec![], published: vec![], mail: Mutex::default() };
    for _ in 0..range(1, 2) {
        let h = fresh(&w, &m);
        w.published.push(h);
    }
    for _ in 0..range(1, 2) {
        let h = if chance(1, 2) { w.dup(&w.published[0]) } else { fresh(&w, &m) };
        w.cells.push(RwLock::new(Some(h)));
    }
    let w = Arc::new(w);
    let n = range(2, 4);
    let mean = pick(&[0, 3, 20, 200, 2000]);
    let mut bodies: Bodies = vec![];
    for t in 0..n {
        let mut hs = vec![];
        for _ in 0..range(1, 2) {
            hs.push(w.dup(&w.published[choose(w.published.len())]));
        }
        let w = Arc::clone(&w);
        bodies.push(Box::new(move || {
            let ops = range(2, 12);
            for _ in 0..ops {
                span(|| act(&w, t, &mut hs));
                sched::yield_now();
            }
            // Every handle still reads what it held.
            for h in &hs {
                read(&h.n, &h.e, 0);
            }
            while let Some(h) = hs.pop() {
                w.end(h);
            }
        }));
    }
    (w, mean, bodies)
}

fn finish(w: Arc<World>, base: (usize, usize)) {
    let Ok(w) = Arc::try_unwrap(w) else { violation!("harness", "world still shared") };
    let World { reg, cells, published, mail, watch } = w;
    let end = World { watch, reg, cells: vec![], published: vec![], mail: Mutex::default() };
    let rest = cells.into_iter().filter_map(|c| c.into_inner().unwrap()).chain(published).chain(mail.into_inner().unwrap());
    for h in rest {
        read(&h.n, &h.e, 0);
        end.end(h);
    }
    end.reg.lock().unwrap().audit();
    drop(end);
    let live = alloc::sut_live();
    if live != base {
        violation!("not-released", "every handle was dropped, but {} blocks ({} bytes) of the library are still allocated", live.0 as i64 - base.0 as i64, live.1 as i64 - base.1 as i64);
    }
}

fn run() {
    static BASE: Mutex<(usize, usize)> = Mutex::new((0, 0));
    static PLAN: Mutex<Option<(Arc<World>, usize, Bodies)>> = Mutex::new(None);
    sched::run_one(Box::new(|| {
        if let Some(t) = sut::reprs::escaping().first() {
            violation!("unsafe-to-share", "{t} may cross threads, although its owners are counted for one thread only");
        }
        warm();
        *BASE.lock().unwrap() = alloc::sut_live();
        let p = setup();
        *PLAN.lock().unwrap() = Some(p);
    }));
    let (w, mean, bodies) = PLAN.lock().unwrap().take().unwrap();
    sched::run_threads(mean, bodies);
    sched::run_one(Box::new(move || finish(w, *BASE.lock().unwrap())));
}

//! C06: results never depend on hash seeds, memory layout or process history.
use super::{
    c01,
    c10::plain_mix,
    calls::{self, Call},
    Prop,
};
use crate::gen::{self, Item, Mix, Val};
use rt::{
    alloc, ev, fault, sched, seam, shm,
    tape::{chance, choose, pick, range, span, word},
    violation,
};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    sync::{atomic::Ordering::Relaxed, Arc, Mutex},
};
use sut::{
    attempt,
    canon::canon,
    model::build,
    peer::{SVal, TDe},
    probe,
    yp::{repr::*, Map, Node, Yaml},
};

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 100_000,
    limit: 6_000_000_000,
    rule: "two copies of one simulated machine, with other system entropy (so other hash keys), another heap layout and another history of earlier calls, execute the same program of calls, comparisons and map operations; non-trivial = every run; distinct = different event log (program and results)",
    measure: "hash of the kinds of steps and results",
    stubs: &["system entropy", "allocator (placement)", "process history", "application callbacks"],
    assumptions: &["ahash takes its keys from the system's entropy source, which the simulator supplies"],
};

/// How a node came to be.
#[derive(Clone)]
struct Made {
    how: usize,
    pos: u64,
    text: String,
    salt: u64,
}

#[derive(Clone)]
enum Step {
    Call(Call),
    /// Two nodes of one content, and one of another.
    Pair(Item, Made, Made, Item, Made),
    Map(Vec<(usize, Item, Made)>),
    /// Scalars of related texts: (kind, text), and what stands around each.
    Laws(Vec<(usize, String)>, usize),
}

fn made(i: &Item) -> Made {
    let mut m = plain_mix();
    m.handles = false;
    let text = gen::render_doc(&m, i, true).out;
    Made { how: choose(9), pos: choose(1000) as u64, text, salt: word() }
}

fn to_sval(i: &Item) -> SVal {
    match &i.val {
        Val::Null => SVal::Unit,
        Val::Bool(b) => SVal::Bool(*b),
        Val::Int(n) => SVal::I64(*n),
        Val::Float(f) => SVal::F64(*f),
        Val::Str(s) | Val::Alias(s) => SVal::Str(s.clone()),
        Val::Seq(v) => SVal::Seq(v.iter().map(to_sval).collect(), 1),
        Val::Map(v) => SVal::Map(v.iter().map(|(k, v)| (to_sval(k), to_sval(v))).collect(), true, 0),
    }
}

/// The same numbers, written in another way.
fn respell<R: Repr>(n: &Node<R>, salt: u64) -> Node<R> {
    let s = rt::tape::mix(salt, n.pos());
    let y: Yaml<R> = match n.yaml() {
        Yaml::Int(_) => match n.as_int() {
            Ok(i) if i >= 0 => match s % 4 {
                0 => Yaml::Int(format!("0x{i:x}")),
                1 => Yaml::Int(format!("0o{i:o}")),
                2 => Yaml::Int(format!("0x{i:X}")),
                _ => Yaml::Int(i.to_string()),
            },
            Ok(i) => Yaml::Int(i.to_string()),
            Err(_) => n.yaml().clone(),
        },
        Yaml::Float(_) => match n.as_float() {
            Ok(f) if f.is_finite() => match s % 4 {
                0 => Yaml::Float(format!("{f:e}")),
                1 => Yaml::Float(format!("{f:?}00").replace("e", "e0").trim_end_matches(|_| f.to_string().contains('e') || format!("{f:?}").contains('e')).to_string()),
                2 => Yaml::Float(format!("{f:E}")),
                _ => Yaml::Float(f.to_string()),
            },
            Ok(f) if f.is_nan() => Yaml::Float(["NaN", "nan", "-NaN"][(s % 3) as usize].into()),
            _ => n.yaml().clone(),
        },
        Yaml::Seq(v) => Yaml::Seq(v.iter().map(|n| respell(n, s)).collect()),
        Yaml::Map(m) => Yaml::Map(m.iter().map(|(k, v)| (respell(k, s ^ 1), respell(v, s))).collect()),
        _ => n.yaml().clone(),
    };
    // A spelling that denotes another number is not one of this number.
    let same = match (&y, n.yaml()) {
        (Yaml::Float(a), Yaml::Float(_)) => a.parse::<f64>().ok().map(f64::to_bits) == n.as_float().ok().map(f64::to_bits) || n.as_float().is_ok_and(f64::is_nan),
        _ => true,
    };
    let y = if same { y } else { n.yaml().clone() };
    Node::new(y, n.pos(), n.tag())
}

/// The same content under other tags and at other places.
fn retag<R: Repr>(n: &Node<R>, salt: u64) -> Node<R> {
    const TAGS: &[&str] = &["", "", "!", "t", "x-key", "str", "tag:yaml.org,2002:str", "tag:yaml.org,2002:int", "tag:yaml.org,2002:map", "tag:yaml.org,2002:", "tag:x.org,2000:a", "é", "a b", "0", "!local"];
    let s = rt::tape::mix(salt, 77);
    let kids = |k: u64| rt::tape::mix(s, k + 1);
    let y: Yaml<R> = match n.yaml() {
        Yaml::Seq(v) => Yaml::Seq(v.iter().enumerate().map(|(k, n)| retag(n, kids(k as u64))).collect()),
        Yaml::Map(m) => Yaml::Map(m.iter().enumerate().map(|(k, (a, b))| (retag(a, kids(2 * k as u64)), retag(b, kids(2 * k as u64 + 1)))).collect()),
        y => y.clone(),
    };
    let tag = TAGS[(s >> 8) as usize % TAGS.len()];
    // Long ones and ones of any letters.
    let tag = match (s >> 16) % 8 {
        0 => format!("{tag}{}", "x".repeat((s >> 24) as usize % 60)),
        1 => (0..(s >> 24) % 6 + 1).map(|k| char::from(b'!' + (rt::tape::mix(s, k) % 90) as u8)).collect(),
        _ => tag.into(),
    };
    let pos = [0, 1, s >> 40, u64::MAX][(s >> 32) as usize % 4];
    Node::new(y, pos, tag)
}

fn make<R: Repr>(i: &Item, m: &Made) -> Node<R> {
    let r = attempt(|| match m.how {
        0 => build::<R>(i),
        1 => sut::parse::<R>(&m.text).ok().and_then(|mut v| v.pop()).unwrap_or_else(|| build(i)),
        2 => {
            let t = sut::yp::dump::<R>(&[build::<R>(i)], &[]);
            sut::parse::<R>(&t).map_or_else(|_| build(i), |mut v| v.remove(0))
        }
        3 => {
            // Values have no tag of their own.
            let v = to_sval(i);
            let t = sut::to_text(&v).unwrap_or_default();
            sut::parse::<R>(&t).map_or_else(|_| build(i), |mut v| v.remove(0))
        }
        4 => {
            let n = build::<R>(i);
            Node::new_repr(n.clone_yaml(), m.pos, "other-tag")
        }
        5 => sut::node_from_peer::<R>(TDe(i, m.salt)).unwrap_or_else(|_| build(i)),
        6 => {
            let n = build::<R>(i);
            let mut k = Node::new("before", m.pos, "t");
            sut::set_repr(&mut k, n.clone_yaml());
            k
        }
        7 => respell(&build::<R>(i), m.salt),
        _ => retag(&build::<R>(i), m.salt),
    });
    r.unwrap_or_else(|p| violation!("panic", "making a node of {}: {p}", gen::canon(i, &mut vec![], false)))
}

fn siphash<R: Repr>(n: &Node<R>) -> u64 {
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// One change of the content.
fn near(i: &Item, m: &Mix) -> Item {
    let mut j = i.clone();
    fn go(i: &mut Item, m: &Mix) {
        match &mut i.val {
            Val::Seq(v) if !v.is_empty() && chance(2, 3) => {
                let k = choose(v.len());
                match choose(3) {
                    0 => go(&mut v[k], m),
                    1 => {
                        v.remove(k);
                    }
                    _ => v.push(gen::scalar(m).into()),
                }
            }
            Val::Map(v) if !v.is_empty() && chance(2, 3) => {
                let k = choose(v.len());
                match choose(3) {
                    0 => go(&mut v[k].1, m),
                    1 => {
                        v.remove(k);
                    }
                    _ => v.rotate_left(1),
                }
            }
            // The same text as another kind, or a close number.
            v => {
                *v = match (&*v, choose(3)) {
                    (Val::Int(n), 0) => Val::Str(n.to_string()),
                    (Val::Int(n), 1) => Val::Float(*n as f64),
                    (Val::Int(n), _) => Val::Int(n.wrapping_add(1)),
                    (Val::Float(f), 0) => Val::Float(f64::from_bits(f.to_bits() ^ 1)),
                    (Val::Float(f), 1) => Val::Float(-f),
                    (Val::Float(f), _) => Val::Str(f.to_string()),
                    (Val::Str(s), 0) => Val::Str(format!("{s} ")),
                    (Val::Str(s), 1) => Val::Seq(vec![Val::Str(s.clone()).into()]),
                    (Val::Bool(b), 0) => Val::Str(b.to_string()),
                    (Val::Null, 0) => Val::Str(String::new()),
                    (Val::Null, 1) => Val::Seq(vec![]),
                    (Val::Seq(_), 0) => Val::Map(vec![]),
                    _ => gen::scalar(m),
                }
            }
        }
    }
    go(&mut j, m);
    j
}

/// Texts which may or may not stand for one value, whatever the library
/// thinks of them.
fn related() -> Vec<(usize, String)> {
    const BASES: &[&str] = &[
        "0", "1", "7", "12", "255", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999", "0x1f", "0o17", "0xffffffffffffffff", "0x10000000000000000", "1.5", "0.1", "1e5", "1e308",
        "1e400", "1e-400", "0.0", "5e-324", "NaN", "inf", ".inf", ".nan", "true", "null", "~", "", "abc", "Key", "é", "a b", "9007199254740993", "0.30000000000000004", "16777217",
    ];
    let base = pick(BASES);
    let kind = choose(6);
    (0..range(2, 4))
        .map(|_| {
            let mut t = base.to_string();
            for _ in 0..choose(3) {
                match choose(12) {
                    0 => t.insert(0, '0'),
                    1 => t.insert_str(0, "-"),
                    2 => t.insert(0, '+'),
                    3 => t.push('0'),
                    4 => t.push_str(".0"),
                    5 => t = t.to_uppercase(),
                    6 => t = t.to_lowercase(),
                    7 => t.push_str(pick(&[" ", "\t", "\n", "\u{301}", "e0", "E0", "."])),
                    8 => t.insert_str(0, pick(&[" ", "0x", "0o", "00", "-0"])),
                    9 => {
                        // Another digit somewhere.
                        let at = choose(t.len().max(1));
                        if t.as_bytes().get(at).is_some_and(u8::is_ascii_digit) {
                            t.replace_range(at..=at, pick(&["0", "1", "9"]));
                        }
                    }
                    10 => {
                        t.pop();
                    }
                    _ => t = t.parse::<f64>().map_or(t, |f| f.to_string()),
                }
            }
            (if chance(3, 4) { kind } else { choose(6) }, t)
        })
        .collect()
}

/// What holds of any two nodes, whatever they are.
fn laws<R: Repr>(v: &[(usize, String)], nest: usize) -> String {
    let make = |(kind, t): &(usize, String), k: usize| -> Node<R> {
        let y: Yaml<R> = match kind {
            0 => Yaml::Int(t.clone()),
            1 => Yaml::Float(t.clone()),
            2 => Yaml::Str(t.clone()),
            3 => Yaml::Alias(t.clone()),
            4 => return sut::parse::<R>(&format!("{t}\n")).ok().and_then(|mut v| v.pop()).unwrap_or_else(|| Node::new(t.clone(), 0, "")),
            _ => match t.as_str() {
                "true" => Yaml::Bool(true),
                "null" | "~" | "" => Yaml::Null,
                _ => Yaml::Int(t.clone()),
            },
        };
        let n = Node::new(y, k as u64, "");
        match nest {
            0 => n,
            1 => Node::new(vec![n], k as u64, "t"),
            2 => Node::new([(n.clone(), n)].into_iter().collect::<Yaml<R>>(), 0, ""),
            _ => Node::new(vec![Node::from("x"), Node::new(vec![n], 0, "")], 0, ""),
        }
    };
    let n: Vec<Node<R>> = v.iter().enumerate().map(|(k, t)| attempt(|| make(t, k)).unwrap_or_else(|p| violation!("panic", "{p}"))).collect();
    let mut out = String::new();
    for (i, x) in n.iter().enumerate() {
        // Not the same memory.
        let again = make(&v[i], i);
        if !sut::eq_node(x, &again) || probe::hash_of(x) != probe::hash_of(&again) {
            violation!("not-equal", "a node does not equal one made in the same way: {:?}", v[i]);
        }
        for (j, y) in n.iter().enumerate() {
            let same = sut::eq_node(x, y);
            out.push(if same { '=' } else { '/' });
            if same != sut::eq_node(y, x) {
                violation!("not-equal", "{:?} equals {:?}: {same}, the other way round: {}", v[i], v[j], !same);
            }
            if same && (probe::hash_of(x) != probe::hash_of(y) || siphash(x) != siphash(y)) {
                violation!("hash-differs", "{:?} equals {:?} but their hashes differ", v[i], v[j]);
            }
            let mut m = Map::<R>::new();
            m.insert(x.clone(), Node::new("found", 0, ""));
            if m.get(y).is_some() != same || m.insert(y.clone(), Node::new("other", 0, "")).is_some() != same {
                violation!("lookup", "{:?} equals {:?}: {same}, but a map that holds one finds the other: {}", v[i], v[j], !same);
            }
            if same {
                rt::stat("probe:other_text_equal");
                for (k, z) in n.iter().enumerate() {
                    if sut::eq_node(y, z) && !sut::eq_node(x, z) {
                        violation!("not-equal", "{:?} equals {:?}, which equals {:?}, but the first does not equal the last", v[i], v[j], v[k]);
                    }
                }
            }
        }
        out += &sut::debug_node(x);
    }
    out
}

fn draw() -> Step {
    let m = plain_mix();
    match choose(5) {
        4 => Step::Laws(related(), choose(4)),
        0 | 1 => Step::Call(calls::draw()),
        2 => {
            let i = gen::document(&m);
            let o = near(&i, &m);
            Step::Pair(i.clone(), made(&i), made(&i), o.clone(), made(&o))
        }
        _ => {
            let pool: Vec<Item> = (0..range(1, 6)).map(|_| if chance(1, 3) { gen::value(&m, 1, &mut gen::Scope::default()) } else { gen::scalar(&m).into() }).collect();
            Step::Map(
                (0..range(2, 16))
                    .map(|_| {
                        let i = pool[choose(pool.len())].clone();
                        let i = if chance(1, 4) { near(&i, &m) } else { i };
                        let k = made(&i);
                        (choose(6), i, k)
                    })
                    .collect(),
            )
        }
    }
}

fn pair<R: Repr>(i: &Item, a: &Made, b: &Made, o: &Item, c: &Made) -> String {
    let (x, y, z): (Node<R>, Node<R>, Node<R>) = (make(i, a), make(i, b), make(o, c));
    let text = || format!("\n  {} (made {})\n  {} (made {})", canon(&x, true, true), a.how, canon(&y, true, true), b.how);
    let (hx, hy, hz) = (probe::hash_of(&x), probe::hash_of(&y), probe::hash_of(&z));
    if !sut::eq_node(&x, &y) || !sut::eq_node(&y, &x) {
        violation!("not-equal", "equal contents do not compare equal{}", text());
    }
    if hx != hy || siphash(&x) != siphash(&y) {
        violation!("hash-differs", "equal nodes have different hashes{}", text());
    }
    let same = gen::same(&i.val, &o.val);
    if sut::eq_node(&x, &z) != same || sut::eq_node(&z, &y) != same {
        violation!("not-equal", "contents that are equal: {same} compare {}\n  {}\n  {}", !same, canon(&x, true, true), canon(&z, true, true));
    }
    if same && hx != hz {
        violation!("hash-differs", "equal nodes have different hashes\n  {}\n  {}", canon(&x, true, true), canon(&z, true, true));
    }
    let mut m = Map::<R>::new();
    m.insert(x.clone(), Node::new("found", 0, ""));
    if m.get(&y).is_none() {
        violation!("lookup", "a map does not find a key that equals one it holds{}", text());
    }
    if m.get(&z).is_some() != same {
        violation!("lookup", "a map finds {} by {}: {}", canon(&x, true, true), canon(&z, true, true), !same);
    }
    let n = Node::<R>::new(Yaml::Map(m), 3, "");
    if attempt(|| n.get(y.clone()).is_ok()) != Ok(true) || attempt(|| n.get(z.clone()).is_ok()) != Ok(same) {
        violation!("lookup", "get() does not find the equal key, or finds another{}", text());
    }
    format!("{hx:x} {:x} {}", siphash(&x), sut::debug_node(&x))
}

fn map_ops<R: Repr>(ops: &[(usize, Item, Made)]) -> String {
    let mut m = Map::<R>::new();
    let mut model: Vec<(Item, usize)> = vec![];
    let mut out = String::new();
    for (k, (op, i, how)) in ops.iter().enumerate() {
        let key: Node<R> = make(i, how);
        let at = model.iter().position(|(j, _)| gen::same(&j.val, &i.val));
        let what = || format!("key {} (made {}), step {k}", gen::canon(i, &mut vec![], false), how.how);
        match op {
            0..=2 if at.is_none() => {
                m.insert(key, Node::new(k as i64, 0, ""));
                model.push((i.clone(), k));
            }
            3 => {
                let r = m.remove(&key).map(|n| n.as_int());
                let want = at.map(|p| Ok(model.remove(p).1 as i64));
                if r != want {
                    violation!("lookup", "remove gave {r:?}, the map holds {want:?}: {}", what());
                }
            }
            _ => {
                let r = m.get(&key).map(|n| n.as_int());
                let want = at.map(|p| Ok(model[p].1 as i64));
                if r != want || m.contains_key(&key) != want.is_some() {
                    violation!("lookup", "lookup gave {r:?}, the map holds {want:?}: {}", what());
                }
            }
        }
        if m.len() != model.len() {
            violation!("lookup", "the map has {} keys, {} were put in: {}", m.len(), model.len(), what());
        }
    }
    let check = |n: &Node<R>, what: &str| {
        let got: Vec<_> = n.as_map().map_or(vec![], |m| m.iter().map(|(k, v)| (canon(k, false, false), v.as_int().unwrap_or(-1))).collect());
        let want: Vec<_> = model.iter().map(|(k, v)| (gen::canon(k, &mut vec![], false), *v as i64)).collect();
        if got != want {
            violation!("order", "{what}: the keys are\n  {got:?}\nand were inserted\n  {want:?}");
        }
    };
    let n = Node::<R>::new(Yaml::Map(m), 0, "");
    check(&n, "after the operations");
    let c = Node::<R>::new(n.yaml().clone(), 0, "");
    check(&c, "in a copy");
    let t = attempt(|| sut::yp::dump(&[n.clone()], &[])).unwrap_or_else(|p| violation!("panic", "dump: {p}"));
    out += &t;
    match sut::parse::<R>(&t) {
        // Texts of NaN other than the library's own and tags which are no URI
        // are not for dumping.
        Ok(v) if !model.is_empty() && !ops.iter().any(|(_, _, m)| m.how == 8) && !ops.iter().any(|(_, i, m)| m.how == 7 && gen::canon(i, &mut vec![], false).contains("float nan")) => check(&v[0], "after dump and load"),
        _ => {}
    }
    out += &sut::debug_node(&n);
    out
}

fn execute(s: &Step, k: usize) -> String {
    match s {
        Step::Call(c) => c.exec().0,
        Step::Pair(i, a, b, o, c) if k % 3 == 0 => pair::<ArcRepr>(i, a, b, o, c),
        Step::Pair(i, a, b, o, c) => pair::<RcRepr>(i, a, b, o, c),
        Step::Laws(v, n) if k % 3 == 0 => laws::<ArcRepr>(v, *n),
        Step::Laws(v, n) => laws::<RcRepr>(v, *n),
        Step::Map(v) if k % 3 == 0 => map_ops::<ArcRepr>(v),
        Step::Map(v) => map_ops::<RcRepr>(v),
    }
}

#[derive(Clone)]
struct Machine {
    entropy: u64,
    shift: usize,
    scramble: usize,
    history: Vec<Call>,
    /// Calls of the history made between the steps.
    between: bool,
    /// Blocks of the application in the way.
    junk: usize,
}

fn run() {
    c01::PURE.store(true, Relaxed);
    #[allow(clippy::type_complexity)]
    static PLAN: Mutex<Option<(Vec<Step>, Vec<Machine>)>> = Mutex::new(None);
    sched::run_one(Box::new(|| {
        let steps: Vec<Step> = (0..range(1, 5)).map(|_| span(draw)).collect();
        let machine = |k: usize| {
            span(|| Machine {
                entropy: word() ^ k as u64,
                shift: 16 * choose(pick(&[1, 64])),
                scramble: if chance(1, 2) { word() as usize } else { 0 },
                history: if chance(2, 3) { (0..choose(4)).map(|_| calls::draw()).collect() } else { vec![] },
                between: chance(1, 2),
                junk: choose(40),
            })
        };
        let ms = vec![machine(1), machine(2)];
        for s in &steps {
            match s {
                Step::Call(c) => ev!("{} {}", c.name(), c.show()),
                Step::Pair(i, a, b, o, c) => ev!("compare {} made {} and {}, and {} made {}", gen::canon(i, &mut vec![], true), a.how, b.how, gen::canon(o, &mut vec![], true), c.how),
                Step::Laws(v, n) => ev!("laws of {v:?} in {n}"),
                Step::Map(v) => ev!("map {}", v.iter().map(|(o, i, m)| format!("{o} {} made {}; ", gen::canon(i, &mut vec![], false), m.how)).collect::<String>()),
            }
            shm::state_note(match s {
                Step::Call(c) => c.name(),
                Step::Pair(..) => "pair",
                Step::Map(..) => "map",
                Step::Laws(..) => "laws",
            });
        }
        for m in &ms {
            ev!("machine: entropy {:x}, gaps {}, scrambled {}, {} calls of history", m.entropy, m.shift, m.scramble != 0, m.history.len());
        }
        *PLAN.lock().unwrap() = Some((steps, ms));
    }));
    let (steps, ms) = PLAN.lock().unwrap().take().unwrap();
    let steps = Arc::new(steps);
    let mut logs = vec![];
    for m in ms {
        let steps = steps.clone();
        fault("fault:other_hash_keys");
        if m.shift + m.scramble + m.junk != 0 {
            fault("fault:other_heap_layout");
        }
        if !m.history.is_empty() {
            fault("fault:other_history");
        }
        shm::shm().aux_len = 0;
        rt::run::twin(Box::new(move || {
            seam::seed_entropy(m.entropy);
            alloc::SHIFT.store(m.shift, Relaxed);
            alloc::SCRAMBLE.store(m.scramble, Relaxed);
            let mut junk: Vec<Vec<u8>> = (0..m.junk).map(|k| vec![0; 40 + k * 24]).collect();
            junk.retain(|v| v.len() % 5 != 0);
            let mut hist = m.history.iter();
            if !m.between {
                hist.by_ref().for_each(|c| drop(c.exec()));
            }
            for (k, s) in steps.iter().enumerate() {
                if let Some(c) = hist.next() {
                    c.exec();
                }
                let r = execute(s, k);
                shm::shm().aux_push(&format!("{:x} {}\u{1}", super::hash(&r), r.chars().take(3000).collect::<String>()));
            }
        }));
        logs.push(shm::shm().aux());
    }
    shm::state_note(&super::hash(&logs[0]).to_string());
    let (a, b) = (logs[0].split('\u{1}'), logs[1].split('\u{1}'));
    for (k, (a, b)) in a.zip(b).enumerate() {
        if a != b {
            violation!("depends", "step {k} gave\n  {a}\non one machine and\n  {b}\non the other");
        }
    }

}

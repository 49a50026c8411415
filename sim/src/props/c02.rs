//! C02: records acknowledged before a crash are read back exactly.
use super::Prop;
use crate::gen::{self, Item, Val};
use rt::{
    ev, fault, sched, shm,
    tape::{chance, choose, pick, range, small, span},
    violation,
};
use sut::{
    guard,
    model::{build, build_as},
    stream::{Got, Reader},
    types::Rec,
    yp::{parser::Anchors, repr::*, Node},
};

pub const PROP: Prop = Prop {
    id: "C02",
    run: || sched::run_one(Box::new(run)),
    quick: 150_000,
    limit: 2_000_000_000,
    rule: "a writer appends 1-6 dumped records (nodes, several nodes, typed values, cyclic nodes) to a log on a simulated disk, crashes at a drawn point (1-3 times), the unsynced tail is torn and followed by stale bytes, and a reader recovers document by document; non-trivial = a crash left a damaged tail behind at least one acknowledged record; distinct = different event log (disk contents and results)",
    measure: "hash of framing, kinds of records, crash points relative to records and kind of tail",
    stubs: &["disk (append-only file; synced bytes are durable, unsynced ones survive as a drawn mixture)", "process entropy"],
    assumptions: &[
        "a synced byte is durable and unchanged",
        "a record is complete when its end marker, or the splitter behind it, is durable",
        "anchors are written only for nodes whose content occurs once in the document (the dumper finds anchors by content)",
    ],
};

#[derive(Clone)]
enum Want {
    /// Canonical text of the node with tags.
    Node(String),
    Typed(Box<Rec>),
    /// Node with alias placeholders, and the anchor table.
    Cyclic(String, Vec<(String, String)>),
}

struct Disk {
    durable: Vec<u8>,
    pending: Vec<u8>,
    /// Bytes of an earlier file in the same blocks.
    stale: Vec<u8>,
}

impl Disk {
    fn sync(&mut self) {
        self.durable.append(&mut self.pending);
    }

    /// What is found after the crash.
    fn crash(&mut self) -> Vec<u8> {
        span(|| {
            let mut img = self.durable.clone();
            let mut p = std::mem::take(&mut self.pending);
            let kept = match choose(3) {
                0 => 0,
                1 => choose(p.len() + 1),
                _ => p.len(),
            };
            if kept < p.len() {
                fault("fault:torn_tail");
            }
            p.truncate(kept);
            if !p.is_empty() {
                // Sectors of the tail that never made it.
                for _ in 0..choose(3) {
                    fault("fault:tail_sector_lost");
                    let sec = pick(&[4usize, 16, 64]);
                    let a = choose(p.len()) / sec * sec;
                    let e = (a + sec).min(p.len());
                    let c = pick(&[0u8, 0xff, b'\n', b' ']);
                    p[a..e].fill(c);
                }
            }
            img.extend(&p);
            match choose(5) {
                0 => {}
                1 => {
                    fault("fault:stale_bytes_behind_end");
                    let at = if chance(1, 2) { img.len() } else { choose(self.stale.len() + 1) };
                    let s = self.stale.get(at..).unwrap_or(&[]).to_vec();
                    img.extend(s);
                }
                2 => {
                    fault("fault:zeros_behind_end");
                    img.extend(std::iter::repeat_n(0u8, range(1, 40)));
                }
                3 => {
                    fault("fault:garbage_behind_end");
                    for _ in 0..range(1, 20) {
                        img.push(choose(256) as u8);
                    }
                }
                _ => {
                    fault("fault:tokens_behind_end");
                    img.extend(
                        pick(&[
                            "---", "...", "---\n", "...\n", "- x\n", " x\n", "  - y\n", "a: b\n", ": v\n", "\n\n\n", "\"", "'", "#", "# c", "&a", "*a", "!t", "]", "}", "[", "{", "%TAG ! x\n", "%", "|\n x",
                            "\t", "\r", "\r\n", "    deep\n", ".", "-", "--", "..", "--- a\n--- b\n", "... x\n",
                        ])
                        .bytes(),
                    );
                }
            }
            img
        })
    }
}

/// A document with aliases, its anchors, and whether it can be used.
fn cyclic(m: &gen::Mix) -> Option<(Item, Vec<(String, Item)>)> {
    let mut mm = m.clone();
    mm.anchors = true;
    mm.aliases = true;
    let mut d = gen::document(&mm);
    if chance(1, 2) {
        let mut n = 0;
        mark_keys(&mut d, &mut n);
    }
    let mut all = vec![];
    fn walk<'a>(i: &'a Item, all: &mut Vec<&'a Item>) {
        all.push(i);
        match &i.val {
            Val::Seq(v) => v.iter().for_each(|i| walk(i, all)),
            Val::Map(v) => v.iter().for_each(|(k, i)| {
                walk(k, all);
                walk(i, all);
            }),
            _ => {}
        }
    }
    walk(&d, &mut all);
    let mut names = vec![];
    for i in &all {
        if let Some(a) = &i.anchor {
            if all.iter().filter(|j| gen::same(&i.val, &j.val)).count() != 1 {
                return None;
            }
            names.push((a.clone(), (*i).clone()));
        }
    }
    Some((d.clone(), names))
}

fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match sched::budget(200_000_000, || guard(f)) {
        Ok(v) => v,
        Err(p) => violation!("panic", "{what}: {p}"),
    }
}

/// The same document with numbers in other spellings.
fn spelled<R: Repr>(d: &Item) -> Node<R> {
    let how = choose(6);
    build_as(d, &|v| match v {
        Val::Float(f) if f.is_finite() => {
            let s = format!("{f:e}");
            let plus = |s: &str| if s.contains("e-") { s.to_string() } else { s.replace('e', "e+") };
            Some(match how {
                0 => s,
                1 => s.to_uppercase(),
                2 => plus(&s),
                3 => plus(&s).to_uppercase(),
                4 if !s.contains('.') => s.replace('e', ".e"),
                _ => return None,
            })
        }
        Val::Int(n) if *n >= 0 => match how {
            1 => Some(format!("0x{n:X}")),
            2 => Some(format!("0o{n:o}")),
            3 => Some(format!("0x{n:x}")),
            _ => None,
        },
        _ => None,
    })
}

fn record<R: Repr>(m: &gen::Mix) -> (String, Vec<Want>) {
    span(|| match choose(8) {
        0..=2 => {
            rt::stat("op:append_node");
            shm::state_note("n");
            let d = gen::document(m);
            let w = Want::Node(gen::canon(&d, &mut vec![], true));
            let n: [Node<R>; 1] = [if chance(1, 2) { build(&d) } else { spelled(&d) }];
            (lib("dumping", || sut::yp::dump(&n, &[])), vec![w])
        }
        3 => {
            rt::stat("op:append_nodes");
            shm::state_note("m");
            let v: Vec<Item> = (0..range(1, 3)).map(|_| gen::document(m)).collect();
            let w = v.iter().map(|d| Want::Node(gen::canon(d, &mut vec![], true))).collect();
            let n: Vec<Node<R>> = v.iter().map(build).collect();
            (lib("dumping", || sut::yp::dump(&n, &[])), w)
        }
        4 => {
            rt::stat("op:append_typed");
            shm::state_note("t");
            let r = gen::rec(m);
            let t = match lib("writing a typed value", || sut::yp::serde::to_string(&r)) {
                Ok(t) => t,
                Err(e) => violation!("typed-write-failed", "a record could not be written: {e}: {r:?}"),
            };
            (t, vec![Want::Typed(Box::new(r))])
        }
        5 | 6 => {
            // What another program wrote, passed on.
            rt::stat("op:append_loaded");
            shm::state_note("l");
            let v: Vec<Item> = (0..range(1, 2)).map(|_| gen::document(m)).collect();
            let t: String = v.iter().map(|d| gen::render_doc(m, d, true).out).collect();
            let t = if m.handles { format!("{}{t}", gen::garnish(gen::PRELUDE)) } else { t };
            match lib("loading", || sut::load_keep::<R>(t.as_bytes(), false).map(|v| v.0)) {
                Ok(n) => {
                    let w = n.iter().map(|n| Want::Node(sut::canon::canon(n, true, false))).collect();
                    (lib("dumping", || sut::yp::dump(&n, &[])), w)
                }
                Err(e) => violation!("rejected", "a well-formed stream: {e}\n{t}"),
            }
        }
        _ => match cyclic(m) {
            None => {
                let n: [Node<R>; 1] = [Node::from("fallback")];
                (lib("dumping", || sut::yp::dump(&n, &[])), vec![Want::Node("str \"fallback\"".into())])
            }
            Some((d, names)) => {
                rt::stat("op:append_cyclic");
                shm::state_note("c");
                let a: Anchors<R> = names.iter().map(|(k, i)| (k.clone(), build(i))).collect();
                let n: [Node<R>; 1] = [build(&d)];
                let t = lib("dumping", || sut::yp::dump(&n, std::slice::from_ref(&a)));
                let mut no_anchor = d.clone();
                strip(&mut no_anchor);
                let tab = names.iter().map(|(k, i)| (k.clone(), raw(i))).collect();
                (t, vec![Want::Cyclic(raw(&no_anchor), tab)])
            }
        },
    })
}

/// Gives some scalar keys a name and some a tag.
fn mark_keys(i: &mut Item, n: &mut usize) {
    match &mut i.val {
        Val::Seq(v) => v.iter_mut().for_each(|i| mark_keys(i, n)),
        Val::Map(v) => {
            for (k, i) in v.iter_mut() {
                if k.anchor.is_none() && !matches!(k.val, Val::Seq(_) | Val::Map(_) | Val::Alias(_)) {
                    match choose(4) {
                        0 => {
                            *n += 1;
                            k.anchor = Some(format!("k{n}"));
                        }
                        1 if k.tag.is_none() => k.tag = Some(("!key".into(), "key".into())),
                        _ => {}
                    }
                }
                mark_keys(i, n);
            }
        }
        _ => {}
    }
}

fn strip(i: &mut Item) {
    i.anchor = None;
    match &mut i.val {
        Val::Seq(v) => v.iter_mut().for_each(strip),
        Val::Map(v) => v.iter_mut().for_each(|(k, i)| {
            strip(k);
            strip(i);
        }),
        _ => {}
    }
}

/// Canonical text with alias placeholders.
fn raw(i: &Item) -> String {
    let mut j = i.clone();
    strip(&mut j);
    gen::canon(&j, &mut vec![], true)
}

fn compare<R: Repr>(i: usize, want: &Want, n: &Node<R>, cyclic: Option<&Anchors<R>>) {
    use serde::Deserialize;
    match want {
        Want::Node(w) => {
            let g = sut::canon::canon(n, true, false);
            if g != *w {
                violation!("record-altered", "acknowledged record {i} was written as\n  {w}\nand read back as\n  {g}");
            }
        }
        Want::Typed(r) => match lib("reading a typed value", || Rec::deserialize(n.clone())) {
            Ok(g) if g == **r => {}
            Ok(g) => violation!("typed-record-altered", "acknowledged record {i} was written as\n  {r:?}\nand read back as\n  {g:?}"),
            Err(e) => violation!("typed-record-lost", "acknowledged record {i} was written as\n  {r:?}\nand reading it back failed: {} at {}", e.msg, e.pos),
        },
        Want::Cyclic(w, tab) => {
            let g = sut::canon::canon(n, true, false);
            if g != *w {
                violation!("record-altered", "acknowledged cyclic record {i} was written as\n  {w}\nand read back as\n  {g}");
            }
            if let Some(a) = cyclic {
                let mut g: Vec<_> = a.iter().map(|(k, n)| (k.clone(), sut::canon::canon(n, true, false))).collect();
                let mut w = tab.clone();
                g.sort();
                w.sort();
                if g != w {
                    violation!("anchors-altered", "anchors of acknowledged record {i} were written as\n  {w:?}\nand read back as\n  {g:?}");
                }
            }
        }
    }
}

fn recover<R: Repr>(img: &[u8], want: &[Want], end_marker: bool) {
    rt::stat("op:recover");
    let cyclic = want.iter().any(|w| matches!(w, Want::Cyclic(..)));
    let mut r = Reader::<R>::new(img, cyclic);
    let consume = chance(1, 3);
    let mut base = 0;
    let mut nodes = vec![];
    for i in 0..want.len() {
        let g = lib("recovering", || r.next_doc());
        match g {
            Got::Doc(n) => nodes.push(n),
            Got::End => violation!("record-lost", "the log ended before acknowledged record {i} of {}", want.len()),
            Got::Bad(e) => violation!("record-lost", "acknowledged record {i} of {} could not be read: {e}", want.len()),
        }
        if consume {
            base += r.at();
            lib("handing back", || r.consume());
            r.attach(&img[base..]);
        }
    }
    let a = r.anchors();
    for (i, (w, n)) in want.iter().zip(&nodes).enumerate() {
        compare(i, w, n, a.get(i));
    }
    let _ = end_marker;
}

/// The text of another program, torn between a bracket or a quote and its
/// end: what is complete is read, and the torn document is not read at all.
fn torn<R: Repr>() {
    rt::stat("op:torn_inside");
    shm::state_note("T");
    let mut m = gen::mix();
    m.flow = true;
    m.quotes = true;
    m.anchors = false;
    m.aliases = false;
    let mut t = String::new();
    if m.handles {
        t += &gen::garnish(gen::PRELUDE);
    }
    let mut want = vec![];
    for _ in 0..choose(3) {
        let d = gen::document(&m);
        want.push(gen::canon(&d, &mut vec![], true));
        t += &gen::render_doc(&m, &d, true).out;
        if chance(1, 2) {
            t += "...\n";
        }
    }
    let d = gen::document(&m);
    let r = gen::render_doc(&m, &d, true);
    if r.closed.is_empty() {
        return;
    }
    let (a, b) = r.closed[choose(r.closed.len())];
    let mut cut = range(a + 1, b - 1);
    while !r.out.is_char_boundary(cut) {
        cut -= 1;
    }
    // A torn tag in `!<>` may show a bracket of its own.
    if cut <= a || r.out[a..cut].contains("!<") {
        return;
    }
    rt::nontrivial();
    t += &r.out[..cut];
    t += pick(&["", "", "\n", " ", "\n...\n", "\n---\nok\n", "\nk: v\n", "\n- v\n- w\n", "\0\0", "\n: v\n", ", v", ": v"]);
    ev!("torn {t:?}");
    rt::stat("fault:torn_inside");
    let r = lib("loading a torn text", || sut::load_keep::<R>(t.as_bytes(), false).map(|v| v.0));
    if let Ok(v) = r {
        let v: Vec<_> = v.iter().map(|n| sut::canon::canon(n, true, false)).collect();
        violation!("torn-accepted", "a text torn inside of brackets or quotes was read as {v:?}\n{t}");
    }
    let mut r = Reader::<R>::new(t.as_bytes(), false);
    for (i, w) in want.iter().enumerate() {
        match lib("recovering", || r.next_doc()) {
            Got::Doc(n) => {
                let g = sut::canon::canon(&n, true, false);
                if g != *w {
                    violation!("record-altered", "document {i} in front of a torn one was written as\n  {w}\nand read back as\n  {g}\n{t}");
                }
            }
            Got::End => violation!("record-lost", "the text ended before document {i} of {}\n{t}", want.len()),
            Got::Bad(e) => violation!("record-lost", "document {i} in front of a torn one could not be read: {e}\n{t}"),
        }
    }
    match lib("recovering", || r.next_doc()) {
        Got::Bad(_) => rt::stat("probe:torn_refused"),
        Got::Doc(n) => violation!("torn-accepted", "a document torn inside of brackets or quotes was read as {}\n{t}", sut::canon::canon(&n, true, false)),
        Got::End => violation!("torn-accepted", "a torn document was passed over\n{t}"),
    }
}

fn go<R: Repr>() {
    let mut m = gen::mix();
    m.anchors = false;
    m.aliases = false;
    if chance(1, 2) {
        m.depth = 1;
    }
    let end_marker = chance(1, 2);
    shm::state_note(if end_marker { "E" } else { "S" });
    let mut disk = Disk { durable: vec![], pending: vec![], stale: vec![] };
    if chance(1, 2) {
        // An older generation of the file.
        for _ in 0..range(1, 3) {
            let (t, _) = record::<R>(&m);
            disk.stale.extend(t.bytes());
            disk.stale.extend(b"...\n");
        }
    }
    let mut acked: Vec<Want> = vec![];
    for _generation in 0..pick(&[1usize, 1, 2, 3]) {
        let n = range(1, 4);
        for k in 0..n {
            span(|| {
                let (t, w) = record::<R>(&m);
                let framed = if end_marker { format!("---\n{t}...\n") } else { format!("{t}---\n") };
                ev!("append {framed:?}");
                // Written in pieces; the crash may come between any two.
                let mut at = 0;
                while at < framed.len() {
                    let e = (at + 1 + small(30)).min(framed.len());
                    disk.pending.extend(&framed.as_bytes()[at..e]);
                    at = e;
                    sched::advance(1000 * choose(50) as u64);
                    if k + 1 == n && chance(1, 6) {
                        return; // crash in the middle of this record
                    }
                }
                if k + 1 < n || chance(1, 2) {
                    disk.sync();
                    sched::advance(1_000_000);
                    acked.extend(w);
                    rt::stat("probe:record_acknowledged");
                }
            });
        }
        let img = disk.crash();
        if img.len() > disk.durable.len() && !acked.is_empty() {
            rt::nontrivial();
        }
        ev!("crash: {} bytes durable, found {} bytes, tail {:?}", disk.durable.len(), img.len(), String::from_utf8_lossy(&img[disk.durable.len()..]));
        shm::state_note(&format!("{} {}", acked.len(), (img.len() - disk.durable.len()).min(3)));
        recover::<R>(&img, &acked, end_marker);
        // Without a tail the whole file reads at once, too.
        if img.len() == disk.durable.len() && !acked.is_empty() {
            let r = lib("loading the log", || sut::load_cyclic::<R>(&img));
            match r {
                Err(e) => violation!("log-unreadable", "a log of complete records could not be read at once: {e}"),
                Ok((v, a)) => {
                    let extra = usize::from(!end_marker);
                    if v.len() != acked.len() + extra {
                        violation!("log-split-differently", "{} records were written and {} documents read at once", acked.len(), v.len() - extra.min(v.len()));
                    }
                    for (i, (w, n)) in acked.iter().zip(&v).enumerate() {
                        compare(i, w, n, a.get(i));
                    }
                }
            }
        }
        // Repair: cut the file behind the last acknowledged record and go on.
    }
}

fn run() {
    if chance(1, 8) {
        return if chance(1, 4) { torn::<ArcRepr>() } else { torn::<RcRepr>() };
    }
    if chance(1, 4) {
        go::<ArcRepr>()
    } else {
        go::<RcRepr>()
    }
}

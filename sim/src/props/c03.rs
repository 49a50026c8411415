//! C03: a stream read document by document equals the same stream read at once.
use super::{lib, show, Prop};
use crate::{
    fault,
    gen::{self, Item, Val},
};
use rt::{
    ev, sched, shm,
    tape::{chance, choose, pick, range, span},
    violation,
};
use sut::{
    canon::canon,
    err_name,
    stream::{Got, Reader},
    yp::{parser::Anchors, repr::*, Node},
};

pub const PROP: Prop = Prop {
    id: "C03",
    run: || sched::run_one(Box::new(run)),
    quick: 300_000,
    limit: 4_000_000_000,
    rule: "1-3 streams of 1-6 documents with anchors, tags and tag handles arrive in drawn groups of pieces and are read in a drawn interleaving by one loader each, with and without handing back consumed bytes; each stream is also loaded at once; non-trivial = a stream was read in at least two attachments, or after handing bytes back, or was damaged; distinct = different event log (streams, deliveries, results)",
    measure: "hash of the delivery and reading schedule with the kind of every result",
    stubs: &["transport (pieces delivered in drawn groups, delays)", "process entropy"],
    assumptions: &[
        "a piece ends where a document ends: at a splitter or behind an end marker",
        "damaged streams are compared with the whole text attached (a piece boundary inside a document is not a delivery the loader can know of)",
    ],
};

struct Stream {
    text: Vec<u8>,
    /// Ends of the pieces.
    ends: Vec<usize>,
    docs: Vec<Item>,
    cyclic: bool,
    /// First document that must be rejected.
    bad: Option<usize>,
    damaged: bool,
    shape: String,
}

fn retag(i: &mut Item, f: &dyn Fn(&str) -> Option<String>) {
    if let Some((w, t)) = &mut i.tag {
        if let Some(n) = f(w) {
            *t = n;
        }
    }
    match &mut i.val {
        Val::Seq(v) => v.iter_mut().for_each(|i| retag(i, f)),
        Val::Map(v) => v.iter_mut().for_each(|(k, i)| {
            retag(k, f);
            retag(i, f);
        }),
        _ => {}
    }
}

fn names(i: &Item, v: &mut Vec<String>) {
    if let Some(a) = &i.anchor {
        v.push(a.clone());
    }
    match &i.val {
        Val::Seq(w) => w.iter().for_each(|i| names(i, v)),
        Val::Map(w) => w.iter().for_each(|(k, i)| {
            names(k, v);
            names(i, v);
        }),
        _ => {}
    }
}

fn stream() -> Stream {
    let mut m = gen::mix();
    if chance(2, 3) {
        m.anchors = true;
        m.aliases = true;
    }
    m.depth = m.depth.min(3);
    m.width = m.width.min(3);
    let cyclic = chance(1, 3);
    let mut text = String::new();
    let (mut bang, mut bang2) = (None, None);
    let mut prelude = false;
    if chance(1, 5) {
        text += "%YAML 1.2\n";
        prelude = true;
    }
    if m.handles {
        text += gen::PRELUDE;
        prelude = true;
    }
    if m.tags && chance(1, 4) {
        text += "%TAG ! tag:loc.org,1:\n";
        bang = Some("tag:loc.org,1:");
        prelude = true;
    }
    if m.tags && chance(1, 4) {
        text += "%TAG !! tag:sec.org,1:\n";
        bang2 = Some("tag:sec.org,1:");
        prelude = true;
    }
    text = gen::garnish(&text);
    let mut n = range(1, 6);
    if chance(1, 24) {
        n = range(7, 40);
        m.depth = 1;
        m.wrap = 0;
        m.tail = 0;
    }
    let mut docs: Vec<Item> = vec![];
    let mut ends = vec![];
    let mut bad = None;
    let mut shape = String::new();
    for k in 0..n {
        span(|| {
            let mut d = gen::document(&m);
            retag(&mut d, &|w| {
                let r = w.strip_prefix('!')?;
                if let Some(r) = r.strip_prefix('!') {
                    return Some(format!("{}{r}", bang2?));
                }
                if r.contains('!') || r.starts_with('<') {
                    return None;
                }
                Some(format!("{}{r}", bang?))
            });
            if k > 0 && bad.is_none() && chance(1, 8) {
                // An alias of a name that only an earlier document defines.
                let (mut own, mut old) = (vec![], vec![]);
                names(&d, &mut own);
                docs.iter().for_each(|d| names(d, &mut old));
                old.retain(|a| !own.contains(a));
                if !old.is_empty() {
                    rt::fault("fault:alias_of_other_document");
                    d = Val::Seq(vec![d, Val::Alias(pick(&old.iter().map(String::as_str).collect::<Vec<_>>()).to_string()).into()]).into();
                    bad = (!cyclic).then_some(k);
                    shape.push('x');
                }
            }
            let explicit = k > 0 || prelude || chance(1, 2);
            text += &gen::render_doc(&m, &d, explicit).out;
            match choose(6) {
                0 => text += "...\n",
                1 => text += "...\n# between\n",
                2 if m.comments => text += "# trailing\n\n",
                3 if chance(1, 60) => {
                    text += "...\n";
                    text += &gen::filler();
                }
                _ => {}
            }
            ends.push(text.len());
            docs.push(d);
        });
    }
    let mut s = Stream { text: text.into_bytes(), ends, docs, cyclic, bad, damaged: false, shape };
    if chance(1, 5) {
        s.damaged = true;
        for _ in 0..range(1, 2) {
            fault::damage(&mut s.text);
        }
        s.text.truncate(20_000);
        s.ends = vec![s.text.len()];
    }
    s
}

fn doc<R: Repr>(n: &Node<R>) -> String {
    canon(n, true, true)
}

fn table<R: Repr>(a: &Anchors<R>) -> String {
    a.iter().map(|(k, n)| format!("&{k} {}\n", doc(n))).collect()
}

/// Canonical text with anchors and placeholders, for cyclic mode.
fn raw(i: &Item) -> String {
    fn strip(i: &mut Item) {
        i.anchor = None;
        match &mut i.val {
            Val::Seq(v) => v.iter_mut().for_each(strip),
            Val::Map(v) => v.iter_mut().for_each(|(k, i)| {
                strip(k);
                strip(i);
            }),
            _ => {}
        }
    }
    let mut i = i.clone();
    strip(&mut i);
    gen::canon(&i, &mut vec![], true)
}

fn model_table(i: &Item, cyclic: bool, env: &mut Vec<(String, String)>, out: &mut Vec<(String, String)>) {
    // Definitions with what the node holds, in the mode.
    if cyclic {
        fn walk(i: &Item, out: &mut Vec<(String, String)>) {
            if let Some(a) = &i.anchor {
                out.push((a.clone(), raw(i)));
            }
            match &i.val {
                Val::Seq(v) => v.iter().for_each(|i| walk(i, out)),
                Val::Map(v) => v.iter().for_each(|(k, i)| {
                    walk(k, out);
                    walk(i, out);
                }),
                _ => {}
            }
        }
        walk(i, out);
    } else {
        gen::canon(i, env, true);
        out.extend(env.iter().cloned());
    }
    out.sort();
}

struct Whole {
    docs: Vec<String>,
    tables: Vec<String>,
    err: Option<String>,
}

/// The stream at once, checked against the model.
fn whole<R: Repr>(s: &Stream) -> Whole {
    use sut::yp::parser::Loader;
    let mut l = Loader::<R>::new(&s.text).cyclic_mode(s.cyclic);
    match lib("loading at once", || l.parse()) {
        Err(e) => {
            if !s.damaged && s.bad.is_none() {
                violation!("stream-rejected", "a stream of well-formed documents was rejected: {e}");
            }
            Whole { docs: vec![], tables: vec![], err: Some(err_name(&e)) }
        }
        Ok(v) => {
            if let Some(k) = s.bad {
                if !s.damaged {
                    violation!("foreign-anchor", "document {k} uses an anchor that only another document defines and was accepted");
                }
            }
            let a = l.get_anchors();
            if !s.damaged {
                if v.len() != s.docs.len() {
                    violation!("documents-lost", "{} documents were sent, {} were read at once", s.docs.len(), v.len());
                }
                if a.len() != v.len() {
                    violation!("anchor-tables", "{} documents and {} anchor tables", v.len(), a.len());
                }
                for (i, (n, d)) in v.iter().zip(&s.docs).enumerate() {
                    let mut env = vec![];
                    let want = if s.cyclic { raw(d) } else { gen::canon(d, &mut env, true) };
                    let got = canon(n, true, false);
                    if want != got {
                        violation!("document-altered", "document {i} was sent as\n  {want}\nand read at once as\n  {got}");
                    }
                    let mut want = vec![];
                    model_table(d, s.cyclic, &mut vec![], &mut want);
                    let got: Vec<_> = a[i].iter().map(|(k, n)| (k.clone(), n)).collect();
                    let wn: Vec<_> = want.iter().map(|w| &w.0).collect();
                    let gn: Vec<_> = got.iter().map(|g| &g.0).collect();
                    if wn != gn {
                        violation!("anchor-names", "document {i} defines {wn:?}, its table has {gn:?}");
                    }
                    for (w, g) in want.iter().zip(&got) {
                        // The tag of the anchored node itself is checked with it.
                        let t = canon(g.1, true, false);
                        let t2 = if s.cyclic { t.clone() } else { untag(g.1) };
                        if w.1 != t2 {
                            violation!("anchor-value", "anchor {} of document {i} names\n  {}\nin the text and\n  {t}\nin the table", w.0, w.1);
                        }
                    }
                }
            }
            Whole { docs: v.iter().map(doc).collect(), tables: a.iter().map(table).collect(), err: None }
        }
    }
}

/// Canonical text without the node's own tag.
fn untag<R: Repr>(n: &Node<R>) -> String {
    let c = Node::<R>::new_repr(n.rc_ref().clone(), 0, "");
    canon(&c, true, false)
}

struct Run<'a, R: Repr> {
    s: &'a Stream,
    w: &'a Whole,
    r: Reader<'a, R>,
    base: usize,
    /// Pieces delivered.
    have: usize,
    docs: Vec<Node<R>>,
    done: bool,
    by_parse: bool,
    /// Read and not handed back in the attachment.
    skip: bool,
    attached: usize,
    err: Option<String>,
}

impl<'a, R: Repr> Run<'a, R> {
    fn deliver(&mut self) {
        let left = self.s.ends.len() - self.have;
        let k = range(1, left.max(1)).min(left);
        self.have += k;
        sched::advance(1000 * choose(100) as u64);
        self.attach();
        if self.have < self.s.ends.len() {
            rt::nontrivial();
            rt::stat("fault:stream_in_pieces");
        }
        ev!("  deliver {k} pieces, bytes {}..{}", self.base, self.s.ends[self.have - 1]);
    }

    fn attach(&mut self) {
        let end = self.s.ends[self.have - 1];
        self.r.attach(&self.s.text[self.base..end]);
        self.attached += 1;
    }

    fn hand_back(&mut self) {
        rt::fault("fault:bytes_handed_back");
        self.base += self.r.at();
        lib("handing back", || self.r.consume());
        self.attach();
        ev!("  handed back up to {}", self.base);
    }

    fn fin(&mut self, e: Option<String>) {
        self.err = e;
        self.done = true;
    }

    fn step(&mut self) {
        if self.by_parse {
            // All documents of the attached text.
            self.deliver();
            let l = self.r.l();
            match lib("loading a piece", || l.parse()) {
                Ok(v) => {
                    shm::state_note(&format!("p{}", v.len()));
                    self.docs.extend(v);
                    self.hand_back();
                    if self.have == self.s.ends.len() {
                        self.fin(None);
                    }
                }
                Err(e) => self.fin(Some(err_name(&e))),
            }
            return;
        }
        if self.have == 0 || (self.have < self.s.ends.len() && chance(1, 3)) {
            return self.deliver();
        }
        match lib("reading the next document", || self.r.next_doc()) {
            Got::Doc(n) => {
                shm::state_note("d");
                ev!("  document {}", self.docs.len());
                self.docs.push(n);
                if chance(1, 2) {
                    self.hand_back();
                }
            }
            Got::End if self.have < self.s.ends.len() => {
                shm::state_note("w");
                self.deliver()
            }
            Got::End => self.fin(None),
            Got::Bad(e) => {
                shm::state_note("b");
                let n = err_name(&e);
                self.fin(Some(if n == "no splitter" { "document splitter".into() } else { n }))
            }
        }
    }

    fn check(self) {
        let (s, w) = (self.s, self.w);
        ev!("  read {} documents, error {:?}; at once {} documents, error {:?}", self.docs.len(), self.err, w.docs.len(), w.err);
        if self.err != w.err {
            violation!("different-outcome", "document by document: {:?}; at once: {:?}", self.err, w.err);
        }
        if w.err.is_some() {
            if let (Some(k), false) = (s.bad, s.damaged || self.by_parse) {
                if self.docs.len() != k {
                    violation!("rejected-elsewhere", "document {k} is wrong, reading stopped after {}", self.docs.len());
                }
                for (i, (n, d)) in self.docs.iter().zip(&s.docs).enumerate() {
                    let want = gen::canon(d, &mut vec![], true);
                    let got = canon(n, true, false);
                    if want != got {
                        violation!("document-altered", "document {i} was sent as\n  {want}\nand read from the stream as\n  {got}");
                    }
                }
            }
            return;
        }
        let docs: Vec<_> = self.docs.iter().map(doc).collect();
        if docs.len() != w.docs.len() {
            violation!("documents-lost", "document by document {} documents, at once {}", docs.len(), w.docs.len());
        }
        for (i, (a, b)) in docs.iter().zip(&w.docs).enumerate() {
            if a != b {
                violation!("document-differs", "document {i} read from the stream\n  {a}\nread at once\n  {b}");
            }
        }
        let tables: Vec<_> = self.r.anchors().iter().map(table).collect();
        if tables != w.tables {
            violation!("anchors-differ", "anchor tables from the stream\n{tables:#?}\nread at once\n{:#?}", w.tables);
        }
    }
}

fn go<R: Repr>() {
    let streams: Vec<Stream> = (0..pick(&[1usize, 1, 2, 3])).map(|_| span(stream)).collect();
    for (i, s) in streams.iter().enumerate() {
        ev!("stream {i}{}{}, pieces {:?}\n   {}", if s.cyclic { " cyclic" } else { "" }, if s.damaged { " damaged" } else { "" }, s.ends, show(&s.text));
        shm::state_note(&format!("s{}{}{}", s.docs.len(), s.damaged, s.shape));
    }
    let early = chance(1, 2);
    let mut whole_: Vec<Option<Whole>> = streams.iter().map(|s| early.then(|| whole::<R>(s))).collect();
    let dummy = Whole { docs: vec![], tables: vec![], err: None };
    let mut runs: Vec<Run<R>> = streams
        .iter()
        .map(|s| Run {
            s,
            w: &dummy,
            r: Reader::new(b"", s.cyclic),
            base: 0,
            have: 0,
            docs: vec![],
            done: false,
            by_parse: chance(1, 5),
            skip: false,
            attached: 0,
            err: None,
        })
        .collect();
    loop {
        let live: Vec<usize> = (0..runs.len()).filter(|i| !runs[*i].done).collect();
        if live.is_empty() {
            break;
        }
        let i = live[choose(live.len())];
        ev!("reader {i}");
        shm::state_note(&i.to_string());
        span(|| runs[i].step());
    }
    for (i, w) in whole_.iter_mut().enumerate() {
        if w.is_none() {
            *w = Some(whole::<R>(&streams[i]));
        }
    }
    for (r, w) in runs.into_iter().zip(&whole_) {
        let _ = (r.skip, r.attached);
        if r.s.damaged {
            rt::nontrivial();
        }
        Run { w: w.as_ref().unwrap(), ..r }.check();
    }
}

fn run() {
    if chance(1, 4) {
        go::<ArcRepr>()
    } else {
        go::<RcRepr>()
    }
}

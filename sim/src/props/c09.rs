//! C09: positions and error messages point at the true place.
use super::{
    c01, lib, show,
    typed::{fitting, schema, spots},
    Prop,
};
use crate::{
    fault,
    gen::{self, Item, Val},
};
use rt::{
    ev, sched, shm,
    tape::{chance, choose, pick, range, span},
    violation,
};
use sut::{
    canon::canon,
    err_name,
    peer::{self, Mode},
    probe, schema as sch,
    stream::{Got, Reader},
    yp::{indicated_msg, indicated_msg_file, parser::PError, repr::*, Node, Yaml},
};

pub const PROP: Prop = Prop {
    id: "C09",
    run: || sched::run_one(Box::new(run)),
    quick: 300_000,
    limit: 4_000_000_000,
    rule: "streams of documents with known places of every scalar arrive in groups of pieces, with and without handing back consumed bytes; streams are damaged, shortened, moved behind other text, or given a known fault at a known place; old positions are asked of new contents; non-trivial = the stream was damaged, moved, delivered in pieces, or given a known fault, or an old position was used; distinct = different event log",
    measure: "kinds of results with line and column classes",
    stubs: &["transport (pieces, damage)", "process entropy"],
    assumptions: &["a message describes the text that is attached to the reader when it fails"],
};

// ---- independent places ----

struct Place {
    line: usize,
    col: usize,
    text: String,
}

fn place(doc: &[u8], pos: u64) -> Place {
    let pos = if pos > doc.len() as u64 { doc.len() } else { pos as usize };
    let mut line = 1;
    let mut start = 0;
    for (i, c) in doc[..pos].iter().enumerate() {
        if *c == 10 {
            line += 1;
            start = i + 1;
        }
    }
    let mut end = start;
    while end < doc.len() && doc[end] != 10 {
        end += 1;
    }
    Place { line, col: pos - start + 1, text: String::from_utf8_lossy(&doc[start..end]).into_owned() }
}

impl Place {
    fn msg(&self) -> String {
        let mut s = format!("{}:{}\n{}\n", self.line, self.col, self.text);
        for _ in 1..self.col {
            s.push(' ');
        }
        s + "^"
    }
}

/// The place an error message names: offset in the text it describes.
fn error_place(doc: &[u8], e: &PError, what: &str) -> Option<usize> {
    let PError::Terminate { name, msg } = e else {
        return None;
    };
    let shown = lib("formatting an error", || e.to_string());
    let bad = |why: &str| -> ! { violation!("message", "{what}: the error `{name}` {why}\n{msg}") };
    if !shown.contains(msg.as_str()) || !shown.contains(name) {
        bad("is shown without its name or place");
    }
    let mut head = msg.lines().next().unwrap_or("").split(':');
    let (Some(Ok(l)), Some(Ok(c)), None) = (head.next().map(str::parse::<usize>), head.next().map(str::parse::<usize>), head.next()) else {
        bad("does not start with a line and a column");
    };
    // The offset of that line and column.
    let mut start = 0;
    for k in 1..l.max(1) {
        match doc[start..].iter().position(|c| *c == 10) {
            Some(n) => start += n + 1,
            None => bad(&format!("names line {l}, the text has {k}")),
        }
    }
    let len = doc[start..].iter().position(|c| *c == 10).unwrap_or(doc.len() - start);
    if c == 0 || l == 0 || c - 1 > len {
        bad(&format!("names column {c}, the line has {len} bytes"));
    }
    let at = start + c - 1;
    let want = place(doc, at as u64).msg();
    if want != *msg {
        bad(&format!("should look like\n{want}"));
    }
    Some(at)
}

// ---- streams with known places ----

struct Stream {
    text: String,
    ends: Vec<usize>,
    docs: Vec<Item>,
    /// Per document: places and contents of scalars in order.
    marks: Vec<Vec<(usize, String)>>,
}

fn stream(n: usize, tweak: impl Fn(&mut gen::Mix)) -> Stream {
    let mut m = gen::mix();
    m.depth = m.depth.min(3);
    m.width = m.width.min(4);
    tweak(&mut m);
    let mut s = Stream { text: String::new(), ends: vec![], docs: vec![], marks: vec![] };
    if m.handles {
        s.text += &gen::garnish(gen::PRELUDE);
    }
    for _ in 0..n {
        span(|| {
            let d = gen::document(&m);
            let base = s.text.len();
            let r = gen::render_doc(&m, &d, true);
            s.text += &r.out;
            s.marks.push(r.scalars.into_iter().map(|(p, c)| (p + base, c)).collect());
            match choose(5) {
                0 => s.text += "...\n",
                1 if m.comments => s.text += "# trailing\n\n",
                2 if chance(1, 60) => {
                    s.text += "...\n";
                    s.text += &gen::filler();
                }
                _ => {}
            }
            s.ends.push(s.text.len());
            s.docs.push(d);
        });
    }
    s
}

fn compare<R: Repr>(d: &Item, n: &Node<R>, marks: &mut std::slice::Iter<(usize, String)>, s: &Stream, k: usize) {
    match (&d.val, n.yaml()) {
        (Val::Seq(v), Yaml::Seq(w)) if !v.is_empty() => v.iter().zip(w).for_each(|(d, n)| compare(d, n, marks, s, k)),
        (Val::Map(v), Yaml::Map(w)) if !v.is_empty() => v.iter().zip(w).for_each(|((a, b), (c, e))| {
            compare(a, c, marks, s, k);
            compare(b, e, marks, s, k);
        }),
        (Val::Seq(_) | Val::Map(_), _) => {}
        _ => {
            let Some((at, what)) = marks.next() else {
                return;
            };
            if n.pos() != *at as u64 {
                violation!(
                    "scalar-place",
                    "{what} of document {k} is at {at} ({}) and the node says {} ({})",
                    place(s.text.as_bytes(), *at as u64).msg(),
                    n.pos(),
                    place(s.text.as_bytes(), n.pos()).msg()
                );
            }
        }
    }
}

fn scalars<R: Repr>() {
    rt::stat("op:places_of_scalars");
    let s = stream(range(1, 4), |_| {});
    let bytes = s.text.as_bytes();
    ev!("stream, pieces end at {:?}\n   {}", s.ends, show(bytes));
    let cyclic = chance(1, 2);
    let mut have = 0;
    let mut base = 0;
    let mut r = Reader::<R>::new(b"", cyclic);
    let mut docs = vec![];
    while docs.len() < s.docs.len() {
        if have == docs.len() {
            have += range(1, s.ends.len() - have);
            if have < s.ends.len() || base > 0 {
                rt::fault("fault:stream_in_pieces");
            }
            r.attach(&bytes[base..s.ends[have - 1]]);
            ev!("  deliver up to {}", s.ends[have - 1]);
        }
        match lib("reading one document", || r.next_doc()) {
            Got::Doc(n) => docs.push(n),
            Got::End => violation!("rejected", "document {} is missing", docs.len()),
            Got::Bad(e) => violation!("rejected", "document {} of a well-formed stream: {e}", docs.len()),
        }
        if chance(1, 3) {
            rt::fault("fault:bytes_handed_back");
            base += r.at();
            lib("handing back", || r.consume());
            r.attach(&bytes[base..s.ends[have - 1]]);
            ev!("  hand back up to {base}");
        }
    }
    for (k, n) in docs.iter().enumerate() {
        compare(&s.docs[k], n, &mut s.marks[k].iter(), &s, k);
        everywhere(n, bytes, "a node");
    }
    shm::state_note(&format!("{} {}", docs.len(), bytes.len() / 64));
}

// ---- rules for every node of every stream ----

/// All nodes in order of the text.
fn walk<'a, R: Repr>(n: &'a Node<R>, out: &mut Vec<&'a Node<R>>) {
    if out.len() > 3000 {
        return;
    }
    out.push(n);
    match n.yaml() {
        Yaml::Seq(v) => v.iter().for_each(|n| walk(n, out)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            walk(k, out);
            walk(v, out);
        }),
        _ => {}
    }
}

fn everywhere<R: Repr>(n: &Node<R>, bytes: &[u8], what: &str) {
    let mut v = vec![];
    walk(n, &mut v);
    for n in v {
        if n.pos() > bytes.len() as u64 {
            violation!("outside", "{what}, {}, is at {} in a stream of {} bytes", canon(n, true, false), n.pos(), bytes.len());
        }
        if let Some(w) = lib("accessors", || probe::wrong_places(n)) {
            violation!("accessor-place", "{what}, {}, is at {} and {w}", canon(n, true, false), n.pos());
        }
    }
}

/// What the text shows where a node of a stream without aliases stands.
fn in_text<R: Repr>(n: &Node<R>, bytes: &[u8], cyclic: bool) {
    let mut v = vec![];
    walk(n, &mut v);
    for n in v {
        let at = n.pos() as usize;
        let shown = String::from_utf8_lossy(&bytes[at..bytes.len().min(at + 9000)]).into_owned();
        let bad = |why: &str| -> ! { violation!("not-there", "{} {why} at {at}, where the text is\n{}", canon(n, true, false), show(shown.as_bytes()).chars().take(300).collect::<String>()) };
        if cyclic {
            // Parts come behind the whole, items in order, values behind keys.
            // A repeated key takes a later value, so pairs have no order.
            let order = |a: &Node<R>, b: &Node<R>| {
                if a.pos() > b.pos() {
                    bad(&format!("has {} at {} in front of {} at {} and is", canon(a, true, false), a.pos(), canon(b, true, false), b.pos()));
                }
            };
            match n.yaml() {
                Yaml::Seq(v) => {
                    let mut last = n;
                    for i in v {
                        order(last, i);
                        last = i;
                    }
                }
                Yaml::Map(m) => m.iter().for_each(|(k, v)| {
                    order(n, k);
                    order(k, v);
                }),
                _ => {}
            }
        }
        let rest = shown.trim_start_matches([' ', '\n', '\r', '\t']);
        match n.yaml() {
            Yaml::Int(t) if cyclic && !rest.starts_with(t.as_str()) => bad("says it is"),
            Yaml::Alias(a) if !rest.strip_prefix('*').is_some_and(|s| s.starts_with(a.as_str())) => bad("says it is"),
            Yaml::Bool(b) if cyclic && !rest.to_ascii_lowercase().starts_with(if *b { "true" } else { "false" }) => bad("says it is"),
            Yaml::Float(t) if cyclic && !matches!(t.as_str(), "NaN" | "inf" | "-inf") && !rest.starts_with(t.as_str()) => bad("says it is"),
            _ => {}
        }
    }
}

fn damaged<R: Repr>() {
    rt::stat("op:places_in_damaged_streams");
    let mut b = if chance(1, 2) {
        let s = stream(range(1, 3), |_| {});
        s.text.into_bytes()
    } else {
        c01::stream_bytes()
    };
    for _ in 0..choose(4) {
        rt::nontrivial();
        fault::damage(&mut b);
    }
    b.truncate(8000);
    let cyclic = chance(2, 3);
    ev!("{} bytes\n   {}", b.len(), show(&b));
    match lib("loading", || sut::load_keep::<R>(&b, cyclic)) {
        Ok((v, a)) => {
            rt::stat("probe:accepted");
            for n in &v {
                everywhere(n, &b, "a node");
                in_text(n, &b, cyclic);
            }
            for (k, n) in a.iter().flatten() {
                everywhere(n, &b, &format!("the node of anchor {k}"));
            }
            shm::state_note(&format!("ok {}", v.len()));
        }
        Err(e) => {
            rt::stat("probe:rejected");
            let at = error_place(&b, &e, "loading at once");
            shm::state_note(&format!("{} {}", err_name(&e), at.unwrap_or(0) / 16));
            ev!("  {} at {at:?}", err_name(&e));
        }
    }
}

// ---- the same text behind other text ----

fn moved<R: Repr>() {
    rt::stat("op:moved_stream");
    rt::fault("fault:text_in_front");
    let mut b = stream(range(1, 3), |m| m.handles = false).text.into_bytes();
    for _ in 0..choose(4) {
        fault::damage(&mut b);
    }
    b.truncate(8000);
    let mut t = b"---".to_vec();
    let rest = b.strip_prefix(b"---").unwrap_or(&b);
    if rest.first().is_some_and(|c| !c.is_ascii_whitespace()) {
        t.push(b' ');
    }
    t.extend_from_slice(rest);
    let front: String = if chance(1, 2) {
        // Comments and blank lines, or whole documents.
        (0..range(1, 5)).map(|_| pick(&["# in front\n", "\n", "# a: [\n", "\n\n", "  # é\n"])).collect()
    } else {
        (0..range(1, 3)).map(|_| pick(&["--- a\n", "---\n- 1\n- é\n", "---\nk: [1, 2]\n", "--- 'q'\n# c\n"])).collect()
    };
    let mut front = front;
    if chance(1, 60) {
        front += &gen::filler();
    }
    let docs = front.matches("---").count();
    let mut both = front.clone().into_bytes();
    both.extend_from_slice(&t);
    ev!("{} behind {front:?}", show(&t));
    let cyclic = chance(1, 2);
    let shift = front.len() as u64;
    let (x, y) = (lib("loading", || sut::load_keep::<R>(&t, cyclic)), lib("loading", || sut::load_keep::<R>(&both, cyclic)));
    match (x, y) {
        (Ok((v, _)), Ok((w, _))) => {
            if w.len() != v.len() + docs {
                violation!("moved", "{} documents alone, {} behind {docs} others", v.len(), w.len());
            }
            for (n, m) in v.iter().zip(&w[docs..]) {
                let (mut a, mut b) = (vec![], vec![]);
                walk(n, &mut a);
                walk(m, &mut b);
                for (n, m) in a.iter().zip(&b) {
                    if n.pos() + shift != m.pos() {
                        violation!("moved", "{} at {} moved by {shift} bytes and says {}", canon(n, true, false), n.pos(), m.pos());
                    }
                }
            }
            shm::state_note("ok");
        }
        (Err(e), Err(f)) => {
            let (p, q) = (error_place(&t, &e, "alone"), error_place(&both, &f, "behind other text"));
            if err_name(&e) != err_name(&f) || p.map(|p| p + shift as usize) != q {
                violation!("moved", "moved by {shift} bytes the error changes from {} at {p:?} to {} at {q:?}\n{e}\n{f}", err_name(&e), err_name(&f));
            }
            shm::state_note(&err_name(&e));
        }
        (x, y) => violation!("moved", "accepted alone: {}, behind other text: {}", x.is_ok(), y.is_ok()),
    }
}

// ---- a known fault at a known place ----

fn known() {
    rt::stat("op:known_fault");
    let wide = chance(1, 100);
    let mut s = stream(if wide { 1 } else { range(1, 4) }, |m| {
        if wide {
            m.long = 70_000;
            m.flow = true;
        }
        m.aliases = false;
        m.anchors = false;
        m.blocks = false;
        m.handles = false;
    });
    let all: Vec<(usize, usize)> = s.marks.iter().enumerate().flat_map(|(d, v)| v.iter().map(move |(p, _)| (d, *p))).collect();
    let Some((d, at)) = (!all.is_empty()).then(|| all[choose(all.len())]) else {
        return;
    };
    let kind = choose(3);
    let token = ["*nowhere ", "!nohandle!x ", "&twice &twice2 "][kind];
    let name = ["anchor", "tag", "anchor"][kind];
    s.text.insert_str(at, token);
    for e in &mut s.ends[d..] {
        *e += token.len();
    }
    rt::fault(["fault:undefined_alias", "fault:undefined_tag_handle", "fault:second_anchor"][kind]);
    let bytes = s.text.as_bytes();
    // All the text, or the document alone behind others.
    let from = if d > 0 && chance(1, 2) { s.ends[range(0, d - 1)] } else { 0 };
    ev!("{token:?} at {at}, reading from {from}\n   {}", show(bytes));
    let mut r = Reader::<RcRepr>::new(bytes, false);
    if from > 0 {
        rt::fault("fault:bytes_handed_back");
        let mut k = 0;
        while s.ends[k] <= from {
            if let Got::Bad(e) = lib("reading one document", || r.next_doc()) {
                violation!("rejected", "document {k} of a well-formed stream: {e}");
            }
            k += 1;
        }
        let at = r.at();
        lib("handing back", || r.consume());
        r.attach(&bytes[at..]);
    }
    let text = if from > 0 { &bytes[bytes.len() - r.l().food().len()..] } else { bytes };
    let gone = bytes.len() - text.len();
    for _ in 0..s.docs.len() {
        match lib("reading one document", || r.next_doc()) {
            Got::Doc(_) => {}
            Got::End => return,
            Got::Bad(e) => {
                let err = error_place(text, &e, "a known fault");
                ev!("  {} at {err:?}", err_name(&e));
                let Some(p) = err else { return };
                let p = p + gone;
                shm::state_note(&format!("{kind} {}", err_name(&e)));
                if err_name(&e).contains(name) {
                    let end = at + token.len() + 1;
                    if p < at || p > end {
                        violation!("error-place", "{token:?} was put at {at} and the error `{}` points at {p}\n{e}", err_name(&e));
                    }
                    rt::stat("probe:known_fault_named");
                } else if p > bytes.len() {
                    violation!("outside", "the error points at {p} in {} bytes", bytes.len());
                }
                return;
            }
        }
    }
}

// ---- typed reads ----

fn typed() {
    rt::stat("op:typed_error_place");
    let (leaf, shape) = (choose(probe::LEAVES), choose(probe::SHAPES));
    let m = gen::small_mix();
    let good = |k: usize| -> Val {
        match leaf {
            0 => Val::Bool(k % 2 == 0),
            7 => Val::Str("c".into()),
            8 => Val::Null,
            3 | 4 => Val::Float(k as f64 + 0.5),
            _ => Val::Int(k as i64),
        }
    };
    let n = range(1, 5);
    let bad = choose(n);
    let word = pick(&["zzz", "not it", "wrong value"]);
    let mut count = 0;
    let mut vals = |w: usize| -> Vec<Item> {
        (0..w)
            .map(|_| {
                count += 1;
                good(count).into()
            })
            .collect()
    };
    let mut docs = vec![];
    let nd = range(1, 3);
    let bad_doc = choose(nd);
    for d in 0..nd {
        let mut items: Vec<Item> = match shape {
            3 => (0..n).map(|_| Val::Seq(vals(2)).into()).collect(),
            2 => (0..n).map(|_| Val::Seq(vals(range(1, 3))).into()).collect(),
            5 => (0..n).map(|_| Val::Map(vec![(Val::Str("k".into()).into(), vals(1).pop().unwrap()), (Val::Str("l".into()).into(), vals(1).pop().unwrap())]).into()).collect(),
            _ => vals(n),
        };
        if d == bad_doc {
            let w: Item = Val::Str(word.into()).into();
            match &mut items[bad].val {
                Val::Seq(v) => {
                    let k = choose(v.len());
                    v[k] = w;
                }
                Val::Map(v) => {
                    let k = choose(v.len());
                    v[k].1 = w;
                }
                v => *v = w.val,
            }
        }
        let item: Item = match shape {
            1 | 2 => Val::Map(items.into_iter().enumerate().map(|(k, v)| (Val::Str(format!("f{k}")).into(), v)).collect()).into(),
            _ => Val::Seq(items).into(),
        };
        docs.push(item);
    }
    let mut text = String::new();
    let mut at = None;
    for d in &docs {
        let r = gen::render_doc(&m, d, true);
        let want = gen::canon(&Val::Str(word.into()).into(), &mut vec![], false);
        if let Some((p, _)) = r.scalars.iter().find(|(_, c)| *c == want) {
            at = Some(p + text.len());
        }
        text += &r.out;
    }
    rt::fault("fault:wrong_kind_of_value");
    ev!("leaf {leaf} shape {shape}\n   {}", show(text.as_bytes()));
    let Some(at) = at else { return };
    match lib("a typed read", || probe::typed_pos(&text, leaf, shape)) {
        Ok(()) => violation!("typed-place", "{word:?} was accepted as leaf {leaf}"),
        Err(p) if p != at as u64 => {
            violation!("typed-place", "{word:?} is at {at} ({}) and the error says {p} ({})", place(text.as_bytes(), at as u64).msg(), place(text.as_bytes(), p).msg())
        }
        Err(_) => shm::state_note(&format!("{leaf} {shape} {nd}")),
    }
}

// ---- one wrong value in a value of a described type ----

fn described<R: Repr>() {
    rt::stat("op:typed_error_place_by_schema");
    let m = gen::small_mix();
    let cyclic = chance(1, 3);
    let mut text = String::new();
    let nd = range(1, 3);
    let which = choose(nd);
    let mut todo = None;
    for d in 0..nd {
        let s = schema(range(0, 3));
        let mut i = fitting(&s);
        if d == which {
            let mut all = vec![];
            spots(&s, &i, &mut vec![], &mut all);
            let (way, mut no) = all.swap_remove(choose(all.len()));
            if cyclic {
                no.push(Val::Alias("nowhere".into()));
            }
            if no.is_empty() {
                return;
            }
            let bad = no.swap_remove(choose(no.len()));
            let mut at = &mut i;
            for k in &way {
                at = match &mut at.val {
                    Val::Seq(v) => &mut v[k / 2],
                    Val::Map(v) => {
                        let (a, b) = &mut v[k / 2];
                        if k % 2 == 0 {
                            a
                        } else {
                            b
                        }
                    }
                    _ => unreachable!(),
                };
            }
            if let (Val::Str(_), Val::Null) = (&at.val, &bad) {
                rt::stat("probe:wrong_key");
            }
            at.val = bad.clone();
            todo = Some((s, way, bad));
        }
        text += &gen::render_doc(&m, &i, true).out;
    }
    let Some((s, way, bad)) = todo else { return };
    rt::fault(if matches!(bad, Val::Alias(_)) { "fault:unresolved_alias" } else { "fault:wrong_kind_of_value" });
    ev!("document {which} as {s:?}, wrong at {way:?}: {bad:?}\n   {}", show(text.as_bytes()));
    let v = match lib("loading", || sut::load_keep::<R>(text.as_bytes(), cyclic)) {
        Ok((v, _)) => v,
        Err(e) => violation!("rejected", "a well-formed stream: {e}"),
    };
    let mut n = &v[which];
    for k in &way {
        n = match n.yaml() {
            Yaml::Seq(v) => &v[k / 2],
            Yaml::Map(v) => {
                let (a, b) = v.iter().nth(k / 2).unwrap();
                if k % 2 == 0 {
                    a
                } else {
                    b
                }
            }
            _ => violation!("rejected", "document {which} was not read as written"),
        };
    }
    peer::arm(Mode::Off, 0);
    match lib("a typed read", || sch::read(&v[which], &s)) {
        Ok(()) => violation!("typed-place", "{bad:?} was accepted"),
        Err(e) => {
            if e.pos != n.pos() {
                violation!("typed-place", "{bad:?} is at {} ({}) and the error says {} ({})\n{e}", n.pos(), place(text.as_bytes(), n.pos()).msg(), e.pos, place(text.as_bytes(), e.pos).msg());
            }
            shm::state_note(&format!("{bad:?} {}", way.len()));
        }
    }
}

// ---- old positions, new contents ----

fn old_positions() {
    rt::stat("op:old_positions");
    rt::fault("fault:old_position_in_changed_document");
    let s = stream(range(1, 2), |_| {});
    let b = s.text.into_bytes();
    let mut now = b.clone();
    match choose(4) {
        0 => now.truncate(choose(b.len() + 1)),
        1 => {
            for _ in 0..range(1, 3) {
                fault::damage(&mut now);
            }
        }
        2 => now = c01::stream_bytes(),
        _ => now = pick(&[&b""[..], b"\n", b"a", b"\n\n\n", b"\xff\xfe\n\x80", b"a\r\nb\r\n", "é\n中\n".as_bytes()]).to_vec(),
    }
    now.truncate(4000);
    if chance(1, 60) {
        // Columns behind every width.
        let at = choose(now.len() + 1);
        let c = pick(b"x \t\xff");
        now.splice(at..at, std::iter::repeat_n(c, pick(&[255usize, 300, 65_534, 65_536, 70_000])));
    }
    let mut ps: Vec<u64> = s.marks.iter().flatten().map(|(p, _)| *p as u64).take(40).collect();
    let n = now.len() as u64;
    ps.extend([0, 1, n, n.saturating_sub(1), n + 1, b.len() as u64, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63]);
    ps.extend((0..10).map(|_| choose(b.len() + 2) as u64));
    let path = pick(&["a.yaml", "", "dir/é:1.yaml", "x\ny"]);
    ev!("{} bytes asked for {} places\n   {}", now.len(), ps.len(), show(&now));
    for p in ps {
        let want = place(&now, p).msg();
        let got = lib("a message for an old position", || indicated_msg(&now, p));
        if got != want {
            violation!("message", "position {p} of {} bytes gives\n{got}\nand is\n{want}", now.len());
        }
        let got = lib("a message for an old position", || indicated_msg_file(path, &now, p));
        if got != format!("{path}:{want}") {
            violation!("message", "position {p} of {} bytes in file {path:?} gives\n{got}\nand is\n{want}", now.len());
        }
        shm::state_note(&want.chars().take_while(|c| *c != '\n').collect::<String>());
    }
}

fn run() {
    match choose(10) {
        8 => described::<RcRepr>(),
        9 => described::<ArcRepr>(),
        0 => scalars::<RcRepr>(),
        1 => scalars::<ArcRepr>(),
        2 => damaged::<RcRepr>(),
        3 => damaged::<ArcRepr>(),
        4 => moved::<RcRepr>(),
        5 => known(),
        6 => typed(),
        _ => old_positions(),
    }
}

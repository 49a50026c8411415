//! C08: a rejected document leaves no trace in the loader.
use super::{c01, lib, show, Prop};
use crate::{
    fault,
    gen::{self, Item, Val},
};
use rt::{
    ev, sched, shm,
    tape::{chance, choose, pick, range, span},
    violation,
};
use sut::{
    canon::canon,
    err_name,
    stream::{Got, Reader},
    yp::{parser::Anchors, repr::*, Node},
};

pub const PROP: Prop = Prop {
    id: "C08",
    run: || sched::run_one(Box::new(run)),
    quick: 250_000,
    limit: 6_000_000_000,
    rule: "a stream of 2-6 pieces, some of them damaged, hostile or using anchors and handles of others, is read by one loader that recovers from every rejection in a drawn way; every document is also read by a loader that has seen nothing but the directives; non-trivial = a document was rejected and another one read afterwards; distinct = different event log (bytes, results, recoveries)",
    measure: "hash of the sequence of results, errors and recoveries",
    stubs: &["transport (damaged pieces, recovery points)", "process entropy"],
    assumptions: &["the application recovers at the start of a piece: by moving the cursor, by handing back bytes, or by attaching the next piece"],
};

pub fn bad_piece(m: &gen::Mix, out: &mut String) {
    let mut d = gen::document(m);
    match choose(8) {
        0 => *out += "--- &a1 [&a2 x, *zz]\n",
        1 => *out += pick(&["--- &a1 {a: &a1 b}\n", "--- &a1 x\n y: &a1 z: w\n", "---\n&a1 a: &a2 b\n&a1 c: d\n"]),
        2 => *out += pick(&["--- !q!x &a1 y\n", "--- [&a1 x, !q!y z]\n", "---\na: !nope!t v\n"]),
        3 => *out += pick(&["--- 'open\n", "--- \"open\n", "--- [a, b\n", "--- {a: b\n", "--- {a b}\n", "--- [}\n", "---\n    a: b\n   c: d\n", "---\n- a\n b\n"]),
        4 => {
            *out += "---\n";
            for k in 0..range(1, 6) {
                for _ in 0..k * pick(&[2usize, 3, 4, 8]) {
                    out.push(' ');
                }
                *out += pick(&["a:\n", "- b\n", "k: v\n", "? q\n", "- - c:\n", "&a1 x:\n"]);
            }
            *out += pick(&["[", "'", "*no", "!h!t", "{x", "&a1 &a1 y"]);
            out.push('\n');
        }
        5 => {
            d = Val::Seq(vec![d, Val::Alias("a1".into()).into(), Val::Alias("undefined".into()).into()]).into();
            *out += &gen::render_doc(m, &d, true).out;
        }
        _ => *out += &gen::render_doc(m, &d, true).out,
    }
}

fn doc<R: Repr>(n: &Node<R>, off: u64) -> String {
    // Positions relative to the attached text.
    fn shift<R: Repr>(n: &Node<R>, off: u64, s: &mut String) {
        use sut::yp::Yaml;
        s.push_str(&format!("{} ", n.pos().wrapping_sub(off)));
        match n.yaml() {
            Yaml::Seq(v) => v.iter().for_each(|n| shift(n, off, s)),
            Yaml::Map(m) => m.iter().for_each(|(k, v)| {
                shift(k, off, s);
                shift(v, off, s);
            }),
            _ => {}
        }
    }
    let mut s = canon(n, true, false);
    s.push_str(" @ ");
    shift(n, off, &mut s);
    s
}

fn table<R: Repr>(a: &Anchors<R>, off: u64) -> String {
    a.iter().map(|(k, n)| format!("&{k} {}\n", doc(n, off))).collect()
}

enum Res {
    Doc(String),
    End,
    Bad(String, String),
}

fn res<R: Repr>(g: &Got<R>, off: u64) -> Res {
    match g {
        Got::Doc(n) => Res::Doc(doc(n, off)),
        Got::End => Res::End,
        Got::Bad(e) => Res::Bad(err_name(e), e.to_string()),
    }
}

fn offset<R: Repr>(r: &mut Reader<R>) -> u64 {
    let at = r.at() as u64;
    r.l().indicator() - at
}

fn ready<'a, R: Repr>(prelude: &'a [u8], cyclic: bool) -> Reader<'a, R> {
    let mut r = Reader::<R>::new(prelude, cyclic);
    if let Err(e) = lib("reading directives", || r.prologue()) {
        violation!("directives-rejected", "well-formed directives were rejected: {e}");
    }
    lib("handing back", || r.consume());
    r.started(true);
    r
}

/// Directives, and one more that is refused.
const TORN: &[(&str, &str)] = &[
    ("", "%YAML 1.3\n"),
    ("", "%YAML 2.0\n"),
    ("", "%YAML x\n"),
    ("", "%YAML 1\n"),
    ("", "%YAML\n"),
    ("%YAML 1.2\n", "%YAML 1.2\n"),
    ("%YAML 1.1\n", "%YAML 1.2\n"),
    ("", "%TAG\n"),
    ("", "%TAG !\n"),
    ("", "%TAG !!\n"),
    ("", "%TAG !e!\n"),
    ("", "%TAG !q! \n"),
    ("", "%TAG !q\n"),
    ("", "%TAG q! x\n"),
    ("", "%TAG !e!x\n"),
    ("%TAG !q! tag:other.org:\n", "%YAML 9\n"),
    ("%TAG !q! tag:other.org:\n", "%TAG !q!\n"),
];

fn go<R: Repr>() {
    let mut m = gen::mix();
    m.depth = m.depth.min(3);
    m.width = m.width.min(3);
    if chance(2, 3) {
        m.anchors = true;
        m.aliases = true;
    }
    let cyclic = chance(1, 4);
    let mut prelude = String::new();
    if chance(1, 4) {
        prelude += "%YAML 1.2\n";
    }
    if m.handles {
        prelude += gen::PRELUDE;
    }
    prelude = gen::garnish(&prelude);
    let mut text = vec![];
    let mut starts = vec![];
    for _ in 0..range(2, 6) {
        span(|| {
            starts.push(text.len());
            let mut t = String::new();
            let kind = choose(3);
            if kind == 2 {
                rt::stat("fault:malformed_document");
                bad_piece(&m, &mut t);
            } else {
                let d: Item = gen::document(&m);
                t += &gen::render_doc(&m, &d, true).out;
            }
            if chance(1, 4) {
                t += "...\n";
            }
            let mut b = t.into_bytes();
            if kind == 1 {
                for _ in 0..range(1, 2) {
                    fault::damage(&mut b);
                }
                b.truncate(4000);
            } else if kind == 2 && chance(1, 6) {
                b = c01::stream_bytes();
            }
            if !b.ends_with(b"\n") {
                b.push(b'\n');
            }
            text.extend(b);
        });
    }
    // A stream whose directives are refused comes first, and the next one
    // might bring its own.
    let torn = chance(1, 5).then(|| {
        let (good, bad) = pick(TORN);
        if !(good.contains("YAML") && prelude.contains("YAML")) {
            prelude += good;
        }
        // No other directives at the start of the next stream.
        let first = &text[..starts.get(1).copied().unwrap_or(text.len())];
        let own = if chance(2, 3) && !first.contains(&b'%') {
            span(|| (0..range(1, 2)).map(|_| pick(&["%YAML 1.2\n", "%YAML 1.1\n", gen::PRELUDE, "%TAG ! tag:own.org:\n", "%TAG !! tag:bang.org:\n", "%TAG !q! tag:q.org:\n"])).collect())
        } else {
            String::new()
        };
        text.splice(0..0, own.bytes());
        starts.iter_mut().skip(1).for_each(|s| *s += own.len());
        (format!("{prelude}{bad}---\nnever read\n"), own)
    });
    let len = text.len();
    let piecewise = chance(1, 2);
    let end_of = |at: usize| if piecewise { starts.iter().copied().find(|s| *s > at).unwrap_or(len) } else { len };
    ev!("prelude {prelude:?}{}{}, pieces at {starts:?}\n   {}", if cyclic { " cyclic" } else { "" }, if piecewise { " piecewise" } else { "" }, show(&text));
    let mut rejected = 0;
    let mut own = false;
    let mut l = match &torn {
        Some((t, o)) => {
            ev!("refused directives first: {t:?}");
            let mut l = Reader::<R>::new(t.as_bytes(), cyclic);
            match lib("reading refused directives", || l.next_doc()) {
                Got::Bad(e) => {
                    rt::stat("fault:directive_refused");
                    shm::state_note(&err_name(&e));
                    ev!("  {}", err_name(&e));
                }
                _ => return,
            }
            rejected = 1;
            own = true;
            if chance(1, 2) {
                lib("handing back", || l.consume());
            }
            l.started(false);
            l.seek(0);
            if o.is_empty() {
                l.started(true);
                own = false;
            }
            l
        }
        None => ready::<R>(prelude.as_bytes(), cyclic),
    };
    let with_own = torn.as_ref().map_or_else(String::new, |(_, o)| format!("{prelude}{o}"));
    // The attached text is text[base..end].
    let (mut base, mut end) = (0, end_of(0));
    l.attach(&text[..end]);
    let mut tables = vec![];
    // What comes is read as the start of a stream.
    let mut head = own;
    for turn in 0..60 {
        let start = base + l.at();
        let off = offset(&mut l);
        // The directives of the stream itself count from its start on.
        let all = if with_own.is_empty() || (own && turn == 0) { &prelude } else { &with_own };
        let mut f = ready::<R>(all.as_bytes(), cyclic);
        f.started(!head);
        head = false;
        f.attach(&text[base..end]);
        f.seek(l.at());
        let foff = offset(&mut f);
        let (a, b) = if chance(1, 2) {
            let a = lib("reading the next document", || l.next_doc());
            (a, lib("reading it alone", || f.next_doc()))
        } else {
            let b = lib("reading it alone", || f.next_doc());
            (lib("reading the next document", || l.next_doc()), b)
        };
        let (ra, rb) = (res(&a, off), res(&b, foff));
        drop(a);
        match (&ra, &rb) {
            (Res::Doc(x), Res::Doc(y)) => {
                if x != y {
                    violation!("document-differs", "turn {turn}: after {rejected} rejected documents\n  {x}\nalone\n  {y}");
                }
                shm::state_note("d");
                ev!("  turn {turn}: document");
            }
            (Res::End, Res::End) => ev!("  turn {turn}: end"),
            (Res::Bad(n, x), Res::Bad(o, y)) => {
                if n != o || x != y {
                    violation!("error-differs", "turn {turn}: after {rejected} rejected documents\n  {x}\nalone\n  {y}");
                }
                shm::state_note(n);
                ev!("  turn {turn}: rejected, {n}");
            }
            (x, y) => {
                let s = |r: &Res| match r {
                    Res::Doc(d) => format!("document {d}"),
                    Res::End => "end".into(),
                    Res::Bad(_, m) => format!("rejected: {m}"),
                };
                violation!("outcome-differs", "turn {turn}: after {rejected} rejected documents\n  {}\nalone\n  {}", s(x), s(y));
            }
        }
        if l.at() != f.at() {
            violation!("left-differs", "turn {turn}: after {rejected} rejected documents the cursor is at {}, alone at {}", l.at(), f.at());
        }
        if let Res::Doc(_) = rb {
            if rejected > 0 {
                rt::nontrivial();
                rt::stat("probe:document_read_after_rejection");
            }
            match f.anchors().last() {
                Some(t) => tables.push((table(t, foff), off)),
                None => violation!("anchor-tables", "a document without an anchor table"),
            }
        }
        if own && turn == 0 && !matches!(ra, Res::Doc(_)) {
            // It is open which of its directives count.
            return;
        }
        match ra {
            Res::Doc(_) => {
                if chance(1, 3) {
                    base += l.at();
                    lib("handing back", || l.consume());
                    l.attach(&text[base..end]);
                }
            }
            Res::End | Res::Bad(..) => {
                let bad = !matches!(ra, Res::End);
                rejected += usize::from(bad);
                let Some(next) = (if bad { starts.iter().copied().find(|s| *s > start) } else { (end < len).then_some(end) }) else { break };
                let how = choose(3);
                shm::state_note(&format!("r{how}"));
                if bad {
                    rt::stat(["fault:recovered_by_moving_cursor", "fault:recovered_by_handing_back", "fault:recovered_by_attaching"][how]);
                }
                ev!("  recover at {next}, way {how}");
                let piece = &text[next..starts.iter().copied().find(|s| *s > next).unwrap_or(len)];
                let mut next = next;
                if chance(1, 4) && piece.starts_with(b"---") && piece.get(3).is_some_and(u8::is_ascii_whitespace) && !piece.contains(&b'%') {
                    rt::stat("fault:recovered_behind_the_marker");
                    ev!("  behind the marker");
                    next += 3;
                    head = true;
                    l.started(false);
                }
                end = end_of(next);
                match how {
                    0 => {
                        l.attach(&text[base..end]);
                        l.seek(next - base);
                    }
                    1 => {
                        lib("handing back", || l.consume());
                        base = next;
                        l.attach(&text[base..end]);
                    }
                    _ => {
                        base = next;
                        l.attach(&text[base..end]);
                        l.seek(0);
                    }
                }
            }
        }
    }
    // Each good document has its own table, in order.
    let all = l.anchors();
    let mut k = 0;
    for (i, (t, off)) in tables.iter().enumerate() {
        while k < all.len() && table(&all[k], *off) != *t {
            k += 1;
        }
        if k == all.len() {
            violation!("anchors-differ", "the anchors of accepted document {i}\n{t}\nare not those of the loader's tables\n{:#?}", all.iter().map(|a| table(a, *off)).collect::<Vec<_>>());
        }
        k += 1;
    }
}

/// A service that reads one document after another with the same loader, most
/// of them refused: the last one is read as the first one was.
fn weary<R: Repr>() {
    let mut m = gen::mix();
    m.depth = m.depth.min(4);
    m.width = m.width.min(2);
    m.anchors |= chance(1, 2);
    m.aliases = m.anchors;
    let cyclic = chance(1, 4);
    let mut prelude = String::new();
    if m.handles {
        prelude += gen::PRELUDE;
    }
    let mut pieces = vec![];
    for k in 0..range(2, 4) {
        span(|| {
            let mut t = String::new();
            if k == 0 {
                t += &gen::render_doc(&m, &gen::document(&m), true).out;
            } else if chance(1, 3) {
                // Refused in the middle of nested structures.
                t += "--- ";
                let deep = range(1, 30);
                let flow: Vec<_> = (0..deep).map(|_| pick(&["[", "{a: ", "[x, ", "{[q]: ", "[&a1 y, ", "{? a : "])).collect();
                t += &flow.concat();
                t += pick(&["*no", "!h!t v", "'", "\"", "&a1 &a1 x", "[}", "}", ""]);
                t += "\n";
            } else {
                bad_piece(&m, &mut t);
                if chance(1, 2) {
                    let mut b = t.into_bytes();
                    fault::damage(&mut b);
                    b.truncate(1000);
                    b.push(b'\n');
                    pieces.push(b);
                    return;
                }
            }
            if !t.ends_with('\n') {
                t.push('\n');
            }
            pieces.push(t.into_bytes());
        });
    }
    if pieces.iter().map(Vec::len).sum::<usize>() > 1500 {
        return;
    }
    ev!("prelude {prelude:?}{}, one after another{}", if cyclic { " cyclic" } else { "" }, pieces.iter().map(|p| format!("\n   {}", show(p))).collect::<String>());
    // What each of them gives a loader that has seen nothing.
    let alone: Vec<_> = pieces
        .iter()
        .map(|p| {
            let mut f = ready::<R>(prelude.as_bytes(), cyclic);
            f.attach(p);
            f.seek(0);
            let off = offset(&mut f);
            let got = lib("reading it alone", || f.next_doc());
            (res(&got, off), f.at())
        })
        .collect();
    if !alone.iter().any(|(r, _)| matches!(r, Res::Bad(..))) {
        return;
    }
    for (r, _) in &alone {
        shm::state_note(match r {
            Res::Doc(_) => "d",
            Res::End => "e",
            Res::Bad(n, _) => n,
        });
    }
    let turns = range(20, 200);
    let (mut rejected, mut read) = (0, 0);
    let mut l = ready::<R>(prelude.as_bytes(), cyclic);
    let order = choose(3);
    for turn in 0..turns {
        let k = match order {
            0 => turn % pieces.len(),
            1 if turn + pieces.len() < turns => pieces.len() - 1 - turn % (pieces.len() - 1),
            1 => turn % pieces.len(),
            _ => usize::from(turn % 7 != 0) * (1 + turn % (pieces.len() - 1)),
        };
        if turn % 3 == 1 {
            lib("handing back", || l.consume());
        }
        l.attach(&pieces[k]);
        l.seek(0);
        let off = offset(&mut l);
        let got = lib("reading the next document", || l.next_doc());
        let r = res(&got, off);
        let same = match (&r, &alone[k].0) {
            (Res::Doc(x), Res::Doc(y)) => x == y,
            (Res::End, Res::End) => true,
            (Res::Bad(n, x), Res::Bad(o, y)) => n == o && x == y,
            _ => false,
        };
        if !same || l.at() != alone[k].1 {
            let s = |r: &Res| match r {
                Res::Doc(d) => format!("document {d}"),
                Res::End => "end".into(),
                Res::Bad(_, m) => format!("rejected: {m}"),
            };
            violation!("outcome-differs", "turn {turn}, piece {k}: after {read} documents and {rejected} rejected ones\n  {} up to {}\nalone\n  {} up to {}", s(&r), l.at(), s(&alone[k].0), alone[k].1);
        }
        match r {
            Res::Bad(..) => rejected += 1,
            Res::Doc(_) => {
                if rejected > 0 {
                    rt::nontrivial();
                    rt::stat("probe:document_read_after_rejection");
                }
                read += 1;
            }
            Res::End => {}
        }
    }
    shm::stat_add("fault:rejected_in_a_long_run", rejected);
    ev!("  {turns} turns, order {order}: {read} documents, {rejected} rejected");
}

fn run() {
    if chance(1, 20) {
        return if chance(1, 4) { weary::<ArcRepr>() } else { weary::<RcRepr>() };
    }
    if chance(1, 4) {
        go::<ArcRepr>()
    } else {
        go::<RcRepr>()
    }
}

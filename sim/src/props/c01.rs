//! C01: damaged or hostile bytes cannot panic, hang or exhaust a reader.
use super::Prop;
use crate::{fault, gen};
use rt::{
    alloc, ev, nontrivial, sched, shm,
    tape::{chance, choose, pick, range, small},
    violation,
};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use sut::{
    guard, probe,
    stream::{self, Got, Reader},
    yp::{parser::Anchors, repr::*, Node},
};

pub const PROP: Prop = Prop {
    id: "C01",
    run: || sched::run_one(Box::new(run)),
    quick: 150_000,
    limit: 2_000_000_000,
    rule: "a stream (rendered documents, dumped documents or tokens of a hostile writer) is damaged by 0-5 drawn faults and read through drawn entry points, then every query is made on what was loaded; non-trivial = at least one fault took effect or the writer was hostile; distinct = different event log (bytes read and every result)",
    measure: "hash of the sequence of results (kind of error or shape of the documents)",
    stubs: &["storage and transport (bytes with drawn faults)", "process entropy"],
    assumptions: &[
        "time is counted in instrumented steps (edges, loads and stores of the library and its maps), memory in bytes the library asked for",
        "proportion: 30 million steps + 2 000 per byte squared up to 2 billion, and 64 MiB + 4 KiB per byte, per call",
        "operations documented to panic (indexing with []) and calls that break a documented precondition are not made",
        "documents whose aliases expand to more than 5 000 nodes are queried but not hashed, compared or dumped",
    ],
};

pub const TOKENS: &[&str] = &[
    "a", "b: ", "- ", "-", ": ", ":", "\n", "\n  ", "\n    ", "\n ", " ", "? ", "?", "[", "]", "{", "}", ", ", ",", "&x ", "*x", "&", "*", "!t ", "!!int ", "!",
    "!<t:x> ", "!h!x ", "|", "|-\n", ">", ">+\n", "'", "''", "\"", "\\\"", "\\", "\\n", "#", " # c", "%TAG ! t:\n", "%YAML 1.2\n", "%", "---", "\n---\n", "...", "\n...\n",
    "1", "-1", "0x1f", "0o7", "1.5", "1e5", "1e+", "-.", ".inf", ".nan", "null", "~", "true", "\t", "\r\n", "\r", "\u{0}", "é", "中", "<<: ", "=", "@", "`", "\\u12",
    "\\x", "\\x4", "\\x41", "\\u00e9", "\\u{1", "\\U0001F600", "\\0", "\\a", "\\e", "\\/", "\\_", "\\N", "\\L", "\\P", "\\ ", "\\\n", "\\é", "+", "+1", "0b1", "1_0", "0x", "é\u{301}", "\u{feff}", "\u{85}", "\u{2028}",
    "!!binary ", "!!str ", "!!map ", "!!seq ", "!!null ", "!a!", "!<", "!<>", ">", "&a-b", "*a-b", "&é", "|2\n", "|+2\n", ">-\n", "|\n\n", "<<", "%YAML 1.1\n", "%YAML 2\n", "%TAG !h! t:\n", "%TAG\n", "0o777777777777777777777777",
    "9223372036854775808", "-9223372036854775809", "0x", "0o", "0xffffffffffffffffffff", "0o8", "00", "1e999", "-0", "--- &a !t\n", "key: value\n", "- item\n", "  - x\n",
];

/// Draw without calling the library.
pub static PURE: AtomicBool = AtomicBool::new(false);

/// Bytes to read: (bytes, hostile).
pub fn stream_bytes() -> Vec<u8> {
    match choose(7) {
        5 => {
            nontrivial();
            rt::stat("fault:hostile_scalar");
            hostile_scalar()
        }
        6 => {
            nontrivial();
            rt::stat("fault:deep_document");
            let kinds: Vec<usize> = (0..range(1, 3)).map(|_| choose(NESTS.len())).collect();
            nested(&kinds, pick(&[2, 5, 12, 30, 62, 100, 126, 130, 300]))
        }
        0 | 1 => {
            let m = gen::mix();
            let mut t = String::new();
            if m.handles {
                t += &gen::garnish(gen::PRELUDE);
            }
            for k in 0..range(1, 3) {
                let d = gen::document(&m);
                t += &gen::render_doc(&m, &d, k > 0 || m.handles || chance(1, 2)).out;
                if chance(1, 4) {
                    t += "...\n";
                }
            }
            t.into_bytes()
        }
        2 if !PURE.load(Relaxed) => {
            let m = gen::mix();
            let v: Vec<_> = (0..range(1, 2)).map(|_| sut::model::build::<RcRepr>(&gen::document(&m))).collect();
            match guard(|| sut::dump_rc(&v)) {
                Ok(t) => t.into_bytes(),
                Err(p) => violation!("panic", "dumping: {p}"),
            }
        }
        _ => {
            nontrivial();
            rt::stat("fault:hostile_writer");
            let n = small(40) + 1;
            let mut t = String::new();
            for _ in 0..n {
                t += pick(TOKENS);
            }
            t.into_bytes()
        }
    }
}

/// Levels of nesting: (block, opening, closing), `>` stands for the indent.
const NESTS: &[(bool, &str, &str)] = &[
    (false, "[", "]"), (false, "{a: ", "}"), (false, "{", ": 1}"), (false, "{? ", " : 1}"), (false, "[a, ", ", b]"), (false, "{a: 1, b: ", "}"), (false, "{1: 2, ", ": 3}"), (false, "!t [", "]"), (false, "&x [", "]"), (false, "{[", "]: 1}"),
    (true, "- ", ""), (true, "k:\n>  ", ""), (true, "-\n>  ", ""), (true, "?\n>  ", "\n>: v"), (true, "a: 1\n>b:\n>  ", ""), (true, "- a\n>- ", ""), (true, "? - ", "\n>: v"), (true, "&x#\n>", ""), (true, "- !t ", ""), (true, "k: &x#\n>  ", ""),
];

/// A document of many levels, of kinds which take turns; flow levels inside.
fn nested(kinds: &[usize], depth: usize) -> Vec<u8> {
    let mut of: Vec<usize> = (0..depth).map(|i| kinds[i % kinds.len()]).collect();
    of.sort_by_key(|k| !NESTS[*k].0);
    let (mut open, mut close, mut ind) = (String::new(), vec![], String::new());
    for (i, k) in of.iter().enumerate() {
        let (_, o, c) = NESTS[*k];
        open += &o.replace('>', &ind).replace('#', &i.to_string());
        close.push(c.replace('>', &ind));
        if NESTS[*k].0 && !o.starts_with('&') {
            ind += "  ";
        }
    }
    open += "a";
    close.iter().rev().for_each(|c| open += c);
    open.push('\n');
    open.into_bytes()
}

/// One scalar, tag, anchor or directive with hostile content, in some place.
fn hostile_scalar() -> Vec<u8> {
    const PRE: &[&str] = &["", "- ", "a: ", "{a: ", "[", "? ", "--- ", "&x ", "!t ", "a:\n  ", "x\n---\n", "{", "a: &y !t "];
    const POST: &[&str] = &["\n", "", "]\n", "}\n", ": 1\n", " # c\n", "\n---\ny\n", ", b]\n", ": 1}\n", "\n...\n"];
    const HEX: &[u8] = b"0123456789abcdefABCDEFxXuU_";
    let (open, close, inner): (&[u8], &[u8], usize) = match choose(12) {
        0..=3 => (b"\"", b"\"", 0),
        4 => (b"'", b"'", 1),
        5 => (pick(&[b"|" as &[u8], b"|-", b"|+", b">", b">-", b">+"]), b"\n", 2),
        6 => (b"!", b" v", 3),
        7 => (b"!<", b"> v", 3),
        8 => (pick(&[b"&" as &[u8], b"*"]), b" v", 3),
        9 => (b"%", b"\n--- v", 3),
        10 => (pick(&[b"" as &[u8], b"-", b"0x", b"0o", b".", b"+"]), b"", 4),
        _ => (b"", b"", 5),
    };
    let mut b = vec![];
    let pre = pick(PRE);
    if inner != 3 || open != b"%" {
        b.extend_from_slice(pre.as_bytes());
    }
    b.extend_from_slice(open);
    for _ in 0..small(12) {
        match inner {
            // Escapes of every letter, cut short, over wide characters.
            0 => match choose(8) {
                0..=3 => {
                    b.push(b'\\');
                    match choose(5) {
                        0 => b.push(range(0x20, 0x7e) as u8),
                        1 => b.extend_from_slice("é中🀄\u{feff}".chars().nth(choose(4)).unwrap().to_string().as_bytes()),
                        2 => b.extend_from_slice(pick(&[b"\n" as &[u8], b"\r\n", b"\t", b" "])),
                        _ => {
                            b.push(pick(b"xuUNLP0abefnrtv_/ "));
                            for _ in 0..choose(9) {
                                b.push(pick(HEX));
                            }
                        }
                    }
                }
                4 => b.extend_from_slice("é中🀄\u{301}".chars().nth(choose(4)).unwrap().to_string().as_bytes()),
                5 => b.extend_from_slice(pick(&[b"\n" as &[u8], b"\n\n", b" \n ", b"\r\n", b"\r", b"\n---\n", b"\n..."])),
                6 => b.push(choose(256) as u8),
                _ => b.push(range(0x20, 0x7e) as u8),
            },
            1 => b.extend_from_slice(pick(&[b"''" as &[u8], b"'", b"\n", b"\n\n", b" ", b"\\", b"\\'", b"a", "é".as_bytes(), b"\t", b"\n---\n", b"\r", b"\""])),
            2 => b.extend_from_slice(pick(&[
                b"\n" as &[u8], b"\n  a", b"\n   b", b"\n\n", b"\n a", b"\r\n  a", b"\r", b" ", b"2", b"+", b"-", b"9", b" # c", b"\n\t", b"\n  ---", b"\n---", b"\n...", "\n  é".as_bytes(), b"\n  \n", b"\n#",
            ])),
            3 => match choose(4) {
                0 => b.extend_from_slice(pick(&[b"!" as &[u8], b"!!", b"<", b">", b":", b"%41", b"%", b"-", b"_", b".", b",", b"#", b"YAML 1.2", b"TAG ! ", b"TAG !e! ", b" ", b"/", "é".as_bytes()])),
                1 => b.push(choose(256) as u8),
                _ => b.push(pick(b"abcxyzABC019-")),
            },
            4 => match choose(4) {
                0 => b.extend_from_slice(pick(&[b"." as &[u8], b"e", b"E", b"+", b"-", b"_", b"x", b"o", b":", b"inf", b"nan", b"e-", b"e+9", b".."])),
                _ => b.push(pick(b"0123456789afAF")),
            },
            _ => b.push(choose(256) as u8),
        }
    }
    if chance(3, 4) {
        b.extend_from_slice(close);
    }
    b.extend_from_slice(pick(POST).as_bytes());
    b
}

fn limits(len: usize) -> u64 {
    let l = len as u64;
    (30_000_000 + 2000 * l * l.min(2000)).min(2_000_000_000)
}

/// Runs one reading call under its limits.
fn call<T>(what: &str, len: usize, f: impl FnOnce() -> T) -> T {
    let live = alloc::sut_live().1;
    alloc::QUOTA.store(live + (64 << 20) + 4096 * len, Relaxed);
    let r = sched::budget(limits(len), || guard(f));
    alloc::QUOTA.store(0, Relaxed);
    match r {
        Ok(v) => v,
        Err(p) => violation!("panic", "{what}: {p}"),
    }
}

fn text(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(1500) {
        match c {
            b'\n' => s.push_str("\\n\n   "),
            0x20..=0x7e => s.push(*c as char),
            c => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    if b.len() > 1500 {
        s.push_str("...");
    }
    s
}

fn queries<R: Repr>(v: &[Node<R>], a: &[Anchors<R>], len: usize, picks: &[usize]) {
    let none = Anchors::new();
    for (i, n) in v.iter().enumerate().take(4) {
        rt::stat("op:query_all");
        let s = call("a query on a loaded node", len.max(2000), || probe::battery(n, a.get(i).unwrap_or(&none), picks));
        if s.contains("LISTED-KEY-NOT-FOUND") {
            rt::stat("probe:listed_key_not_found");
        }
        ev!("  queries {:x}", fnv(&s));
    }
}

/// Compares with the nodes of another load, which share nothing.
fn twice<R: Repr>(v: &[Node<R>], again: Result<Vec<Node<R>>, sut::yp::parser::PError>, len: usize) {
    if let Ok(w) = again {
        for (a, b) in v.iter().zip(&w).take(4) {
            if probe::expanded(a, 5001) <= 5000 {
                let same = call("comparing two loads", len.max(2000), || sut::eq_node(a, b));
                ev!("  again {same}");
            }
        }
        call("dropping", len, || drop(w));
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, c| (h ^ u64::from(c)).wrapping_mul(0x100_0000_01b3))
}

fn note<T>(what: &str, r: &Result<T, sut::yp::parser::PError>, n: impl Fn(&T) -> usize) {
    match r {
        Ok(v) => {
            rt::stat("probe:damaged_stream_accepted");
            ev!("  {what}: {} documents", n(v));
            shm::state_note(&format!("{what}{}", n(v)));
        }
        Err(e) => {
            rt::stat("probe:damaged_stream_rejected");
            let (m, d) = call("formatting an error", 2000, || (e.to_string(), format!("{e:?}")));
            ev!("  {what}: {m} {}", d.len());
            shm::state_note(&format!("{what}{}", sut::err_name(e)));
        }
    }
}

fn read(b: &[u8]) {
    let n = b.len();
    let picks: Vec<usize> = (0..3).map(|_| choose(probe::FAMILY)).collect();
    match choose(9) {
        0 => {
            rt::stat("op:load_rc");
            let r = call("loading", n, || sut::load_rc(b));
            note("rc", &r, Vec::len);
            if let Ok(v) = &r {
                twice(v, call("loading again", n, || sut::load_rc(b)), n);
                queries(v, &[], n, &picks);
            }
            call("dropping", n, || drop(r));
        }
        1 => {
            rt::stat("op:load_arc");
            let r = call("loading", n, || sut::load_arc(b));
            note("arc", &r, Vec::len);
            if let Ok(v) = &r {
                twice(v, call("loading again", n, || sut::load_arc(b)), n);
                queries(v, &[], n, &picks);
            }
            call("dropping", n, || drop(r));
        }
        2 => {
            rt::stat("op:load_cyclic");
            let r = call("loading", n, || sut::load_cyclic::<RcRepr>(b));
            note("cyclic", &r, |v| v.0.len());
            if let Ok((v, a)) = &r {
                queries(v, a, n, &picks);
            }
            call("dropping", n, || drop(r));
        }
        3 => {
            rt::stat("op:parse_text");
            let t = String::from_utf8_lossy(b).into_owned();
            let r = call("parsing", t.len(), || sut::parse_rc(&t));
            note("text", &r, Vec::len);
            if let Ok(v) = &r {
                queries(v, &[], t.len(), &picks);
            }
            call("dropping", n, || drop(r));
        }
        4 => {
            rt::stat("op:parse_cyclic_text");
            let t = String::from_utf8_lossy(b).into_owned();
            let r = call("parsing", t.len(), || sut::parse_cyclic_arc(&t));
            note("cyclic text", &r, |v| v.0.len());
            if let Ok((v, a)) = &r {
                queries(v, a, t.len(), &picks);
            }
            call("dropping", n, || drop(r));
        }
        5 | 6 => {
            rt::stat("op:typed_read_text");
            let t = String::from_utf8_lossy(b).into_owned();
            for i in picks {
                let s = call("a typed read", t.len(), || probe::typed_str(&t, i));
                ev!("  typed {}", s.chars().take(200).collect::<String>());
                shm::state_note(s.split(['=', '!']).next().unwrap_or(""));
            }
        }
        7 => {
            rt::stat("op:doc_by_doc");
            // Keeps reading with the same loader after errors.
            let mut r = Reader::<RcRepr>::new(b, chance(1, 2));
            for _ in 0..8 {
                let g = call("reading one document", n, || r.next_doc());
                match g {
                    Got::Doc(d) => {
                        ev!("  doc");
                        shm::state_note("d");
                        queries(&[d], &[], n, &picks[..1]);
                    }
                    Got::End => break,
                    Got::Bad(e) => {
                        let m = call("formatting an error", 2000, || e.to_string());
                        ev!("  bad {m}");
                        shm::state_note(&sut::err_name(&e));
                        if r.at() >= n {
                            break;
                        }
                        // Skip on: next line or next byte.
                        let at = r.at();
                        let nx = b[at..].iter().position(|c| *c == b'\n').map_or(n, |k| at + k + 1);
                        let nx = if nx == at { at + 1 } else { nx };
                        if chance(1, 2) {
                            r.seek(nx);
                        } else {
                            r.seek(nx);
                            call("handing back", n, || r.consume());
                            r.attach(&b[nx..]);
                            call("reading one document", n, || drop(r.next_doc()));
                            break;
                        }
                    }
                }
            }
            call("dropping", n, || drop(r));
        }
        _ => {
            rt::stat("op:sub_parser");
            for _ in 0..3 {
                let at = fault::place(b);
                let (w, l, f) = (choose(26), choose(5), chance(1, 2));
                let s = call("a sub-parser", n, || stream::sub_parser(b, at, w, l, f));
                ev!("  sub-parser {w} at {at}: {}", s.chars().take(200).collect::<String>());
            }
        }
    }
}

/// Text made of many units: the work must grow like the text.
fn growth() {
    // (head, unit, tail); # is the number of the unit.
    const SHAPES: &[(&str, &str, &str)] = &[
        ("", "- x#\n", ""), ("", "k#: v\n", ""), ("", "- &a# x\n", ""), ("- &z y\n", "- *z\n", ""), ("", "- !t# x\n", ""), ("", "- !<t:#> x\n", ""), ("", "- 'q#'\n", ""),
        ("", "- \"e\\n#\"\n", ""), ("", "- |\n  text #\n", ""), ("", "- >\n  text\n", ""), ("- a\n", "# c\n", "- b\n"), ("", "- [a, #]\n", ""), ("", "- {a: #}\n", ""), ("", "? k#\n: v\n", ""),
        ("", "---\nx#\n", ""), ("", "--- # c\n- &a x\n- *a\n...\n", ""), ("", "- é中文\n", ""), ("", "-\n", ""), ("", "k#:\n", ""), ("", "- - - x\n", ""), ("", "- a: 1\n  b: 2\n", ""), ("- a\n", "\n", "- b\n"),
        ("- ", "word ", "\n"), ("- ", "w\n  ", "\n"), ("k: ", "w\n ", "\n"), ("- \"", "w ", "\"\n"), ("- \"", "\\n", "\"\n"), ("- \"", "\\\\", "\"\n"), ("- \"", "\n\n", "\"\n"), ("- \"", "\\\"", "\"\n"), ("- \"", "é", "\"\n"), ("- '", "''", "'\n"),
        ("- '", "w\n  ", "'\n"), ("- |\n", "  line #\n", ""), ("- |\n  a\n", "\n", "  b\n"), ("- >\n", "  line #\n", ""), ("- |\n  a\n", "    more\n", ""), ("- [", "a, ", "]\n"), ("- [", "#,\n  ", "]\n"), ("- {", "k#: v, ", "}\n"), ("- {", "? k# : v, ", "}\n"),
        ("- [", "[], ", "]\n"), ("- a # ", "c ", "\n- b\n"), ("- a", " ", "\n- b\n"), ("- a\n", " \n", "- b\n"), ("%TAG ! t:\n", "# x\n", "---\na\n"), ("", "%TAG !h#! t:#\n", "---\n!h1!x a\n"), ("- ", "a:b", "\n"), ("- a", "'", "\n"), ("- ", "1", "\n"), ("- 0x", "f", "\n"),
        ("- 1.", "5", "\n"), ("- !", "t", " x\n"), ("- &", "a", " x\n"), ("- !<", "t:", "> x\n"), ("- a", "{}", "\n"), ("", "1: 2\n", ""), ("k:\n", "  - x#\n", ""), ("k:\n", "- x\n", "l: 1\n"), ("k:\n", "  a#:\n    b: c\n", ""), ("- [a, ", "b c ", "]\n"),
        ("- - ", "\"q\" ", "\n"), ("--- |\n", "a\n", ""), ("---\n", "w\n", ""), ("", "w ", "\n"), ("", "é: 1.5\n", ""), ("- ", "- ", ""), ("", "...\n", ""), ("", "---\n", ""), ("", "\r\n", "- a\n"), ("", "- a\r", ""), ("", "- a\r\n", ""),
        ("", "? - a#\n: - b\n", ""), ("", "- true\n- ~\n- .inf\n- -0x#\n", ""), ("a: &x\n", "  k#: v\n", "b: *x\n"), ("- \"", "\\é", "\"\n"), ("- \"", "\\\n  ", "\"\n"), ("- >-\n", "  w\n\n", "- x\n"),
    ];
    rt::stat("op:growth");
    nontrivial();
    let (head, unit, tail) = pick(SHAPES);
    let (second, _) = (pick(SHAPES).1, ());
    // Some texts alternate two kinds of unit, some are cut short.
    let (two, cut) = (chance(1, 4), chance(1, 4).then(|| small(12)));
    let how = choose(if cut.is_some() { 6 } else { 8 });
    let kinds: Option<Vec<usize>> = chance(1, 3).then(|| (0..range(1, 3)).map(|_| choose(NESTS.len())).collect());
    let build = |n: usize| {
        if let Some(k) = &kinds {
            return nested(k, n);
        }
        let mut t = String::from(head);
        for i in 0..n {
            t += &unit.replace('#', &i.to_string());
            if two {
                t += &second.replace('#', &format!("s{i}"));
            }
        }
        t += tail;
        let mut b = t.into_bytes();
        if let Some(c) = cut {
            b.truncate(b.len().saturating_sub(c));
        }
        b
    };
    let cost = |n: usize| {
        let b = build(n);
        let (s0, m0) = (sched::steps(), alloc::SUT_TOTAL.load(Relaxed));
        let mut docs = 0;
        let stack = sched::stack_mark();
        match how {
            0 | 1 => {
                if let Ok(v) = call("loading", b.len(), || sut::load_rc(&b)) {
                    docs = v.len();
                    let v = &v;
                    let w = call("loading again", b.len(), || sut::load_rc(&b)).unwrap_or_default();
                    call("comparing, hashing and copying", b.len(), || {
                        for (n, o) in v.iter().zip(&w) {
                            std::hint::black_box((probe::hash_of(n), sut::eq_node(n, o), sut::clone_node(n)));
                        }
                    });
                }
            }
            2 => {
                if let Ok((v, _)) = call("loading", b.len(), || sut::load_cyclic::<ArcRepr>(&b)) {
                    docs = v.len();
                }
            }
            3 => {
                if let Ok(v) = call("loading", b.len(), || sut::load_rc(&b)) {
                    docs = v.len();
                    call("dumping", b.len(), || drop(sut::dump_rc(&v)));
                }
            }
            4 => {
                if let Ok(v) = call("loading", b.len(), || sut::load_arc(&b)) {
                    docs = v.len();
                    call("printing", b.len(), || v.iter().for_each(|n| drop(sut::debug_node(n))));
                }
            }
            5 => {
                if let Ok(v) = call("loading", b.len(), || sut::load_rc(&b)) {
                    docs = v.len();
                    for n in v.iter().take(1) {
                        if let Ok(m) = n.as_map() {
                            for (k, _) in m.iter() {
                                call("looking up", b.len(), || drop(sut::value_of(n, k.clone())));
                                if sched::steps() - s0 > 20_000_000 {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                let t = String::from_utf8_lossy(&b).into_owned();
                call("a typed read", b.len(), || drop(probe::typed_str(&t, how)));
            }
        }
        (b.len() as u64, sched::steps() - s0, (alloc::SUT_TOTAL.load(Relaxed) - m0) as u64, docs, sched::stack_used(stack))
    };
    if let Some(k) = &kinds {
        // Each level of nesting may cost as much as the text around it, but
        // not twice as much as the level inside.
        let (a, b) = (cost(10), cost(60));
        ev!("growth of levels {k:?} how {how}: {a:?} {b:?}");
        if (a.3 == 0) == (b.3 == 0) {
            rt::stat(if a.3 == 0 { "probe:levels_rejected" } else { "probe:levels_accepted" });
            let times = b.0 as f64 / a.0 as f64;
            let most = |x: u64| (x as f64 + 2000.) * times.max(6.).powi(2) * 4.;
            if b.1 as f64 > most(a.1) || b.2 as f64 > most(a.2) {
                violation!("work", "6 times the levels ({} bytes {} steps {} memory, {} bytes {} steps {} memory) in mode {how}: {}", a.0, a.1, a.2, b.0, b.1, b.2, text(&build(10)));
            }
        }
        return;
    }
    let a = cost(24);
    // More than the levels which may be nested.
    let c = cost(24 * 8);
    let b = cost(24 * 32);
    ev!("growth of {unit:?} two {two} ({second:?}) cut {cut:?} how {how}: {a:?} {b:?}");
    if (c.3 == 0) == (b.3 == 0) && b.4 > c.4 + 8192 {
        violation!("stack", "{} bytes take {} bytes of stack and {} bytes take {} in mode {how}: a long text overflows the stack: {head:?} {unit:?}... {tail:?}", c.0, c.4, b.0, b.4);
    }
    if (a.3 == 0) != (b.3 == 0) {
        // One was rejected early.
        return;
    }
    // Work per byte may not grow with the text (a third of the factor is left
    // for tables that double and logarithms).
    let times = b.0 as f64 / a.0 as f64;
    let most = |x: u64, base: f64| (x as f64 + base) * times * 2.;
    if b.1 as f64 > most(a.1, 2000.) {
        violation!("work", "{times:.0} times the text took {:.0} times the steps ({} bytes {} steps, {} bytes {} steps) in mode {how}: {head:?} {unit:?}... {tail:?}", b.1 as f64 / a.1 as f64, a.0, a.1, b.0, b.1);
    }
    if b.2 as f64 > most(a.2, 2000.) {
        violation!("memory", "{times:.0} times the text took {:.0} times the memory ({} bytes {}, {} bytes {}) in mode {how}: {head:?} {unit:?}... {tail:?}", b.2 as f64 / a.2 as f64, a.0, a.2, b.0, b.2);
    }
}

fn run() {
    if !PURE.load(Relaxed) && chance(1, 40) {
        return growth();
    }
    let mut b = stream_bytes();
    let k = [0, 1, 1, 2, 3, 5][choose(6)];
    for _ in 0..k {
        fault::damage(&mut b);
    }
    b.truncate(40_000);
    if chance(1, 250) {
        // A line longer than anyone expects.
        rt::fault("fault:stuck_block");
        let at = choose(b.len() + 1);
        let c = pick(b"x -0#[]{}:'\"\\\t~e.\xc3");
        let n = if b"[]{}".contains(&c) { 200 } else { pick(&[260usize, 4100, 65_540, 70_000]) };
        b.splice(at..at, std::iter::repeat_n(c, n));
    }
    ev!("{} bytes\n   {}", b.len(), text(&b));
    for _ in 0..range(1, 3) {
        read(&b);
    }
}

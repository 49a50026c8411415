//! The reference model of document content, generators for it, and a renderer
//! that writes YAML text for it independently of the library's dumper.
use rt::tape::{chance, choose, pick, range, small, span, weighted};
use std::fmt::Write;

pub use sut::model::{Item, Val};

/// What a generated document may contain. Chosen per run (swarm).
#[derive(Clone, Debug)]
pub struct Mix {
    pub depth: usize,
    pub width: usize,
    pub strings: u32,
    pub complex_keys: bool,
    /// Complex keys may carry tags and be empty.
    pub key_props: bool,
    pub tags: bool,
    pub anchors: bool,
    pub aliases: bool,
    pub floats: bool,
    pub empty: bool,
    pub hard_strings: bool,
    pub big_ints: bool,
    /// Control characters, escapes, long and many-lined strings.
    pub odd_strings: bool,
    /// Tags with the characters of URIs.
    pub uri_tags: bool,
    /// Levels wrapped around a document, and items appended to it.
    pub wrap: usize,
    pub tail: usize,
    /// Bytes of a long string.
    pub long: usize,
    // Rendering only.
    pub flow: bool,
    pub comments: bool,
    pub blanks: bool,
    pub blocks: bool,
    pub quotes: bool,
    pub crlf: bool,
    pub indents: bool,
    pub handles: bool,
    /// Values on the line behind their key or indicator.
    pub next_line: bool,
}

pub fn mix() -> Mix {
    Mix {
        depth: range(1, 4),
        width: range(1, 5),
        strings: range(1, 4) as u32,
        complex_keys: chance(1, 4),
        tags: chance(1, 3),
        anchors: chance(1, 3),
        aliases: chance(1, 2),
        floats: chance(1, 2),
        empty: chance(1, 3),
        hard_strings: chance(1, 2),
        big_ints: chance(1, 4),
        flow: chance(1, 2),
        comments: chance(1, 3),
        blanks: chance(1, 4),
        blocks: chance(1, 2),
        quotes: chance(1, 2),
        crlf: chance(1, 8),
        indents: chance(1, 4),
        handles: chance(1, 3),
        next_line: chance(1, 4),
        key_props: chance(1, 2),
        odd_strings: chance(1, 2),
        uri_tags: chance(1, 3),
        wrap: if chance(1, 24) { pick(&[6usize, 15, 17, 33, 50]) } else { 0 },
        long: if chance(1, 400) { pick(&[300usize, 1100, 5000, 70_000]) } else { 0 },
        tail: if chance(1, 32) { pick(&[10usize, 20, 70, 140]) } else { 0 },
    }
}

const WORDS: &[&str] = &[
    "a", "b", "key", "name", "value", "x1", "foo", "bar-baz", "under_score", "Hello", "zeta",
    "longer text here", "two words", "v1.2.3", "50%", "a/b/c", "user@host", "http://h/p", "12:30",
    "中文", "d1🀄🃏", "é", "x,y", "it's", "say \"hi\"", "a#b", "c&d", "e*f", "g!h", "q?", "semi;colon",
    "(paren)", "plus+", "tilde~", "equal=1", "back\\slash", "dollar$", "caret^", "pipe|x", "lt<gt>",
    "nullx", "trues", "0xzz", "1e", "1.2.3", "-x", "--y", "?z", ":w", "2001-11-23 15:01:42 -5",
];

const HARD: &[&str] = &[
    "", " ", "true", "null", "~", "12", "-3", "1.5", "0x10", "0o7", "1e3", ".inf", "-.inf", ".nan",
    "a: b", "a:", ": a", "# c", "a # b", "- a", "-", "? k", "?", "[", "]", "{", "}", "[a]", "{a: b}",
    "&x y", "*x", "!t y", "|", ">", "| x", "'", "\"", "'q'", "\"dq\"", "%YAML", "@at", "`tick`", "---", "...",
    "--- a", ",", ", a", " lead", "trail ", "  two", "tab\tin", "\ttab", "a\\", "\\", "\\n", "a\\\\b", "\"", "\\\"",
    "False", "NULL", "a, b", "x]", "x}", "a [b]", "a {b}", "end:", "#", "a:b", "-1x", "+1", "1_000", "01",
    "0.0.0", ".5", "5.", "é: ü", "::", "a::b", "- - a", "'a", "a'", "\u{7f}", "\u{a0}x", "\u{2028}", "\u{feff}",
];

const MULTI: &[&str] = &[
    "one\ntwo", "one\ntwo\n", "a\n\nb", "a\n\n\nb\n", "  ind\nx", "x\n  ind\ny\n", "l1\nl2\nl3\nl4\n", "a\n", "a\n\n",
    "\na", "\n", "\n\n", "k: v\nk2: v2\n", "- a\n- b", "# c\nd\n", "a \nb", "a\nb ", "---\nx", "...\nx\n", "a\n---\nb\n",
    "é\n中\n", "tab\t\nx", "\tt\nu", "a\r\nb", "x\\\ny", "\"q\"\nz\n", "a\n ", " \na", "a\n  \nb\n",
];

pub fn string(m: &Mix) -> String {
    let odd = u32::from(m.odd_strings && m.hard_strings);
    match weighted(&[6, 2, if m.hard_strings { 3 } else { 0 }, if m.hard_strings { 2 } else { 0 }, 1, 2 * odd, 2 * odd, odd]) {
        0 => pick(WORDS).to_string(),
        1 => {
            let mut s = pick(WORDS).to_string();
            for _ in 0..choose(3) {
                s.push(' ');
                s.push_str(pick(WORDS));
            }
            s
        }
        2 => pick(HARD).to_string(),
        3 => pick(MULTI).to_string(),
        5 => {
            // Characters with and without escapes of their own.
            const C: &[char] = &[
                '\0', '\x01', '\x07', '\x08', '\t', '\n', '\x0b', '\x0c', '\r', '\x1b', '\x1f', '\x7f', '\u{80}', '\u{85}', '\u{a0}', '\u{200b}', '\u{2028}',
                '\u{2029}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{301}', '\\', '\\', '\\', '"', '\'', '/', ' ', ' ',
                'n', 'r', 't', 'b', 'f', 'a', 'v', 'e', '0', 'x', 'u', 'U', 'N', 'L', 'P', '1', '4', 'é', '中', '🀄', 'z', ':', '#', '-',
            ];
            let n = range(1, 12);
            (0..n).map(|_| pick(C)).collect()
        }
        6 => {
            // Lines of every shape, with runs of blank ones.
            let mut s = String::new();
            for _ in 0..range(1, 6) {
                match choose(12) {
                    0..=3 => s.push_str(pick(WORDS)),
                    4 => s.push_str(pick(HARD)),
                    5 => s.push_str("  indented"),
                    6 => s.push_str(" more"),
                    7 => s.push_str("trail "),
                    8 => s.push('\t'),
                    9 => s.push_str(pick(&["    ", " ", "\t\t", "  x  "])),
                    _ => {}
                }
                for _ in 0..pick(&[1usize, 1, 1, 1, 2, 2, 3, 4, 6]) {
                    s.push_str(if chance(1, 40) { "\r\n" } else { "\n" });
                }
            }
            if chance(1, 2) {
                s.truncate(s.trim_end_matches('\n').len());
            }
            s
        }
        7 => {
            let mut s = String::new();
            for _ in 0..pick(&[12usize, 20, 60, 150]) {
                s.push_str(if chance(1, 8) { pick(HARD) } else { pick(WORDS) });
                s.push_str(pick(&[" ", " ", " ", "", "  "]));
            }
            s
        }
        _ => {
            // Random short string over a hostile alphabet.
            const A: &[char] = &[
                'a', 'b', '0', '1', ' ', ':', '-', '#', ',', '[', ']', '{', '}', '\'', '"', '&', '*', '!', '|', '>', '%', '?',
                '.', '\\', '~', '@', '=', 'é', '中', 'e', 'x', '+', '_', '<', '/', '(',
            ];
            let n = range(1, 8);
            let s: String = (0..n).map(|_| pick(A)).collect();
            if m.hard_strings {
                s
            } else {
                format!("w{}", s.replace(|c: char| !c.is_alphanumeric(), "-"))
            }
        }
    }
}

pub fn int(m: &Mix) -> i64 {
    match weighted(&[5, 2, 1, if m.big_ints { 2 } else { 0 }]) {
        0 => choose(20) as i64,
        1 => -(range(1, 500) as i64),
        2 => choose(1_000_000) as i64,
        _ => pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1 << 53, (1 << 53) + 1, -1, 255, 256, 65535, 65536, 1 << 31, 1 << 32, -129, 128]),
    }
}

pub fn float() -> f64 {
    match choose(4) {
        0 => choose(100) as f64 / 4.,
        1 => pick(&[0., 1., -1., 10., 100., 0.5, -2.25, 1e10, 123456.789, 0.001, -0., 3.0, 20.06]),
        2 => pick(&[1e21, 1e-7, f64::MAX, f64::MIN_POSITIVE, 1e300, -1e-300, 9007199254740993., 5e-324, 1e15, 1e16]),
        _ => pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
    }
}

pub fn scalar(m: &Mix) -> Val {
    match weighted(&[3 * m.strings, 2, 1, 1, if m.floats { 2 } else { 0 }]) {
        0 => Val::Str(string(m)),
        1 => Val::Int(int(m)),
        2 => Val::Bool(chance(1, 2)),
        3 => Val::Null,
        _ => Val::Float(float()),
    }
}

/// Names of anchors defined so far in the document.
#[derive(Default)]
pub struct Scope {
    pub names: Vec<String>,
    n: usize,
}

pub fn value(m: &Mix, depth: usize, sc: &mut Scope) -> Item {
    span(|| {
        if m.aliases && !sc.names.is_empty() && chance(1, 6) {
            return Val::Alias(sc.names[choose(sc.names.len())].clone()).into();
        }
        let kind = if depth == 0 { 0 } else { weighted(&[3, 2, 3]) };
        // An anchor becomes usable after its node is complete.
        let anchor = (m.anchors && chance(1, 4)).then(|| {
            sc.n += 1;
            let style = choose(3);
            match style {
                0 => format!("a{}", sc.n),
                1 => format!("anc-{}", sc.n),
                _ => format!("{}X", sc.n),
            }
        });
        let tag = (m.tags && chance(1, 4)).then(|| tag(m));
        let val = match kind {
            0 => scalar(m),
            1 => {
                let n = choose(m.width + 1).max(usize::from(!m.empty));
                Val::Seq((0..n).map(|_| value(m, depth - 1, sc)).collect())
            }
            _ => {
                let n = choose(m.width + 1).max(usize::from(!m.empty));
                let mut v: Vec<(Item, Item)> = vec![];
                for _ in 0..n {
                    span(|| {
                        let k = key(m, sc);
                        let names = sc.names.len();
                        let val = value(m, depth - 1, sc);
                        if !v.iter().any(|(k2, _)| same(&k2.val, &k.val)) {
                            v.push((k, val));
                        } else {
                            sc.names.truncate(names);
                        }
                    });
                }
                Val::Map(v)
            }
        };
        if let Some(a) = &anchor {
            sc.names.push(a.clone());
        }
        Item { val, tag, anchor }
    })
}

fn tag(m: &Mix) -> (String, String) {
    if m.uri_tags && chance(1, 2) {
        const A: &[char] = &[
            'a', 'b', 'Z', '0', '9', '-', '.', '_', '~', ':', '/', '?', '#', '[', ']', '@', '!', '$', '&', '\'', '(', ')', '*', '+', ',', ';', '=', '%', '{', '}', '|', '"',
            '\\', '^', '`', 'é', '中',
        ];
        let n = range(1, 9);
        let t: String = (0..n).map(|_| pick(A)).collect();
        return (format!("!<{t}>"), t);
    }
    match choose(if m.handles { 5 } else { 3 }) {
        0 => ("!local".into(), "local".into()),
        1 => ("!<tag:x.org,2000:full>".into(), "tag:x.org,2000:full".into()),
        2 => ("!my-t2".into(), "my-t2".into()),
        3 => ("!!thing".into(), "tag:yaml.org,2002:thing".into()),
        _ => ("!e!part".into(), "tag:e.org:part".into()),
    }
}

fn key(m: &Mix, sc: &mut Scope) -> Item {
    if m.complex_keys && chance(1, 5) {
        let mut mm = m.clone();
        mm.complex_keys = false;
        mm.anchors = false;
        mm.aliases = false;
        mm.tags &= m.key_props;
        mm.empty &= m.key_props;
        return value(&mm, 1, sc);
    }
    match weighted(&[8, 2, 1, if m.floats { 1 } else { 0 }]) {
        0 => Val::Str(string(m)),
        1 => Val::Int(int(m)),
        2 => Val::Bool(chance(1, 2)),
        _ => Val::Float(float()),
    }
    .into()
}

/// Equality of content, as the library documents it: metadata ignored, NaN
/// equal to NaN.
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Float(a), Val::Float(b)) => a == b || (a.is_nan() && b.is_nan()),
        (Val::Seq(a), Val::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(&a.val, &b.val)),
        (Val::Map(a), Val::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((a, c), (b, d))| same(&a.val, &b.val) && same(&c.val, &d.val))
        }
        _ => a == b,
    }
}

pub fn document(m: &Mix) -> Item {
    let mut sc = Scope::default();
    let mut d = value(m, m.depth, &mut sc);
    for i in 0..m.wrap {
        d = match choose(4) {
            0 => Val::Seq(vec![d]).into(),
            1 => Val::Map(vec![(Val::Str("k".into()).into(), d)]).into(),
            2 => Val::Seq(vec![d, Val::Int(i as i64).into()]).into(),
            _ => Val::Map(vec![(Val::Str("k".into()).into(), d), (Val::Str(format!("z{i}")).into(), scalar(m).into())]).into(),
        };
    }
    if m.tail > 0 {
        d = if chance(1, 2) {
            let mut v = vec![d];
            v.extend((0..m.tail).map(|_| value(m, 0, &mut sc)));
            Val::Seq(v).into()
        } else {
            let mut v = vec![(Val::Str("head".into()).into(), d)];
            v.extend((0..m.tail).map(|i| (Val::Str(format!("key {i}")).into(), value(m, 0, &mut sc))));
            Val::Map(v).into()
        };
    }
    if m.long > 0 {
        let w = pick(&["x", "word ", "é", "two words, ", "a\\", "line\n", "'q' "]);
        let s = w.repeat(m.long / w.len() + 1);
        let s = Item::from(Val::Str(s.trim_end().into()));
        d = if chance(1, 2) { Val::Seq(vec![d, s]).into() } else { Val::Map(vec![(Val::Str("body".into()).into(), s), (Val::Str("rest".into()).into(), d)]).into() };
    }
    d
}

/// Text that means nothing, possibly a lot of it.
pub fn filler() -> String {
    let n = pick(&[70usize, 300, 2000, 5000, 70_000]);
    match choose(4) {
        0 => format!("# {}\n", "x".repeat(n)),
        1 => "\n".repeat(n),
        2 => "#\n".repeat(n / 2),
        _ => format!("# {}\n", "é中 ".repeat(n / 6)),
    }
}

// ---- canonical text, comparable with sut::canon ----

fn fnum(f: f64) -> String {
    if f.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", f.to_bits())
    }
}

/// Content with aliases resolved by `env`.
pub fn canon(i: &Item, env: &mut Vec<(String, String)>, tags: bool) -> String {
    let mut s = String::new();
    match &i.val {
        Val::Null => s.push_str("null"),
        Val::Bool(b) => write!(s, "bool {b}").unwrap(),
        Val::Int(n) => write!(s, "int {n}").unwrap(),
        Val::Float(f) => write!(s, "float {}", fnum(*f)).unwrap(),
        Val::Str(t) => write!(s, "str {t:?}").unwrap(),
        Val::Seq(v) => {
            s.push('[');
            for i in v {
                s += &canon(i, env, tags);
                s.push(',');
            }
            s.push(']');
        }
        Val::Map(v) => {
            s.push('{');
            for (k, i) in v {
                s += &canon(k, env, tags);
                s.push('=');
                s += &canon(i, env, tags);
                s.push(',');
            }
            s.push('}');
        }
        Val::Alias(a) => {
            // The node's own tag is not inherited by an alias of it.
            s += &env.iter().rev().find(|(n, _)| n == a).map(|(_, c)| c.clone()).unwrap_or_else(|| format!("*{a}"));
        }
    }
    if let Some(a) = &i.anchor {
        env.push((a.clone(), s.clone()));
    }
    if tags {
        if let Some((_, t)) = &i.tag {
            s = format!("!{t} {s}");
        }
    }
    s
}

// ---- renderer ----

pub struct Render<'a> {
    m: &'a Mix,
    pub out: String,
    nl: &'static str,
    /// Offsets of the first byte of scalar nodes, with their canonical text.
    pub scalars: Vec<(usize, String)>,
    /// What brackets and double quotes enclose, with them.
    pub closed: Vec<(usize, usize)>,
}

#[derive(Clone, Copy, PartialEq)]
enum At {
    Root,
    MapVal,
    SeqItem,
}

pub fn render_doc<'a>(m: &'a Mix, i: &Item, explicit: bool) -> Render<'a> {
    let mut r = Render::new(m);
    if explicit {
        r.out += "---";
        r.block(i, 0, At::Root, true);
    } else {
        r.block(i, 0, At::Root, false);
    }
    r
}

pub const PRELUDE: &str = "%TAG !e! tag:e.org:\n";

/// Directives as other programs write them: with comments, blank lines and
/// directives nobody knows.
pub fn garnish(lines: &str) -> String {
    if !chance(1, 4) {
        return lines.into();
    }
    let mut t = String::new();
    for l in lines.lines() {
        if chance(1, 4) {
            t += pick(&["%FOO bar baz\n", "%X\n", "%FOO # c\n"]);
        }
        t += l;
        t += pick(&["", " # own names", "  # %TAG !e! no:", "\t# c", " #"]);
        t += pick(&["\n", "\n", "\n", "\n\n", "\n# between\n", "\n  \n  # c\n\n"]);
    }
    t
}

/// Characters the renderer writes as escapes only.
fn odd(c: char) -> bool {
    c.is_control() || (c.is_whitespace() && c != ' ') || c == '\u{feff}'
}

fn plain_ok(s: &str, flow: bool, key: bool) -> bool {
    if s.is_empty() || s.trim() != s || s.contains(odd) || s.contains("  ") {
        return false;
    }
    let first = s.chars().next().unwrap();
    if "-?:,[]{}#&*!|>'\"%@`~.".contains(first) || first.is_ascii_digit() || first == '+' {
        return false;
    }
    if s.contains(": ") || s.contains(" #") || s.ends_with(':') || s.contains(['[', ']', '{', '}']) || (flow && s.contains(',')) {
        return false;
    }
    if (flow || key) && s.contains(':') {
        return false;
    }
    !matches!(s, "null" | "Null" | "NULL" | "true" | "True" | "TRUE" | "false" | "False" | "FALSE")
}

fn single_ok(s: &str) -> bool {
    !s.contains(odd) && !s.contains('\\') && s.trim() == s
}

fn literal_ok(s: &str) -> bool {
    !s.is_empty()
        && !s.contains(|c| odd(c) && c != '\n')
        && s.trim_end_matches('\n') == s.trim_end()
        && !s.starts_with([' ', '\n'])
        && s.lines().all(|l| l.is_empty() || !l.trim().is_empty())
        && !s.trim_end().is_empty()
        && !s.ends_with("\n\n")
}

impl<'a> Render<'a> {
    pub fn new(m: &'a Mix) -> Self {
        Self { m, out: String::new(), nl: if m.crlf { "\r\n" } else { "\n" }, scalars: vec![], closed: vec![] }
    }

    fn comment(&mut self) {
        if self.m.comments && chance(1, 5) {
            self.out += pick(&[" # note", "  # a: b", " #", " # 'quote \"", " # [x"]);
        }
        if self.m.blanks && chance(1, 12) {
            // The library takes no tabs behind indicators and properties.
            let last = self.out.rsplit([' ', '\n']).next().unwrap_or("");
            let tab = !last.starts_with(['!', '&']) && !last.ends_with(['-', ':', '?']);
            self.out += pick(if tab { &[" ", "   ", "\t", " \t "] } else { &[" ", "   "] });
        }
    }

    fn newline(&mut self) {
        self.comment();
        self.out += self.nl;
        if self.m.blanks && chance(1, 6) {
            self.out += pick(&["", "", "", " ", "   ", "\t", "      "]);
            self.out += self.nl;
        }
        if self.m.comments && chance(1, 10) {
            self.out += pick(&["", "", "  ", "\t", "       "]);
            self.out += pick(&["# whole line", "#", "#- a: b", "# it's \"q"]);
            self.out += self.nl;
        }
        if self.m.blanks && chance(1, 20) {
            self.out += pick(&["", " ", "  "]);
            self.out += self.nl;
        }
    }

    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }

    fn props(&mut self, i: &Item) -> bool {
        let a = i.anchor.as_ref().map(|a| format!("&{a}"));
        let t = i.tag.as_ref().map(|t| t.0.clone());
        let mut v: Vec<String> = a.into_iter().chain(t).collect();
        if v.len() == 2 && chance(1, 2) {
            v.reverse();
        }
        for p in &v {
            self.out.push(' ');
            self.out += p;
        }
        !v.is_empty()
    }

    fn quote(&mut self, s: &str) {
        let at = self.out.len();
        self.out.push('"');
        for c in s.chars() {
            match c {
                '"' => self.out += "\\\"",
                '\\' => self.out += "\\\\",
                '\n' => self.out += "\\n",
                '\r' => self.out += "\\r",
                '\t' => self.out += "\\t",
                '\x08' => self.out += "\\b",
                '\x0c' => self.out += "\\f",
                c => self.out.push(c),
            }
        }
        self.out.push('"');
        self.closed.push((at, self.out.len()));
    }

    /// Scalar text without leading space.
    fn scalar(&mut self, v: &Val, flow: bool, key: bool) {
        let at = self.out.len();
        match v {
            Val::Null => self.out += if key { "~" } else { pick(&["null", "~", "Null", "NULL"]) },
            Val::Bool(true) => self.out += pick(&["true", "True", "TRUE"]),
            Val::Bool(false) => self.out += pick(&["false", "False", "FALSE"]),
            Val::Int(n) => {
                let s = match choose(4) {
                    1 if *n >= 0 => format!("0x{n:x}"),
                    2 if *n >= 0 => format!("0o{n:o}"),
                    3 if *n >= 0 => format!("0x{n:X}"),
                    _ => n.to_string(),
                };
                self.out += &s;
            }
            Val::Float(f) => {
                let s = if f.is_nan() {
                    pick(&[".nan", ".NaN", ".NAN"]).to_string()
                } else if f.is_infinite() {
                    format!("{}{}", if *f < 0. { "-" } else { "" }, pick(&[".inf", ".Inf", ".INF"]))
                } else {
                    let s = format!("{f}");
                    if s.contains('.') {
                        s
                    } else {
                        s + pick(&[".0", "."])
                    }
                };
                self.out += &s;
            }
            Val::Str(s) => {
                let plain = plain_ok(s, flow, key);
                let single = self.m.quotes && single_ok(s);
                match choose(3) {
                    0 | 1 if plain => self.out += s,
                    1 | 2 if single => {
                        self.out.push('\'');
                        self.out += &s.replace('\'', "''");
                        self.out.push('\'');
                    }
                    _ => self.quote(s),
                }
            }
            Val::Alias(a) => {
                self.out.push('*');
                self.out += a;
            }
            _ => unreachable!(),
        }
        self.scalars.push((at, canon(&v.clone().into(), &mut vec![], false)));
    }

    fn flow(&mut self, i: &Item) {
        let had = !self.out.ends_with([' ', '[', '{', ',']);
        if i.anchor.is_some() || i.tag.is_some() {
            if !had {
                // props() writes its own separator
                while self.out.ends_with(' ') {
                    self.out.pop();
                }
            }
            self.props(i);
            self.out.push(' ');
        }
        let at = self.out.len();
        match &i.val {
            Val::Seq(v) => {
                self.out.push('[');
                for (k, i) in v.iter().enumerate() {
                    if k > 0 {
                        self.air(false);
                        self.out += pick(&[", ", ",", " , "]);
                    }
                    self.air(true);
                    self.flow(i);
                }
                self.air(false);
                self.out.push(']');
            }
            Val::Map(v) => {
                self.out.push('{');
                for (k, (key, i)) in v.iter().enumerate() {
                    if k > 0 {
                        self.air(false);
                        self.out += pick(&[", ", ",", " , "]);
                    }
                    self.air(true);
                    self.flow(key);
                    self.out += pick(&[": ", ": ", " : ", ":  "]);
                    self.flow(i);
                }
                self.air(false);
                self.out.push('}');
            }
            v => return self.scalar(v, true, false),
        }
        self.closed.push((at, self.out.len()));
    }

    /// Space inside of brackets.
    fn air(&mut self, front: bool) {
        if !chance(1, 8) {
            return;
        }
        self.out += pick(&[" ", "   ", "\t"]);
        if front && self.m.next_line && chance(1, 2) {
            self.out += self.nl;
            self.out += "                ";
        }
    }

    fn flowable(i: &Item) -> bool {
        match &i.val {
            Val::Seq(v) => v.iter().all(Self::flowable),
            Val::Map(v) => v.iter().all(|(k, i)| !matches!(k.val, Val::Seq(_) | Val::Map(_)) && Self::flowable(k) && Self::flowable(i)),
            _ => true,
        }
    }

    /// Value in block context. The cursor is behind `---`, `-` or `key:`
    /// (`lead`), or at the start of an empty line. Ends with a newline.
    fn block(&mut self, i: &Item, ind: usize, at: At, lead: bool) {
        let here = matches!(i.val, Val::Map(_) | Val::Seq(_) | Val::Null) || at == At::Root;
        if self.m.next_line && !here && chance(1, 4) {
            self.newline();
            self.pad(ind + 1);
            self.props(i);
            self.out.push(' ');
            self.scalar(&i.val, false, false);
            self.newline();
            return;
        }
        let props = self.props(i);
        if !lead && props {
            // No leading space at the very beginning.
            let s = self.out.trim_start().to_string();
            self.out = s;
        }
        let lead = lead || props;
        let sp = |r: &mut Self| {
            if lead {
                r.out.push(' ');
            }
        };
        match &i.val {
            Val::Seq(v) if v.is_empty() => {
                sp(self);
                self.out += "[]";
                self.newline();
            }
            Val::Map(v) if v.is_empty() => {
                sp(self);
                self.out += "{}";
                self.newline();
            }
            Val::Seq(_) | Val::Map(_) if self.m.flow && Self::flowable(i) && chance(1, 3) => {
                sp(self);
                let mut j = i.clone();
                j.anchor = None;
                j.tag = None;
                self.flow(&j);
                self.newline();
            }
            Val::Seq(v) => {
                let step = self.step(at);
                // A sequence may sit at the indent of its parent key.
                let ind = match at {
                    At::Root => 0,
                    At::MapVal if chance(1, 3) => ind,
                    _ => ind + step,
                };
                if lead {
                    self.newline();
                }
                for i in v {
                    self.pad(ind);
                    self.out.push('-');
                    self.item(i, ind);
                }
            }
            Val::Map(v) => {
                let step = self.step(at);
                let ind = if at == At::Root { 0 } else { ind + step };
                if lead {
                    self.newline();
                }
                self.pairs(v, ind, false);
            }
            Val::Str(s) if self.m.blocks && literal_ok(s) && at != At::Root && chance(1, 2) => {
                sp(self);
                let (ch, body) = match s.strip_suffix('\n') {
                    Some(b) => ("", b),
                    None => ("-", s.as_str()),
                };
                self.scalars.push((self.out.len(), canon(&Val::Str(s.clone()).into(), &mut vec![], false)));
                self.out.push('|');
                self.out += ch;
                self.out += self.nl;
                for l in body.split('\n') {
                    if !l.is_empty() {
                        self.pad(ind + 2);
                        self.out += l;
                    }
                    self.out += self.nl;
                }
            }
            v => {
                sp(self);
                self.scalar(v, false, false);
                self.newline();
            }
        }
    }

    /// The library takes two columns behind the indicator of an item.
    fn step(&self, at: At) -> usize {
        if self.m.blanks && at != At::SeqItem {
            pick(&[2, 2, 2, 1, 3, 4, 7])
        } else {
            2
        }
    }

    fn item(&mut self, i: &Item, ind: usize) {
        match &i.val {
            // Compact map in a sequence.
            Val::Map(v) if !v.is_empty() && i.anchor.is_none() && i.tag.is_none() && chance(1, 2) => {
                self.out.push(' ');
                self.pairs(v, ind + 2, true);
            }
            _ => self.block(i, ind, At::SeqItem, true),
        }
    }

    fn pairs(&mut self, v: &[(Item, Item)], ind: usize, mut inline: bool) {
        for (k, i) in v {
            if !std::mem::take(&mut inline) {
                self.pad(ind);
            }
            if matches!(k.val, Val::Seq(_) | Val::Map(_)) {
                self.out += "?";
                if Self::flowable(k) && self.m.flow && chance(1, 2) {
                    self.out.push(' ');
                    self.flow(k);
                    self.out += self.nl;
                } else {
                    self.block(k, ind, At::MapVal, true);
                }
                self.pad(ind);
            } else if k.anchor.is_some() || k.tag.is_some() {
                // In front of the first key they would belong to the map.
                self.out.push('?');
                self.props(k);
                self.out.push(' ');
                self.scalar(&k.val, false, true);
                self.out += self.nl;
                self.pad(ind);
            } else {
                self.scalar(&k.val, false, true);
            }
            if self.m.blanks && chance(1, 12) && !self.out.ends_with([' ', '\n', '\r']) {
                self.out += pick(&[" ", "  ", "\t"]);
            }
            self.out.push(':');
            self.block(i, ind, At::MapVal, true);
        }
    }
}

/// A document known to be small and ordinary: used as the background against
/// which faults are injected.
pub fn small_mix() -> Mix {
    let mut m = mix();
    m.depth = m.depth.min(2);
    m.width = m.width.min(3);
    m.wrap = 0;
    m.tail = 0;
    let _ = small(1);
    m
}

// ---- typed records ----

use sut::types::{Inner, Kind, Rec, Wrap};

fn kind(m: &Mix) -> Kind {
    match choose(4) {
        0 => Kind::Unit,
        1 => Kind::New(int(m)),
        2 => Kind::Tup(choose(256) as u8, string(m)),
        _ => Kind::St { a: chance(1, 2), b: ch() },
    }
}

pub fn ch() -> char {
    pick(&['a', 'Z', ' ', '1', '0', '-', '~', '\'', '"', '\\', '#', ':', '\n', '\t', '{', '[', ',', 'é', '中', '🀄', '\r', '|', '!', '&', '*', '%', '?', '.'])
}

pub fn rec(m: &Mix) -> Rec {
    Rec {
        name: string(m),
        id: int(m),
        size: if m.big_ints && chance(1, 2) { pick(&[u64::MAX, 1 << 63, u64::MAX - 1, 10_000_000_000_000_000_000]) } else { choose(1000) as u64 },
        on: chance(1, 2),
        list: (0..choose(4)).map(|_| choose(1 << 20) as u32).collect(),
        opt: chance(1, 2).then(|| if m.floats { finite() } else { 0.5 }),
        map: (0..choose(4)).map(|_| (string(m), int(m) as i32)).collect(),
        kind: kind(m),
        ch: ch(),
        pair: (choose(256) as u8 as i8, string(m)),
        unit: (),
        wrap: Wrap(choose(65536) as u16),
        nested: (0..choose(3))
            .map(|_| Inner {
                a: chance(1, 2).then(|| string(m)),
                b: (0..choose(3)).map(|_| (0..choose(3)).map(|_| choose(65536) as u16 as i16).collect()).collect(),
                k: kind(m),
            })
            .collect(),
    }
}

/// Not NaN, which does not equal itself in derived comparisons.
pub fn finite() -> f64 {
    let f = float();
    if f.is_nan() {
        0.25
    } else {
        f
    }
}

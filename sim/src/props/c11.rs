//! C11: a typed read of a damaged number is the written number or an error.
use super::{lib, Prop};
use crate::gen;
use rt::{
    ev, fault, sched, shm,
    tape::{chance, choose, pick, range, span, word},
    violation,
};
use sut::{
    guard,
    numbers::{self as num, Got, Held, Helper, Said, TYPES},
    yp::repr::{ArcRepr, RcRepr},
};

pub const PROP: Prop = Prop {
    id: "C11",
    run: || sched::run_one(Box::new(run)),
    quick: 400_000,
    limit: 2_000_000_000,
    rule: "typed fields are written by the library, or number texts are drawn; storage damages the text of one field; every field is read as every type in the place it stands; non-trivial = a fault changed the text of a field; distinct = different event log (place, texts, faults, types)",
    measure: "hash of place, kind of the damaged text, type read and outcome",
    stubs: &["the storage that holds the text of a field", "process entropy"],
    assumptions: &[
        "core's conversion of a normalised decimal text to the nearest float is right",
        "damage that turns the text into other YAML (indicators, white space) is C01's matter; here the medium drops such bytes",
        "a binary float denotes the nearest value; fields inside untagged enums are converted by serde, not by the library",
    ],
};

// ---- what a text denotes, told without the library ----

/// A number: sign, digits without zeros at either end, power of ten.
#[derive(Clone, PartialEq, Debug)]
enum Num {
    Dec { neg: bool, digits: String, exp: i128 },
    Inf(bool),
    Nan,
}

fn dec(neg: bool, digits: &str, exp: i128) -> Num {
    let d = digits.trim_start_matches('0');
    let t = d.trim_end_matches('0');
    if t.is_empty() {
        return Num::Dec { neg, digits: String::new(), exp: 0 };
    }
    Num::Dec { neg, digits: t.into(), exp: exp + (d.len() - t.len()) as i128 }
}

fn radix(neg: bool, s: &str, r: u32) -> Option<Num> {
    if s.is_empty() {
        return None;
    }
    // Little endian decimal digits.
    let mut v = vec![0u8];
    for c in s.chars() {
        let mut carry = c.to_digit(r)?;
        for d in &mut v {
            let n = u32::from(*d) * r + carry;
            *d = (n % 10) as u8;
            carry = n / 10;
        }
        while carry > 0 {
            v.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    let t: String = v.iter().rev().map(|d| char::from(b'0' + d)).collect();
    Some(dec(neg, &t, 0))
}

/// How sure the reader may be that the text is a number.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// An integer by the documented rules.
    Int,
    /// A float by the documented rules.
    Float,
    /// A number in a wider sense; a reader may also refuse it.
    Maybe,
}

fn denotes(t: &str) -> Option<(Num, Kind)> {
    match t {
        ".nan" | ".NaN" | ".NAN" => return Some((Num::Nan, Kind::Float)),
        ".inf" | ".Inf" | ".INF" => return Some((Num::Inf(false), Kind::Float)),
        "-.inf" | "-.Inf" | "-.INF" => return Some((Num::Inf(true), Kind::Float)),
        "+.inf" | "+.Inf" | "+.INF" => return Some((Num::Inf(false), Kind::Maybe)),
        _ => {}
    }
    let (neg, u) = match t.as_bytes().first()? {
        b'-' => (true, &t[1..]),
        b'+' => (false, &t[1..]),
        _ => (false, t),
    };
    let signed = u.len() < t.len();
    for (p, r) in [("0x", 16), ("0X", 16), ("0o", 8)] {
        if let Some(h) = u.strip_prefix(p) {
            let k = if signed || p == "0X" { Kind::Maybe } else { Kind::Int };
            return radix(neg, h, r).map(|n| (n, k));
        }
    }
    let (m, e) = match u.find(['e', 'E']) {
        Some(i) => (&u[..i], Some(&u[i + 1..])),
        None => (u, None),
    };
    let (i, f) = match m.find('.') {
        Some(k) => (&m[..k], Some(&m[k + 1..])),
        None => (m, None),
    };
    let all = |s: &str| s.bytes().all(|c| c.is_ascii_digit());
    let frac = f.unwrap_or("");
    if !all(i) || !all(frac) || i.len() + frac.len() == 0 {
        return None;
    }
    let mut exp = 0i128;
    if let Some(e) = e {
        let d = e.strip_prefix(['-', '+']).unwrap_or(e);
        if d.is_empty() || !all(d) {
            return None;
        }
        exp = d.bytes().fold(0i128, |n, c| (n * 10 + i128::from(c - b'0')).min(1 << 60));
        if e.starts_with('-') {
            exp = -exp;
        }
    }
    let n = dec(neg, &format!("{i}{frac}"), exp - frac.len() as i128);
    let k = if i.is_empty() || t.starts_with('+') {
        Kind::Maybe
    } else if f.is_none() && e.is_none() {
        Kind::Int
    } else {
        Kind::Float
    };
    Some((n, k))
}

impl Num {
    fn is(&self, v: &str) -> bool {
        match (self, denotes(v)) {
            // The sign of a zero does not matter for its value.
            (Num::Dec { digits, .. }, Some((Num::Dec { digits: d, .. }, _))) if digits.is_empty() => d.is_empty(),
            (n, Some((m, _))) => *n == m,
            _ => false,
        }
    }
    fn text(&self) -> String {
        match self {
            Num::Dec { neg, digits, exp } => {
                let z = if digits.is_empty() { "0" } else { digits };
                format!("{}{z}e{}", if *neg { "-" } else { "" }, exp.clamp(&-1_000_000, &1_000_000))
            }
            Num::Inf(n) => if *n { "-inf" } else { "inf" }.into(),
            Num::Nan => "NaN".into(),
        }
    }
    fn f64(&self) -> Option<f64> {
        let v: f64 = self.text().parse().unwrap();
        (!matches!(self, Num::Dec { .. }) || v.is_finite()).then_some(v)
    }
    fn f32(&self) -> Option<f32> {
        let v: f32 = self.text().parse().unwrap();
        (!matches!(self, Num::Dec { .. }) || v.is_finite()).then_some(v)
    }
    /// As an integer of the type, if it is one.
    fn fits(&self, ty: &str) -> bool {
        let Num::Dec { neg, digits, exp } = self else { return false };
        if digits.is_empty() {
            return true;
        }
        if *exp < 0 || digits.len() as i128 + exp > 39 {
            return false;
        }
        let t = format!("{}{digits}{}", if *neg { "-" } else { "" }, "0".repeat(*exp as usize));
        match ty {
            "i8" => t.parse::<i8>().is_ok(),
            "i16" => t.parse::<i16>().is_ok(),
            "i32" => t.parse::<i32>().is_ok(),
            "i64" | "isize" => t.parse::<i64>().is_ok(),
            "i128" => t.parse::<i128>().is_ok(),
            "u8" => t.parse::<u8>().is_ok(),
            "u16" => t.parse::<u16>().is_ok(),
            "u32" => t.parse::<u32>().is_ok(),
            "u64" | "usize" => t.parse::<u64>().is_ok(),
            "u128" => t.parse::<u128>().is_ok(),
            _ => false,
        }
    }
}

const NULLS: &[&str] = &["~", "null", "Null", "NULL"];
const TRUES: &[&str] = &["true", "True", "TRUE"];
const FALSES: &[&str] = &["false", "False", "FALSE"];

/// The text of one field.
#[derive(Clone, Debug)]
struct Tok {
    text: String,
    /// 0 plain, or the quote.
    quote: u8,
}

impl Tok {
    fn render(&self) -> String {
        match self.quote {
            0 => self.text.clone(),
            q => format!("{0}{1}{0}", char::from(q), self.text),
        }
    }
    fn number(&self) -> Option<(Num, Kind)> {
        if self.quote == 0 {
            denotes(&self.text)
        } else {
            None
        }
    }
    fn word(&self, w: &[&str]) -> bool {
        self.quote == 0 && w.contains(&self.text.as_str())
    }
    fn is_str(&self, s: &str) -> bool {
        if s == self.text {
            return true;
        }
        if self.quote != 0 {
            return false;
        }
        if self.word(NULLS) {
            return s == "null" || s.is_empty();
        }
        match denotes(&self.text) {
            Some((n @ Num::Dec { .. }, Kind::Int | Kind::Float)) => n.is(s),
            Some((n, Kind::Float)) => s == n.text(),
            _ => (self.word(TRUES) && s == "true") || (self.word(FALSES) && s == "false"),
        }
    }
    /// The text is certainly a string.
    fn certainly_str(&self) -> bool {
        self.quote != 0 || !(self.number().is_some() || self.word(NULLS) || self.word(TRUES) || self.word(FALSES))
    }

    /// Why the value cannot be what the text says.
    fn wrong(&self, g: &Got) -> Option<String> {
        let n = self.number();
        let int = |v: String| match &n {
            None => Some("the text is no number".into()),
            Some((n, _)) if n.is(&v) => None,
            Some((n, _)) => Some(format!("the text denotes {n:?}")),
        };
        match g {
            Got::I8(v) => int(v.to_string()),
            Got::I16(v) => int(v.to_string()),
            Got::I32(v) => int(v.to_string()),
            Got::I64(v) => int(v.to_string()),
            Got::I128(v) => int(v.to_string()),
            Got::U8(v) => int(v.to_string()),
            Got::U16(v) => int(v.to_string()),
            Got::U32(v) => int(v.to_string()),
            Got::U64(v) => int(v.to_string()),
            Got::U128(v) => int(v.to_string()),
            Got::Isize(v) => int(v.to_string()),
            Got::Usize(v) => int(v.to_string()),
            Got::F64(v) => match n {
                None => Some("the text is no number".into()),
                Some((n, _)) => match n.f64() {
                    None => Some("the text is beyond every float".into()),
                    Some(w) if w == *v || (w.is_nan() && v.is_nan()) => None,
                    Some(w) => Some(format!("the nearest is {w:e}")),
                },
            },
            Got::F32(v) => match n {
                None => Some("the text is no number".into()),
                Some((n, _)) => match n.f32() {
                    None => Some("the text is beyond every float".into()),
                    Some(w) if w == *v || (w.is_nan() && v.is_nan()) => None,
                    Some(w) => Some(format!("the nearest is {w:e}")),
                },
            },
            Got::Char(c) => {
                let mut i = self.text.chars();
                (i.next() != Some(*c) || i.next().is_some()).then(|| "the text is not this character".into())
            }
            Got::Str(s) => (!self.is_str(s)).then(|| "the text is another".into()),
            Got::Bool(b) => (!self.word(if *b { TRUES } else { FALSES })).then(|| "the text is not this word".into()),
            Got::Helper(h) => match &h.held {
                Held::Bool(b) => match self.wrong(&Got::Bool(*b)) {
                    None if h.shown != if *b { "true" } else { "false" } => Some("it shows another word".into()),
                    w => w,
                },
                Held::Int(v) => match int(v.to_string()) {
                    None if h.shown != v.to_string() => Some("it shows another number".into()),
                    w => w,
                },
                Held::Float(v) => match &n {
                    None => Some("the text is no number".into()),
                    Some((n, Kind::Int)) => (!n.is(&h.shown)).then(|| format!("the text denotes {n:?}")),
                    Some((n, _)) => match n.f64() {
                        None => Some("the text is beyond every float".into()),
                        // The reader of any data goes through f64.
                        Some(w) if (w as f32 == *v && w.is_finite() == v.is_finite()) || (w.is_nan() && v.is_nan()) => match h.shown.parse::<f32>() {
                            Ok(s) if s == *v || (s.is_nan() && v.is_nan()) => None,
                            _ => Some("it shows another number".into()),
                        },
                        Some(w) => Some(format!("the number is {w:e}")),
                    },
                },
                Held::Str(s) if s != &h.shown => Some("it shows another text".into()),
                Held::Str(s) => match &n {
                    // A float beyond the range of the type.
                    Some((n, Kind::Float)) if n.f64().is_some() && n.f64() == s.parse().ok() => None,
                    _ => (!self.is_str(s)).then(|| "the text is another".into()),
                },
            },
            Got::Unit | Got::None => (!self.word(NULLS)).then(|| "the text is not null".into()),
        }
    }

    /// The read must succeed, there is nothing wrong with the text.
    fn must(&self, ty: &str, place: usize) -> bool {
        let n = self.number();
        let certain = matches!(n, Some((_, Kind::Int | Kind::Float)));
        let decimal = !self.text.starts_with("0x") && !self.text.starts_with("0o");
        match ty {
            // Untagged enums are serde's.
            _ if place == 10 => false,
            "f64" | "f32" => match n {
                Some((n, k)) => k != Kind::Maybe && (decimal || n.fits("i64")) && if ty == "f32" { n.f32().is_some() } else { n.f64().is_some() },
                None => false,
            },
            "char" => self.text.chars().count() == 1 && (self.certainly_str() || matches!(n, Some((_, Kind::Int)))),
            "String" => certain || self.certainly_str() || self.word(TRUES) || self.word(FALSES),
            "bool" => self.word(TRUES) || self.word(FALSES),
            "Helper" => match n {
                Some((n, Kind::Int)) => n.fits("i64") || (decimal && n.fits("u64")),
                Some((n, Kind::Float)) => n.f64().is_some(),
                Some(_) => false,
                None => !self.word(NULLS),
            },
            "any" => match n {
                Some((n, Kind::Int)) => n.fits("i64") || (decimal && (n.fits("i128") || n.fits("u128"))),
                Some((n, Kind::Float)) => n.f64().is_some(),
                Some(_) => false,
                None => true,
            },
            _ => matches!(&n, Some((n, Kind::Int)) if n.fits(ty) && (decimal || n.fits("i64"))),
        }
    }
}

// ---- texts ----

const EDGES: &[&str] = &[
    "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648",
    "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
    "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "340282366920938463463374607431768211455",
    "340282366920938463463374607431768211456", "0", "-0", "00", "-007", "1", "9", "10", "99", "16777217", "33554435", "9007199254740993", "9223372036854775297",
    "0x7f", "0xff", "0x100", "0xFFFF", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0x10000000000000000", "0x0", "0xe", "0o17",
    "0o377", "0o400", "0o777777777777777777777", "0o1000000000000000000000", "1.0", "1.", "-0.0", "0.1", "3.4028235e38", "3.4028236e38", "3.40282357e38",
    "-3.5e38", "1e39", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "-1.8e308", "1e309", "1e400", "1e-400", "2.47e-324", "5e-324",
    "1.4e-45", "7e-46", "1e-46", "1.00000017881393421514957253748434595763683319091796875001", "1.00000005960464488641292746251565404236316680908203125", "1e5",
    "1E5", "1e+5", "1e-5", "12.5e3", "1.e2", "-1e5", "0e999999", "1e99999999999999999999", ".inf", "-.inf", ".nan", ".5", "+1", "+.5", "1_000", "0b11", "1,000", "½",
    "１２", "٣", "०", "true", "false", "null", "~", "True", "FALSE", "Null", "inf", "nan", "Infinity", "NaN", "-inf", "x", "é", "-", "1-2", "1.2.3", "12:30", "0x", "0o", "0o8",
    "0xg", "1e", "1e+", "e1", "--1", "-0x10", "-0o7", "0X1F", "1f", "1u8", "100%",
];

fn typed() -> Got {
    let w = || (u128::from(word()) << 96) | (u128::from(word()) << 64) | (u128::from(word()) << 32) | u128::from(word());
    // A random width, so that every size of number comes up.
    let n = w() >> choose(128);
    macro_rules! int {
        ($v:ident, $t:ty) => {
            Got::$v(match choose(6) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => choose(20) as $t,
                3 => (0 as $t).wrapping_sub(choose(20) as $t),
                4 => (<$t>::MAX >> 1).wrapping_add(choose(2) as $t),
                _ => n as $t,
            })
        };
    }
    match choose(18) {
        0 => int!(I8, i8),
        1 => int!(I16, i16),
        2 => int!(I32, i32),
        3 => int!(I64, i64),
        4 => int!(I128, i128),
        5 => int!(U8, u8),
        6 => int!(U16, u16),
        7 => int!(U32, u32),
        8 => int!(U64, u64),
        9 => int!(U128, u128),
        10 => int!(Isize, isize),
        11 => int!(Usize, usize),
        12 => Got::F32(match choose(4) {
            0 => pick(&[0., -0., 1., 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 16777216., 1e10, 1e16]),
            1 => choose(1000) as f32 / 8.,
            _ => f32::from_bits(word() as u32),
        }),
        13 => Got::F64(match choose(4) {
            0 => gen::float(),
            1 => n as f64,
            _ => f64::from_bits(w() as u64),
        }),
        14 => Got::Char(match choose(3) {
            0 => gen::ch(),
            1 => pick(&['0', '9', 'a', '~', '-', '?', ':', '#', '\'', '"', '\\', ' ', '\n', '\t', '\0', 'é', '½', '１', '🀄', '\u{feff}', '\u{2028}', '\u{85}', '\u{10ffff}', '\r', '\u{7f}', '&', '*', '!', '|', '>', '%', '@', '`', ',', '[', ']', '{', '}', '.', '=', 'y', 'n']),
            _ => char::from_u32(word() as u32 % 0x11_0000).unwrap_or('z'),
        }),
        15 => {
            let mut m = gen::mix();
            m.hard_strings = true;
            Got::Str(if chance(1, 2) { pick(EDGES).into() } else { gen::string(&m) })
        }
        16 => Got::Bool(chance(1, 2)),
        _ => Got::Helper(Helper::new(match choose(4) {
            0 => Held::Bool(chance(1, 2)),
            1 => Held::Int(pick(&[i32::MAX, i32::MIN, 0, -1, n as i32])),
            2 => Held::Float(pick(&[0., -0., 0.1, 1., 1e16, f32::MAX, f32::MIN, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::from_bits(n as u32)])),
            _ => Held::Str(pick(EDGES).into()),
        })),
    }
}

fn type_of(g: &Got) -> usize {
    match g {
        Got::I8(_) => 0,
        Got::I16(_) => 1,
        Got::I32(_) => 2,
        Got::I64(_) => 3,
        Got::I128(_) => 4,
        Got::U8(_) => 5,
        Got::U16(_) => 6,
        Got::U32(_) => 7,
        Got::U64(_) => 8,
        Got::U128(_) => 9,
        Got::Isize(_) => 10,
        Got::Usize(_) => 11,
        Got::F32(_) => 12,
        Got::F64(_) => 13,
        Got::Char(_) => 14,
        Got::Str(_) => 15,
        Got::Bool(_) => 16,
        Got::Helper(_) => 17,
        Got::Unit | Got::None => 18,
    }
}

fn same(a: &Got, b: &Got) -> bool {
    match (a, b) {
        (Got::F32(a), Got::F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (Got::Helper(Helper { held: Held::Float(a), .. }), Got::Helper(Helper { held: Held::Float(b), .. })) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (Got::F64(a), Got::F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        _ => a == b,
    }
}

/// The text of a value as an application would write it.
fn text_of(g: &Got) -> Option<Tok> {
    let plain = |s: String| Some(Tok { text: s, quote: 0 });
    match g {
        Got::I8(v) => plain(v.to_string()),
        Got::I16(v) => plain(v.to_string()),
        Got::I32(v) => plain(v.to_string()),
        Got::I64(v) => plain(v.to_string()),
        Got::I128(v) => plain(v.to_string()),
        Got::U8(v) => plain(v.to_string()),
        Got::U16(v) => plain(v.to_string()),
        Got::U32(v) => plain(v.to_string()),
        Got::U64(v) => plain(v.to_string()),
        Got::U128(v) => plain(v.to_string()),
        Got::Isize(v) => plain(v.to_string()),
        Got::Usize(v) => plain(v.to_string()),
        Got::F32(v) if v.is_finite() => plain(if chance(1, 3) { format!("{v:e}") } else { format!("{v:?}") }),
        Got::F64(v) if v.is_finite() => plain(if chance(1, 3) { format!("{v:e}") } else { format!("{v:?}") }),
        Got::F32(v) => plain(if v.is_nan() { ".nan" } else if *v < 0. { "-.inf" } else { ".inf" }.into()),
        Got::F64(v) => plain(if v.is_nan() { ".nan" } else if *v < 0. { "-.inf" } else { ".inf" }.into()),
        Got::Char(c) if c.is_alphanumeric() => Some(Tok { text: c.to_string(), quote: b'"' }),
        Got::Bool(v) => plain(v.to_string()),
        Got::Helper(h) => match &h.held {
            Held::Bool(v) => plain(v.to_string()),
            Held::Int(v) => plain(v.to_string()),
            Held::Float(v) => text_of(&Got::F32(*v)),
            Held::Str(s) => Some(Tok { text: s.clone(), quote: b'"' }),
        },
        _ => None,
    }
}

/// Indicators that are text inside of a plain scalar.
const INSIDE: &str = " #=/*&!'\"|>@;<()$^`?";

/// What the medium lets through: bytes that keep the text one scalar.
fn clean(t: &mut Tok) {
    let quoted = t.quote != 0;
    t.text.retain(|c| c.is_alphanumeric() || "+-._~%".contains(c) || if quoted { " \t,:#".contains(c) } else { INSIDE.contains(c) });
    if !quoted {
        // Only behind a letter or digit these are text.
        let mut last = ' ';
        t.text.retain(|c| {
            let keep = !INSIDE.contains(c) || last.is_alphanumeric();
            if keep {
                last = c;
            }
            keep
        });
        t.text.truncate(t.text.trim_end_matches(' ').len());
    }
    t.text.truncate(t.text.char_indices().nth(6000).map_or(t.text.len(), |c| c.0));
    let indicator = t.text.trim_matches(['-', '.', '+', '_', '%', '~', ' ']).is_empty() && !t.text.starts_with('~');
    if t.quote == 0 && (indicator || t.text.starts_with('%')) {
        t.text.push('7');
        t.text.retain(|c| c != '%');
    }
    if t.quote == 0 && t.text.starts_with('~') && t.text.len() > 1 {
        t.text.remove(0);
        clean(t);
    }
}

fn token() -> Tok {
    span(|| {
        let mut t = match choose(4) {
            0 => text_of(&typed()).unwrap_or(Tok { text: "0".into(), quote: 0 }),
            1 => {
                // Digits, in some radix, of some length.
                let n = pick(&[1usize, 2, 3, 5, 10, 18, 19, 20, 21, 38, 39, 40, 60, 320]);
                let mut s = pick(&["", "", "", "-", "0x", "0o"]).to_string();
                let hex = s == "0x";
                for _ in 0..n {
                    s.push(if hex { pick(&['0', '1', '7', '8', '9', 'a', 'e', 'f', 'F', 'E']) } else { pick(&['0', '1', '2', '5', '7', '9']) });
                }
                if !s.starts_with("0x") && chance(1, 3) {
                    let at = 1 + choose(s.len());
                    s.insert(at.min(s.len()), '.');
                }
                if !s.starts_with("0x") && chance(1, 4) {
                    s += pick(&["e0", "e1", "e-1", "e38", "e-45", "e308", "E-324", "e+19", "e-19"]);
                }
                Tok { text: s, quote: 0 }
            }
            _ => Tok { text: pick(EDGES).into(), quote: 0 },
        };
        if chance(1, 6) {
            t.quote = pick(b"'\"");
            // Text that is nearly a number.
            match choose(8) {
                0 => t.text.insert_str(0, pick(&[" ", "  ", "\t", "+", ",", "#", "0", ": "])),
                1 => t.text.push_str(pick(&[" ", "  ", "\t", "_", ",", " #", ":", "u8", "f64", "%"])),
                2 => {
                    let at = choose(t.text.len() + 1);
                    if t.text.is_char_boundary(at) {
                        t.text.insert_str(at, pick(&[" ", ",", "_", ":", "."]));
                    }
                }
                _ => {}
            }
        }
        clean(&mut t);
        t
    })
}

/// Bytes that are near to numbers, or end them for a careless reader.
const DIGITS: &[u8] = b"0123456789-+.eExo_aF0123456789-+.eExo_aF #=/*&!'\"|>@;<()$^`?";

/// One fault of the storage that holds the text.
fn damage(t: &mut Tok) {
    span(|| {
        let before = t.render();
        let mut b = std::mem::take(&mut t.text).into_bytes();
        let n = b.len();
        let at = choose(n);
        let name = match choose(12) {
            0 => {
                b[at] ^= 1 << choose(8);
                "fault:bit_flip"
            }
            1 => {
                b[at] = pick(DIGITS);
                "fault:byte_replaced"
            }
            2 => {
                b.truncate(at.max(1));
                "fault:torn_write"
            }
            3 => {
                b.drain(at..(at + 1 + choose(3)).min(n));
                "fault:bytes_lost"
            }
            4 => {
                let e = (at + pick(&[1usize, 2, 4, 8])).min(n);
                let s = b[at..e].to_vec();
                b.splice(e..e, s);
                "fault:bytes_repeated"
            }
            5 => {
                // The new text is shorter than the old one below it.
                let old = token().text.into_bytes();
                if old.len() > n {
                    b.extend_from_slice(&old[n..]);
                }
                "fault:stale_tail"
            }
            6 => {
                let old = token().text.into_bytes();
                for i in 0..at.min(old.len()) {
                    b[i] = old[i];
                }
                "fault:stale_head"
            }
            7 => {
                let j = choose(n);
                b.swap(at, j);
                "fault:bytes_swapped"
            }
            8 => {
                let c = b[at];
                let k = pick(&[2usize, 8, 20, 40, 310, 3000]);
                b.splice(at..at, std::iter::repeat_n(c, k));
                "fault:stuck_byte"
            }
            9 => {
                b.insert(at, pick(DIGITS));
                "fault:byte_inserted"
            }
            10 => {
                let c = pick(&["½", "１", "٣", "é", "−", "\u{0}", "\u{a0}", "\u{200b}", "Ⅷ", "²"]);
                let at = (0..=at).rev().find(|i| std::str::from_utf8(&b[..*i]).is_ok()).unwrap_or(0);
                b.splice(at..at, c.bytes());
                "fault:line_noise"
            }
            _ => {
                // Bytes of the next write land inside this one.
                let s = pick(EDGES).as_bytes();
                b.splice(at..at, s.iter().copied());
                "fault:interleaved_write"
            }
        };
        t.text = String::from_utf8_lossy(&b).replace('\u{fffd}', "");
        clean(t);
        if t.text.is_empty() {
            t.text.push('0');
        }
        if t.render() != before {
            fault(name);
        }
    })
}

/// The text of a document with the tokens as fields of the place, and which
/// token each field has.
fn place_text(v: &[Tok], place: usize) -> (String, Vec<usize>) {
    let t: Vec<String> = v.iter().map(Tok::render).collect();
    let all: Vec<usize> = (0..t.len()).collect();
    let last = t.len() - 1;
    let (a, b) = (&t[0], &t[last]);
    let style = choose(3);
    let lines = |pre: &str| t.iter().map(|t| format!("{pre}- {t}\n")).collect::<String>();
    let flow = || format!("[{}]", t.join(", "));
    match place {
        0 | 5 => match style {
            0 => (format!("{a}\n"), vec![0]),
            1 => (t.iter().map(|t| format!("--- {t}\n")).collect(), all),
            _ => (t.iter().map(|t| format!("---\n{t}\n...\n")).collect(), all),
        },
        1 | 8 => match style {
            0 => (lines(""), all),
            1 => (flow() + "\n", all),
            _ => (format!("- &x {a}\n- *x\n- !t {b}\n- &y {a}\n- *y\n"), vec![0, 0, last, 0, 0]),
        },
        2 => match style {
            0 => (t.iter().enumerate().map(|(i, t)| format!("k{i}: {t}\n")).collect(), all),
            1 => (format!("{{{}}}\n", t.iter().enumerate().map(|(i, t)| format!("k{i}: {t}")).collect::<Vec<_>>().join(", ")), all),
            _ => (t.iter().enumerate().map(|(i, t)| format!("k{i}:\n  {t}\n")).collect(), all),
        },
        3 => match style {
            0 => (format!("{a}: v\n"), vec![0]),
            1 => (format!("{{{a}: v}}\n"), vec![0]),
            _ => (format!("? {a}\n: v\n"), vec![0]),
        },
        4 => match style {
            0 => (format!("v: {a}\nw: {b}\n"), vec![0, last]),
            1 => (format!("{{w: {b}, v: {a}}}\n"), vec![0, last]),
            _ => (format!("[{a}, {b}]\n"), vec![0, last]),
        },
        6 => match style {
            0 => (format!("- {a}\n- {b}\n"), vec![0, last]),
            _ => (format!("[{a}, {b}]\n"), vec![0, last]),
        },
        7 => match style {
            0 => (format!("- New: {a}\n- Tup: [{a}, {b}]\n- St: {{v: {b}, w: {a}}}\n"), vec![0, 0, last, last, 0]),
            1 => (format!("[{{New: {b}}}, {{Tup: [{b}, {a}]}}]\n"), vec![last, last, 0]),
            _ => (format!("- Tup:\n  - {a}\n  - {b}\n- St:\n    w: {a}\n    v: {b}\n"), vec![0, last, last, 0]),
        },
        9 => match style {
            0 => (format!("- - {a}\n  - - {b}\n    - {a}\n"), vec![0, last, 0]),
            _ => (format!("[[{a}, {}]]\n", flow()), std::iter::once(0).chain(all).collect()),
        },
        10 => match style {
            0 => (format!("v: {a}\nw: {}\n", flow()), std::iter::once(0).chain(all).collect()),
            _ => (format!("w:\n- {b}\nv: {}\n", flow()), all.iter().copied().chain([last]).collect()),
        },
        _ => match style {
            0 => (format!("m:\n{}", t.iter().enumerate().map(|(i, t)| format!("  k{i}: {t}\n")).collect::<String>()), all),
            1 => (format!("{{m: {{{}}}}}\n", t.iter().enumerate().map(|(i, t)| format!("k{i}: {t}")).collect::<Vec<_>>().join(", ")), all),
            _ => (format!("m:\n  k0:\n    {a}\n  k1: {b}\n"), vec![0, last]),
        },
    }
}

fn read(text: &str, place: usize, via: usize, ty: usize) -> Result<Vec<Got>, String> {
    sched::app(|| num::set_type(ty));
    lib(&format!("reading {} in place {place}", TYPES[ty]), || num::read(text, place, via).map_err(|e| e.to_string()))
}

/// All fields as one type.
fn check(text: &str, place: usize, via: usize, ty: usize, toks: &[Tok], order: &[usize]) {
    let name = TYPES[ty];
    let r = read(text, place, via, ty);
    shm::state_note(&format!("{place} {name} {}", r.is_ok()));
    match r {
        Ok(v) => {
            rt::stat("op:read_ok");
            if v.len() != order.len() {
                violation!("fields-differ", "{} fields were written, {} were read as {name} in place {place}: {v:?}\n{text}", order.len(), v.len());
            }
            for (g, i) in v.iter().zip(order) {
                let t = &toks[*i];
                // Optional fields turn null into none, unit types do not exist here.
                if let Some(why) = t.wrong(g) {
                    violation!("wrong-value", "{:?} read as {name} in place {place} gives {g:?}: {why}\n{text}", t.render());
                }
            }
        }
        Err(e) => {
            rt::stat("op:read_err");
            if order.iter().all(|i| toks[*i].must(name, place)) {
                violation!("good-value-refused", "every field is a good {name} in place {place}, but: {e}\n{text}");
            }
        }
    }
}

fn said_ok(t: &Tok, s: &Said) -> Option<String> {
    let n = t.number();
    let mut v = vec![];
    v.extend(s.bool.map(Got::Bool));
    v.extend(s.int.map(Got::I64));
    v.extend(s.float.map(Got::F64));
    v.extend(s.number.map(Got::F64));
    if s.null {
        v.push(Got::Unit);
    }
    if let Some(w) = v.iter().find_map(|g| t.wrong(g).map(|w| format!("{g:?}: {w}"))) {
        return Some(w);
    }
    match &s.str {
        Some(x) if *x != t.text && !(x.is_empty() && s.null) => return Some(format!("as_str gives {x:?}")),
        _ => {}
    }
    match &s.value {
        Some(x) if !t.is_str(x) => return Some(format!("as_value gives {x:?}")),
        _ => {}
    }
    if let Some((n, k)) = n {
        let decimal = !t.text.starts_with('0') || t.text.bytes().all(|c| c.is_ascii_digit());
        if k == Kind::Int && decimal && n.fits("i64") && (s.int.is_none() || s.number.is_none()) {
            return Some("the integer was refused".into());
        }
        if k == Kind::Float && n.f64().is_some() && (s.float.is_none() || s.number.is_none()) {
            return Some("the float was refused".into());
        }
    }
    if t.certainly_str() && s.str.as_deref() != Some(&t.text) {
        return Some("the string was refused".into());
    }
    None
}

fn damaged() {
    let place = choose(num::PLACES);
    let k = if place == 3 { 1 } else { range(1, 4) };
    let mut toks: Vec<Tok> = (0..k).map(|_| token()).collect();
    let hit = choose(k);
    let was = toks[hit].clone();
    for _ in 0..choose(4) {
        damage(&mut toks[hit]);
    }
    let (text, order) = place_text(&toks, place);
    ev!("place {place}, {:?} damaged to {:?} in\n   {}", was.render(), toks[hit].render(), super::show(text.as_bytes()));
    let via = choose(4);
    for _ in 0..range(2, 7) {
        let ty = if place == 10 { pick(&[0usize, 1, 2, 3, 5, 6, 7, 8, 13, 14, 15, 16, 17]) } else { choose(TYPES.len()) };
        ev!("  as {}", TYPES[ty]);
        check(&text, place, via, ty, &toks, &order);
    }
    if place == 1 {
        let v = lib("loading", || sut::parse_rc(&text));
        let Ok(v) = v else { violation!("good-value-refused", "a list of scalars was refused\n{text}") };
        let l = sut::seq_of(&v[0]);
        if l.len() != order.len() {
            violation!("fields-differ", "{} fields were written, {} were loaded\n{text}", order.len(), l.len());
        }
        for (n, i) in l.iter().zip(&order) {
            let s = lib("accessors", || num::said(n));
            if let Some(why) = said_ok(&toks[*i], &s) {
                violation!("wrong-value", "the accessors of {:?} say {why} ({s:?})\n{text}", toks[*i].render());
            }
        }
    }
}

/// Values written by the library come back exactly, or as another type not at
/// all or exactly.
fn written() {
    let place = choose(num::PLACES);
    let first = typed();
    let ty = type_of(&first);
    let mut v = vec![first];
    if place != 3 {
        while v.len() < 3 && chance(1, 2) {
            let g = typed();
            if type_of(&g) == ty {
                v.push(g);
            }
        }
    }
    // Untagged enums are serde's.
    if place == 10 && matches!(v[0], Got::F32(_) | Got::I128(_) | Got::U128(_)) {
        return;
    }
    rt::stat("op:write_typed");
    ev!("place {place}, written {v:?}");
    let text = match lib("writing", || num::write(&v, place)) {
        Ok(t) => t,
        Err(e) => violation!("write-failed", "{v:?} in place {place}: {e}"),
    };
    ev!("   {}", super::show(text.as_bytes()));
    let want = num::written(&v, place);
    let got = read(&text, place, choose(4), ty);
    match &got {
        Ok(g) if g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| same(a, b)) => {}
        _ => violation!("round-trip", "{want:?} written in place {place} was read back as {got:?}\n{text}"),
    }
    // As another type.
    let toks: Vec<Option<Tok>> = want
        .iter()
        .map(|g| match g {
            Got::Str(s) => Some(Tok { text: s.clone(), quote: b'"' }),
            Got::Char(c) => Some(Tok { text: c.to_string(), quote: b'"' }),
            g => text_of(g),
        })
        .collect();
    if let Some(toks) = toks.into_iter().collect::<Option<Vec<_>>>() {
        let order: Vec<usize> = (0..toks.len()).collect();
        for _ in 0..range(1, 4) {
            let ty = if place == 10 { pick(&[0usize, 3, 5, 8, 13, 15]) } else { choose(TYPES.len()) };
            ev!("  as {}", TYPES[ty]);
            check(&text, place, choose(4), ty, &toks, &order);
        }
        // The line of a list is the number itself.
        if place == 1 && !matches!(v[0], Got::Str(_) | Got::Char(_) | Got::Helper(_)) {
            for (l, t) in text.lines().filter_map(|l| l.strip_prefix("- ")).zip(&toks) {
                match (denotes(l), denotes(&t.text)) {
                    (Some((a, _)), Some((b, _))) if a.is(&t.text) && b.is(l) => {}
                    (None, None) if l == t.text => {}
                    _ => violation!("wrong-text", "{:?} was written as {l:?}", t.text),
                }
            }
        }
    }
    // Without a text in between.
    for g in &v {
        sched::app(|| num::set_type(ty));
        let r = if chance(1, 2) { guard(|| num::convert::<RcRepr>(g)) } else { guard(|| num::convert::<ArcRepr>(g)) };
        match r {
            Ok(Ok(h)) if same(&h, g) => {}
            Ok(r) => violation!("round-trip", "{g:?} through a node gives {r:?}"),
            Err(p) => violation!("panic", "{g:?} through a node: {p}"),
        }
    }
}

fn run() {
    if chance(1, 4) {
        written();
    } else {
        damaged();
    }
}

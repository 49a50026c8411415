//! The other side of a conversation: values, serializers, visitors,
//! deserializers and output sinks that record what they are sent and fail, or
//! panic, at a chosen call.
use crate::model::{Item, Val};
use rt::sched::app;
use serde::{
    de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{self, Serialize, Serializer},
    Deserialize, Deserializer,
};
use std::{
    cell::{Cell, RefCell},
    fmt,
};

pub const FAIL: &str = "simulated failure of the peer #4711";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Off,
    Fail,
    Panic,
    /// Makes another library call from inside this one.
    Nest,
}

type Nested = Box<dyn FnOnce()>;

thread_local! {
    static NEST: RefCell<Option<Nested>> = const { RefCell::new(None) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static AFTER: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static PLAN: Cell<u64> = const { Cell::new(0) };
}

/// What `Mode::Nest` does, once.
pub fn nest(f: Option<Nested>) {
    let old = NEST.with(|n| n.replace(f));
    drop(old);
}

pub fn run_nested() {
    if let Some(f) = NEST.with(|n| n.borrow_mut().take()) {
        app(f);
    }
}

/// Fail at the `n`-th call from now (1 = the next one).
pub fn arm(mode: Mode, n: u64) {
    MODE.with(|m| m.set(mode));
    LEFT.with(|l| l.set(n));
    FIRED.with(|f| f.set(false));
    AFTER.with(|a| a.set(0));
    CALLS.with(|c| c.set(0));
    TRACE.with(|t| app(|| t.borrow_mut().clear()));
}

pub struct Report {
    pub fired: bool,
    /// Calls that came after the failing one.
    pub after: u64,
    pub calls: u64,
    pub trace: Vec<String>,
}

pub fn trace_so_far() -> Vec<String> {
    TRACE.with(|t| t.borrow().clone())
}

pub fn report() -> Report {
    MODE.with(|m| m.set(Mode::Off));
    Report { fired: FIRED.with(Cell::get), after: AFTER.with(Cell::get), calls: CALLS.with(Cell::get), trace: TRACE.with(|t| std::mem::take(&mut *t.borrow_mut())) }
}

/// One call of the peer. True = it fails.
pub fn hit(what: impl FnOnce() -> String) -> bool {
    CALLS.with(|c| c.set(c.get() + 1));
    if FIRED.with(Cell::get) {
        AFTER.with(|a| a.set(a.get() + 1));
    }
    app(|| {
        let s = what();
        TRACE.with(|t| t.borrow_mut().push(s))
    });
    let n = LEFT.with(Cell::get);
    match MODE.with(Cell::get) {
        Mode::Off => false,
        m if n == 1 => {
            LEFT.with(|l| l.set(0));
            FIRED.with(|f| f.set(true));
            if m == Mode::Nest {
                run_nested();
                FIRED.with(|f| f.set(false));
                return false;
            }
            if m == Mode::Panic {
                app(|| std::panic::panic_any(FAIL));
            }
            true
        }
        _ => {
            LEFT.with(|l| l.set(n.saturating_sub(1)));
            false
        }
    }
}

// ---- the peer's error ----

#[derive(Debug, PartialEq)]
pub struct PeerErr {
    pub id: u64,
    pub msg: String,
}

pub fn mine() -> PeerErr {
    app(|| PeerErr { id: 4711, msg: FAIL.into() })
}

impl fmt::Display for PeerErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for PeerErr {}
impl ser::Error for PeerErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        app(|| Self { id: 0, msg: m.to_string() })
    }
}
impl de::Error for PeerErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        app(|| Self { id: 0, msg: m.to_string() })
    }
}

// ---- a value being serialized ----

#[derive(Clone, Debug)]
pub enum SVal {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<SVal>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    Newtype(Box<SVal>),
    NewtypeVariant(&'static str, Box<SVal>),
    /// With an announced length, see `announced`.
    Seq(Vec<SVal>, u8),
    Tuple(Vec<SVal>),
    TupleStruct(Vec<SVal>),
    TupleVariant(&'static str, Vec<SVal>),
    Map(Vec<(SVal, SVal)>, bool, u8),
    Struct(Vec<(&'static str, SVal)>),
    StructVariant(&'static str, Vec<(&'static str, SVal)>),
}

pub const HINTS: usize = 6;

/// What is said about the length beforehand: nothing, the truth, or not quite
/// the truth.
fn announced(hint: u8, n: usize) -> Option<usize> {
    match hint {
        0 => None,
        1 => Some(n),
        2 => Some(0),
        3 => Some(n.saturating_sub(1)),
        4 => Some(n + 1),
        _ => Some(2 * n + 3),
    }
}

/// The same by a sender that nobody should trust.
fn claimed(salt: u64, n: usize) -> Option<usize> {
    match salt >> 5 & 7 {
        0..=3 => None,
        4 => Some(n),
        5 => Some(usize::MAX),
        6 => Some(0),
        _ => Some(n + 2),
    }
}

impl Serialize for SVal {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        if hit(|| self.head()) {
            return Err(S::Error::custom(FAIL));
        }
        match self {
            Self::Bool(v) => s.serialize_bool(*v),
            Self::I8(v) => s.serialize_i8(*v),
            Self::I16(v) => s.serialize_i16(*v),
            Self::I32(v) => s.serialize_i32(*v),
            Self::I64(v) => s.serialize_i64(*v),
            Self::I128(v) => s.serialize_i128(*v),
            Self::U8(v) => s.serialize_u8(*v),
            Self::U16(v) => s.serialize_u16(*v),
            Self::U32(v) => s.serialize_u32(*v),
            Self::U64(v) => s.serialize_u64(*v),
            Self::U128(v) => s.serialize_u128(*v),
            Self::F32(v) => s.serialize_f32(*v),
            Self::F64(v) => s.serialize_f64(*v),
            Self::Char(v) => s.serialize_char(*v),
            Self::Str(v) => s.serialize_str(v),
            Self::Bytes(v) => s.serialize_bytes(v),
            Self::None => s.serialize_none(),
            Self::Some(v) => s.serialize_some(&**v),
            Self::Unit => s.serialize_unit(),
            Self::UnitStruct => s.serialize_unit_struct("Us"),
            Self::UnitVariant(n) => s.serialize_unit_variant("E", 0, n),
            Self::Newtype(v) => s.serialize_newtype_struct("N", &**v),
            Self::NewtypeVariant(n, v) => s.serialize_newtype_variant("E", 1, n, &**v),
            Self::Seq(v, hint) => {
                let mut q = s.serialize_seq(announced(*hint, v.len()))?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Self::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Self::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            Self::TupleVariant(n, v) => {
                let mut q = s.serialize_tuple_variant("E", 2, n, v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            Self::Map(v, entry, hint) => {
                let mut q = s.serialize_map(announced(*hint, v.len()))?;
                for (k, e) in v {
                    if *entry {
                        q.serialize_entry(k, e)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(e)?;
                    }
                }
                q.end()
            }
            Self::Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (k, e) in v {
                    q.serialize_field(k, e)?;
                }
                q.end()
            }
            Self::StructVariant(n, v) => {
                let mut q = s.serialize_struct_variant("E", 3, n, v.len())?;
                for (k, e) in v {
                    q.serialize_field(k, e)?;
                }
                q.end()
            }
        }
    }
}

impl SVal {
    fn head(&self) -> String {
        let s = format!("{self:?}");
        s.chars().take(24).collect()
    }

    /// The calls of an undisturbed conversation.
    pub fn trace(&self, out: &mut Vec<String>) {
        out.push(self.head());
        match self {
            Self::Some(v) | Self::Newtype(v) | Self::NewtypeVariant(_, v) => v.trace(out),
            Self::Seq(v, _) | Self::Tuple(v) | Self::TupleStruct(v) | Self::TupleVariant(_, v) => v.iter().for_each(|v| v.trace(out)),
            Self::Map(v, ..) => v.iter().for_each(|(k, v)| {
                k.trace(out);
                v.trace(out);
            }),
            Self::Struct(v) | Self::StructVariant(_, v) => v.iter().for_each(|(_, v)| v.trace(out)),
            _ => {}
        }
    }

    /// Canonical text of the node this value becomes.
    /// A key comes twice somewhere.
    pub fn twice(&self) -> bool {
        match self {
            Self::Some(v) | Self::Newtype(v) | Self::NewtypeVariant(_, v) => v.twice(),
            Self::Seq(v, _) | Self::Tuple(v) | Self::TupleStruct(v) | Self::TupleVariant(_, v) => v.iter().any(Self::twice),
            Self::Map(v, ..) => {
                let k: std::collections::BTreeSet<_> = v.iter().map(|(k, _)| k.canon()).collect();
                k.len() < v.len() || v.iter().any(|(k, v)| k.twice() || v.twice())
            }
            Self::Struct(v) | Self::StructVariant(_, v) => v.iter().any(|(_, v)| v.twice()),
            _ => false,
        }
    }

    pub fn canon(&self) -> String {
        fn seq(v: &[SVal]) -> String {
            format!("[{}]", v.iter().map(|e| e.canon() + ",").collect::<String>())
        }
        fn fields(v: &[(&'static str, SVal)]) -> String {
            format!("{{{}}}", v.iter().map(|(k, e)| format!("str {k:?}={},", e.canon())).collect::<String>())
        }
        fn int(n: String) -> String {
            match n.parse::<i64>() {
                Ok(n) => format!("int {n}"),
                Err(_) => format!("int? {n}"),
            }
        }
        fn num(f: f64) -> String {
            if f.is_nan() {
                "float nan".into()
            } else {
                format!("float {:016x}", f.to_bits())
            }
        }
        match self {
            Self::Bool(v) => format!("bool {v}"),
            Self::I8(v) => int(v.to_string()),
            Self::I16(v) => int(v.to_string()),
            Self::I32(v) => int(v.to_string()),
            Self::I64(v) => int(v.to_string()),
            Self::I128(v) => int(v.to_string()),
            Self::U8(v) => int(v.to_string()),
            Self::U16(v) => int(v.to_string()),
            Self::U32(v) => int(v.to_string()),
            Self::U64(v) => int(v.to_string()),
            Self::U128(v) => int(v.to_string()),
            Self::F32(v) => num(v.to_string().parse().unwrap()),
            Self::F64(v) => num(*v),
            Self::Char(v) => format!("str {:?}", v.to_string()),
            Self::Str(v) => format!("str {v:?}"),
            Self::Bytes(v) => format!("[{}]", v.iter().map(|b| format!("int {b},")).collect::<String>()),
            Self::None | Self::Unit | Self::UnitStruct => "null".into(),
            Self::Some(v) | Self::Newtype(v) => v.canon(),
            Self::UnitVariant(n) => format!("str {n:?}"),
            Self::NewtypeVariant(n, v) => format!("{{str {n:?}={},}}", v.canon()),
            Self::Seq(v, _) | Self::Tuple(v) | Self::TupleStruct(v) => seq(v),
            Self::TupleVariant(n, v) => format!("{{str {n:?}={},}}", seq(v)),
            Self::Map(v, ..) => format!("{{{}}}", v.iter().map(|(k, e)| format!("{}={},", k.canon(), e.canon())).collect::<String>()),
            Self::Struct(v) => fields(v),
            Self::StructVariant(n, v) => format!("{{str {n:?}={},}}", fields(v)),
        }
    }
}

// ---- a serializer ----

/// Records the calls, in a form that does not depend on the integer width.
#[derive(Clone, Copy)]
pub struct TSer;

fn put(what: impl FnOnce() -> String) -> Result<(), PeerErr> {
    if hit(what) {
        return Err(mine());
    }
    Ok(())
}

macro_rules! prim {
    ($($f:ident $t:ty, $fmt:literal;)+) => {$(
        fn $f(self, v: $t) -> Result<(), PeerErr> {
            put(|| format!($fmt, v))
        }
    )+};
}

pub fn fbits(f: f64) -> String {
    if f.is_nan() {
        "float nan".into()
    } else {
        format!("float {:016x}", f.to_bits())
    }
}

impl Serializer for TSer {
    type Ok = ();
    type Error = PeerErr;
    type SerializeSeq = TCom;
    type SerializeTuple = TCom;
    type SerializeTupleStruct = TCom;
    type SerializeTupleVariant = TCom;
    type SerializeMap = TCom;
    type SerializeStruct = TCom;
    type SerializeStructVariant = TCom;
    prim! {
        serialize_bool bool, "bool {}";
        serialize_i8 i8, "int {}";
        serialize_i16 i16, "int {}";
        serialize_i32 i32, "int {}";
        serialize_i64 i64, "int {}";
        serialize_i128 i128, "int {}";
        serialize_u8 u8, "int {}";
        serialize_u16 u16, "int {}";
        serialize_u32 u32, "int {}";
        serialize_u64 u64, "int {}";
        serialize_u128 u128, "int {}";
        serialize_char char, "char {:?}";
        serialize_str &str, "str {:?}";
        serialize_bytes &[u8], "bytes {:?}";
    }
    fn serialize_f32(self, v: f32) -> Result<(), PeerErr> {
        put(|| fbits(v.into()))
    }
    fn serialize_f64(self, v: f64) -> Result<(), PeerErr> {
        put(|| fbits(v))
    }
    fn serialize_none(self) -> Result<(), PeerErr> {
        put(|| "null".into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), PeerErr> {
        put(|| "some".into())?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), PeerErr> {
        put(|| "null".into())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), PeerErr> {
        put(|| format!("unit struct {n}"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), PeerErr> {
        put(|| format!("unit variant {v}"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<(), PeerErr> {
        put(|| format!("newtype {n}"))?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<(), PeerErr> {
        put(|| format!("newtype variant {n}"))?;
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<TCom, PeerErr> {
        put(|| "[".into())?;
        Ok(TCom { len, sent: 0 })
    }
    fn serialize_tuple(self, len: usize) -> Result<TCom, PeerErr> {
        put(|| "[".into())?;
        Ok(TCom { len: Some(len), sent: 0 })
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<TCom, PeerErr> {
        put(|| "[".into())?;
        Ok(TCom { len: Some(len), sent: 0 })
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, len: usize) -> Result<TCom, PeerErr> {
        put(|| format!("{n} ["))?;
        Ok(TCom { len: Some(len), sent: 0 })
    }
    fn serialize_map(self, len: Option<usize>) -> Result<TCom, PeerErr> {
        put(|| "{".into())?;
        Ok(TCom { len, sent: 0 })
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<TCom, PeerErr> {
        put(|| "{".into())?;
        Ok(TCom { len: Some(len), sent: 0 })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, len: usize) -> Result<TCom, PeerErr> {
        put(|| format!("{n} {{"))?;
        Ok(TCom { len: Some(len), sent: 0 })
    }
}

/// A collection that is being sent.
pub struct TCom {
    len: Option<usize>,
    sent: usize,
}

impl TCom {
    /// The announced length must be the true one.
    fn last(&self, s: &str) -> String {
        match self.len {
            Some(n) if n != self.sent => format!("{s} ({n} announced, {} sent)", self.sent),
            _ => s.into(),
        }
    }
}

macro_rules! compound {
    ($($tr:ident $m:ident $end:literal;)+) => {$(
        impl ser::$tr for TCom {
            type Ok = ();
            type Error = PeerErr;
            fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), PeerErr> {
                put(|| ",".into())?;
                self.sent += 1;
                v.serialize(TSer)
            }
            fn end(self) -> Result<(), PeerErr> {
                put(|| self.last($end))
            }
        }
    )+};
}
compound! {
    SerializeSeq serialize_element "]";
    SerializeTuple serialize_element "]";
    SerializeTupleStruct serialize_field "]";
    SerializeTupleVariant serialize_field "]";
}
macro_rules! fields {
    ($($tr:ident)+) => {$(
        impl ser::$tr for TCom {
            type Ok = ();
            type Error = PeerErr;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), PeerErr> {
                put(|| format!("field {k}"))?;
                self.sent += 1;
                v.serialize(TSer)
            }
            fn end(self) -> Result<(), PeerErr> {
                put(|| self.last("}"))
            }
        }
    )+};
}
fields!(SerializeStruct SerializeStructVariant);
impl ser::SerializeMap for TCom {
    type Ok = ();
    type Error = PeerErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), PeerErr> {
        put(|| "key".into())?;
        k.serialize(TSer)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), PeerErr> {
        put(|| "=".into())?;
        self.sent += 1;
        v.serialize(TSer)
    }
    fn end(self) -> Result<(), PeerErr> {
        put(|| self.last("}"))
    }
}

/// The calls a serializer must see for a value.
pub fn ser_trace(i: &Item, out: &mut Vec<String>) {
    match &i.val {
        Val::Null => out.push("null".into()),
        Val::Bool(b) => out.push(format!("bool {b}")),
        Val::Int(n) => out.push(format!("int {n}")),
        Val::Float(f) => out.push(fbits(*f)),
        Val::Str(s) => out.push(format!("str {s:?}")),
        Val::Seq(v) => {
            out.push("[".into());
            for i in v {
                out.push(",".into());
                ser_trace(i, out);
            }
            out.push("]".into());
        }
        Val::Map(v) => {
            out.push("{".into());
            for (k, i) in v {
                out.push("key".into());
                ser_trace(k, out);
                out.push("=".into());
                ser_trace(i, out);
            }
            out.push("}".into());
        }
        Val::Alias(_) => {}
    }
}

// ---- a visitor, through seeds ----

fn mixed(a: u64, b: u64) -> u64 {
    rt::tape::mix(a, b)
}

/// A typed read that records what it is given. The salt decides which method
/// it asks for at each node: 0 = always `deserialize_any`.
#[derive(Clone, Copy)]
pub struct Seed {
    pub salt: u64,
    /// Only the methods that accept every content.
    pub total: bool,
    /// Only the methods that accept this content; it outlives the seed.
    pub fit: Option<&'static Item>,
}

impl Seed {
    pub fn new(salt: u64, total: bool) -> Self {
        Self { salt, total, fit: None }
    }

    /// A seed whose every question fits the content.
    pub fn fitting(salt: u64, i: &Item) -> Self {
        Self { salt, total: false, fit: Some(unsafe { &*(i as *const Item) }) }
    }

    fn child(self, k: u64) -> Self {
        let fit = self.fit.and_then(|i| match &i.val {
            Val::Seq(v) => v.get(k as usize),
            Val::Map(v) => v.get(k as usize / 2).map(|(a, b)| if k % 2 == 0 { a } else { b }),
            _ => None,
        });
        self.same(k, fit)
    }

    fn same(self, k: u64, fit: Option<&'static Item>) -> Self {
        Self { salt: if self.salt == 0 { 0 } else { mixed(self.salt, k + 1).max(1) }, total: self.total, fit }
    }

    fn method(self) -> u64 {
        let n = if self.salt == 0 { 0 } else { self.salt >> 8 };
        if let Some(i) = self.fit {
            let v = asks(i);
            return v[n as usize % v.len()];
        }
        if self.total {
            [0u64, 0, 0, 1, 2, 0][(n % 6) as usize]
        } else {
            [0, 0, 0, 0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22][(n % 28) as usize]
        }
    }

    /// Which kind of variant is asked for.
    fn variant(self) -> u64 {
        let n = self.salt >> 3;
        match self.fit.map(|i| &i.val) {
            Some(Val::Map(v)) => match v.first().map(|(_, v)| &v.val) {
                Some(Val::Null) => n % 2,
                Some(Val::Seq(_)) => 1 + n % 2,
                Some(Val::Map(_)) => 1 + n % 2 * 2,
                _ => 1,
            },
            Some(_) => 0,
            None => n % 4,
        }
    }
}

/// The questions which a content answers.
fn asks(i: &Item) -> &'static [u64] {
    match &i.val {
        Val::Null => &[0, 1, 8, 9, 17, 20, 21, 2],
        Val::Bool(_) => &[0, 1, 2, 8, 9, 13, 20],
        Val::Int(0..=9) => &[0, 1, 2, 8, 9, 10, 11, 12, 14, 20, 22],
        Val::Int(_) => &[0, 1, 2, 8, 9, 10, 11, 12, 20, 22],
        Val::Float(_) => &[0, 1, 2, 8, 9, 12, 20],
        Val::Str(s) if s.chars().count() == 1 => &[0, 1, 2, 8, 9, 14, 15, 16, 18, 19, 20],
        Val::Str(_) => &[0, 1, 2, 8, 9, 15, 16, 18, 19, 20],
        Val::Seq(_) => &[0, 1, 2, 3, 3, 5, 6, 7, 15, 16, 20],
        Val::Map(v) if v.len() == 1 => &[0, 1, 2, 4, 5, 19, 19, 19, 20],
        Val::Map(_) => &[0, 1, 2, 4, 4, 5, 20],
        Val::Alias(_) => &[0],
    }
}

/// What a fitting seed must record for a value. Texts of numbers may have any
/// spelling.
pub fn fit_trace(i: &Item, s: Seed, out: &mut Vec<String>) {
    let m = s.method();
    out.push(format!("ask {m}"));
    if m == 20 {
        return out.push("null".into());
    }
    if m == 2 || (m == 1 && i.val != Val::Null) {
        return fit_trace(i, s.same(0, s.fit), out);
    }
    let seq = |v: &[Item], s: Seed, out: &mut Vec<String>| {
        out.push("[".into());
        for (k, i) in v.iter().enumerate() {
            fit_trace(i, s.child(k as u64), out);
        }
        out.push("]".into());
    };
    let map = |v: &[(Item, Item)], s: Seed, out: &mut Vec<String>| {
        out.push("{".into());
        for (k, (a, b)) in v.iter().enumerate() {
            fit_trace(a, s.child(2 * k as u64), out);
            fit_trace(b, s.child(2 * k as u64 + 1), out);
        }
        out.push("}".into());
    };
    let text = matches!(m, 8 | 9);
    match &i.val {
        Val::Null if text => out.push("str \"null\"".into()),
        Val::Null => out.push("null".into()),
        Val::Bool(b) if text => out.push(format!("str \"{b}\"")),
        Val::Bool(b) => out.push(format!("bool {b}")),
        Val::Int(_) | Val::Float(_) if text => out.push("str ".into()),
        Val::Int(n) if m == 14 => out.push(format!("str '{n}'")),
        Val::Int(n) if m == 12 => out.push(fbits(*n as f64)),
        Val::Int(n) if m == 22 => out.push(fbits(f64::from(*n as f32))),
        Val::Int(n) => out.push(format!("int {n}")),
        Val::Float(f) => out.push(fbits(*f)),
        Val::Str(t) if m == 14 => out.push(format!("str {:?}", t.chars().next().unwrap_or(' '))),
        Val::Str(_) if m == 19 => {
            out.push("enum".into());
            fit_trace(i, s.same(0, s.fit), out);
        }
        Val::Str(t) => out.push(format!("str {t:?}")),
        Val::Seq(v) => seq(v, s, out),
        Val::Map(v) if m == 19 => {
            out.push("enum".into());
            fit_trace(&v[0].0, s.child(0), out);
            match (s.variant(), &v[0].1.val) {
                (0, _) => {}
                (2, Val::Seq(w)) => seq(w, s.child(1), out),
                (3, Val::Map(w)) => map(w, s.child(1), out),
                _ => fit_trace(&v[0].1, s.child(1), out),
            }
        }
        Val::Map(v) => map(v, s, out),
        Val::Alias(_) => {}
    }
}

/// Two records of one conversation, the first one from the reference.
pub fn agree(want: &[String], got: &[String]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| w == g || (w == "str " && g.starts_with("str ")))
}

pub const FIELDS: &[&str] = &["a", "b", "key", "name"];
pub const VARIANTS: &[&str] = &["a", "b", "key", "Unit"];

impl<'de> DeserializeSeed<'de> for Seed {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let m = self.method();
        if hit(|| format!("ask {m}")) {
            return Err(de::Error::custom(FAIL));
        }
        let v = Vis(self);
        match m {
            0 => d.deserialize_any(v),
            1 => d.deserialize_option(v),
            2 => d.deserialize_newtype_struct("N", v),
            3 => d.deserialize_seq(v),
            4 => d.deserialize_map(v),
            5 => d.deserialize_struct("S", FIELDS, v),
            6 => d.deserialize_tuple(2, v),
            7 => d.deserialize_tuple_struct("T", 2, v),
            8 => d.deserialize_str(v),
            9 => d.deserialize_string(v),
            10 => d.deserialize_i64(v),
            11 => d.deserialize_u8(v),
            12 => d.deserialize_f64(v),
            13 => d.deserialize_bool(v),
            14 => d.deserialize_char(v),
            15 => d.deserialize_bytes(v),
            16 => d.deserialize_byte_buf(v),
            17 => d.deserialize_unit(v),
            18 => d.deserialize_identifier(v),
            19 => d.deserialize_enum("E", VARIANTS, v),
            20 => d.deserialize_ignored_any(v),
            21 => d.deserialize_unit_struct("Us", v),
            _ => d.deserialize_f32(v),
        }
    }
}

struct Vis(Seed);

macro_rules! visit {
    ($($f:ident $t:ty, $fmt:literal;)+) => {$(
        fn $f<E: de::Error>(self, v: $t) -> Result<(), E> {
            if hit(|| format!($fmt, v)) {
                return Err(E::custom(FAIL));
            }
            Ok(())
        }
    )+};
}

impl<'de> Visitor<'de> for Vis {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything")
    }
    visit! {
        visit_bool bool, "bool {}";
        visit_i64 i64, "int {}";
        visit_i128 i128, "int {}";
        visit_u64 u64, "int {}";
        visit_u128 u128, "int {}";
        visit_char char, "str {:?}";
        visit_str &str, "str {:?}";
        visit_bytes &[u8], "bytes {:?}";
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> {
        if hit(|| fbits(v)) {
            return Err(E::custom(FAIL));
        }
        Ok(())
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        if hit(|| "null".into()) {
            return Err(E::custom(FAIL));
        }
        Ok(())
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        if hit(|| "null".into()) {
            return Err(E::custom(FAIL));
        }
        Ok(())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.same(0, self.0.fit).deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.same(0, self.0.fit).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if hit(|| "[".into()) {
            return Err(de::Error::custom(FAIL));
        }
        let mut k = 0;
        while a.next_element_seed(self.0.child(k))?.is_some() {
            k += 1;
        }
        if hit(|| "]".into()) {
            return Err(de::Error::custom(FAIL));
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if hit(|| "{".into()) {
            return Err(de::Error::custom(FAIL));
        }
        let mut k = 0;
        loop {
            if self.0.salt & 4 != 0 {
                if a.next_entry_seed(self.0.child(k), self.0.child(k + 1))?.is_none() {
                    break;
                }
            } else {
                if a.next_key_seed(self.0.child(k))?.is_none() {
                    break;
                }
                a.next_value_seed(self.0.child(k + 1))?;
            }
            k += 2;
        }
        if hit(|| "}".into()) {
            return Err(de::Error::custom(FAIL));
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        if hit(|| "enum".into()) {
            return Err(de::Error::custom(FAIL));
        }
        // The name is the scalar itself, or the key.
        let name = match self.0.fit.map(|i| &i.val) {
            Some(Val::Str(_)) => self.0.same(0, self.0.fit),
            _ => self.0.child(0),
        };
        let ((), v) = a.variant_seed(name)?;
        match self.0.variant() {
            0 => v.unit_variant(),
            1 => v.newtype_variant_seed(self.0.child(1)),
            2 => v.tuple_variant(2, Vis(self.0.child(1))),
            _ => v.struct_variant(FIELDS, Vis(self.0.child(1))),
        }
    }
}

/// What a total seed must record for a value.
pub fn vis_trace(i: &Item, s: Seed, out: &mut Vec<String>) {
    let m = [0, 0, 0, 1, 2, 0][(s.salt >> 8) as usize % 6];
    let m = if s.salt == 0 { 0 } else { m };
    out.push(format!("ask {m}"));
    if m == 2 || (m == 1 && i.val != Val::Null) {
        return vis_trace(i, s.child(0), out);
    }
    match &i.val {
        Val::Null => out.push("null".into()),
        Val::Bool(b) => out.push(format!("bool {b}")),
        Val::Int(n) => out.push(format!("int {n}")),
        Val::Float(f) => out.push(fbits(*f)),
        Val::Str(t) => out.push(format!("str {t:?}")),
        Val::Seq(v) => {
            out.push("[".into());
            for (k, i) in v.iter().enumerate() {
                vis_trace(i, s.child(k as u64), out);
            }
            out.push("]".into());
        }
        Val::Map(v) => {
            out.push("{".into());
            for (k, (a, b)) in v.iter().enumerate() {
                vis_trace(a, s.child(2 * k as u64), out);
                vis_trace(b, s.child(2 * k as u64 + 1), out);
            }
            out.push("}".into());
        }
        Val::Alias(_) => {}
    }
}

/// The same as a type, for the entry points that take one.
pub struct Probe;

pub fn plan(salt: u64, total: bool) {
    PLAN.with(|p| p.set(salt << 1 | u64::from(total)));
}

pub fn planned() -> Seed {
    let p = PLAN.with(Cell::get);
    Seed::new(p >> 1, p & 1 == 1)
}

impl<'de> Deserialize<'de> for Probe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        planned().deserialize(d).map(|()| Self)
    }
}

// ---- a deserializer that feeds the library ----

#[derive(Clone, Copy)]
pub struct TDe<'a>(pub &'a Item, pub u64);

impl<'de> Deserializer<'de> for TDe<'_> {
    type Error = PeerErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, PeerErr> {
        put(|| "any".into())?;
        let s = self.1;
        match &self.0.val {
            Val::Null if s & 1 == 0 => v.visit_unit(),
            Val::Null => v.visit_none(),
            _ if s % 7 == 3 => v.visit_some(TDe(self.0, s / 7 * 7 + 1)),
            Val::Bool(b) => v.visit_bool(*b),
            Val::Int(n) if *n >= 0 && s & 2 == 0 => v.visit_u64(*n as u64),
            Val::Int(n) if s & 4 == 0 && i32::try_from(*n).is_ok() => v.visit_i32(*n as i32),
            Val::Int(n) => v.visit_i64(*n),
            Val::Float(f) => v.visit_f64(*f),
            Val::Str(t) if s & 2 == 0 => v.visit_str(t),
            Val::Str(t) => v.visit_string(app(|| t.clone())),
            Val::Seq(w) => v.visit_seq(TSeq(w.iter(), s)),
            Val::Map(w) => v.visit_map(TMap(w.iter(), None, s)),
            Val::Alias(a) => v.visit_str(a),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

struct TSeq<'a>(std::slice::Iter<'a, Item>, u64);

impl<'de> SeqAccess<'de> for TSeq<'_> {
    type Error = PeerErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, PeerErr> {
        put(|| "element".into())?;
        self.1 = mixed(self.1, 5);
        match self.0.next() {
            Some(i) => t.deserialize(TDe(i, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        claimed(self.1, self.0.len())
    }
}

struct TMap<'a>(std::slice::Iter<'a, (Item, Item)>, Option<&'a Item>, u64);

impl<'de> MapAccess<'de> for TMap<'_> {
    type Error = PeerErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, PeerErr> {
        put(|| "key".into())?;
        self.2 = mixed(self.2, 6);
        match self.0.next() {
            Some((k, i)) => {
                self.1 = Some(i);
                t.deserialize(TDe(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, PeerErr> {
        put(|| "value".into())?;
        self.2 = mixed(self.2, 7);
        match self.1.take() {
            Some(i) => t.deserialize(TDe(i, self.2)),
            None => Err(app(|| PeerErr { id: 1, msg: "value asked for twice".into() })),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        claimed(self.2, self.0.len())
    }
}

// ---- an output sink ----

/// Accepts text until its fuse blows.
#[derive(Default)]
pub struct Sink(pub String);

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if hit(|| format!("write {}", s.len())) {
            return Err(fmt::Error);
        }
        app(|| self.0.push_str(s));
        Ok(())
    }
}

//! Typed fields: one leaf type that becomes any primitive, in every place a
//! field can stand.
use serde::{
    de::{MapAccess, Visitor},
    ser::SerializeMap,
    Deserialize, Deserializer, Serialize, Serializer,
};
use std::{cell::Cell, collections::BTreeMap, fmt};
use yaml_peg::{
    parser::Loader,
    repr::{ArcRepr, RcRepr, Repr},
    serde::{InlineList, Optional, SerdeError, Stringify},
    Node,
};

thread_local! {
    static TYPE: Cell<usize> = const { Cell::new(0) };
}

/// The type the fields have until the next call.
pub fn set_type(t: usize) {
    TYPE.with(|c| c.set(t));
}

macro_rules! leaf {
    ($($i:literal $v:ident($t:ty)),+ $(,)?) => {
        /// A value of a typed field.
        #[derive(Clone, Debug, PartialEq)]
        pub enum Got {
            $($v($t),)+
            Unit,
            None,
        }
        pub const TYPES: &[&str] = &[$(stringify!($t)),+, "any"];
        impl<'a> Deserialize<'a> for Got {
            fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
                match TYPE.with(Cell::get) {
                    $($i => <$t>::deserialize(d).map(Got::$v),)+
                    _ => d.deserialize_any(Any),
                }
            }
        }
        impl Serialize for Got {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                match self {
                    $(Got::$v(v) => v.serialize(s),)+
                    Got::Unit => s.serialize_unit(),
                    Got::None => s.serialize_none(),
                }
            }
        }
    };
}
leaf! {
    0 I8(i8), 1 I16(i16), 2 I32(i32), 3 I64(i64), 4 I128(i128), 5 U8(u8), 6 U16(u16), 7 U32(u32), 8 U64(u64), 9 U128(u128),
    10 Isize(isize), 11 Usize(usize), 12 F32(f32), 13 F64(f64), 14 Char(char), 15 Str(String), 16 Bool(bool),
    17 Helper(Helper),
}

/// What a `Stringify` holds, and what it shows.
#[derive(Clone, Debug, PartialEq)]
pub enum Held {
    Bool(bool),
    Int(i32),
    Float(f32),
    Str(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Helper {
    pub held: Held,
    pub shown: String,
}
impl Helper {
    pub fn new(held: Held) -> Self {
        let shown = make(&held).to_string();
        Self { held, shown }
    }
}
fn make(h: &Held) -> Stringify {
    match h {
        Held::Bool(v) => Stringify::Bool(*v),
        Held::Int(v) => Stringify::Int(*v),
        Held::Float(v) => Stringify::Float(*v),
        Held::Str(v) => Stringify::Str(v.clone()),
    }
}
impl<'a> Deserialize<'a> for Helper {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        let s = Stringify::deserialize(d)?;
        let shown = s.to_string();
        let held = match s {
            Stringify::Bool(v) => Held::Bool(v),
            Stringify::Int(v) => Held::Int(v),
            Stringify::Float(v) => Held::Float(v),
            Stringify::Str(v) => Held::Str(v),
        };
        Ok(Self { held, shown })
    }
}
impl Serialize for Helper {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        make(&self.held).serialize(s)
    }
}

/// Takes whatever comes.
struct Any;
impl<'a> Visitor<'a> for Any {
    type Value = Got;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a scalar")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Got, E> {
        Ok(Got::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Got, E> {
        Ok(Got::I64(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Got, E> {
        Ok(Got::U64(v))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Got, E> {
        Ok(Got::I128(v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Got, E> {
        Ok(Got::U128(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Got, E> {
        Ok(Got::F64(v))
    }
    fn visit_char<E>(self, v: char) -> Result<Got, E> {
        Ok(Got::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Got, E> {
        Ok(Got::Str(v.into()))
    }
    fn visit_unit<E>(self) -> Result<Got, E> {
        Ok(Got::Unit)
    }
}

/// A map whose keys are the fields.
struct Keys(Vec<Got>);
impl<'a> Deserialize<'a> for Keys {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'a> Visitor<'a> for V {
            type Value = Keys;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'a>>(self, mut m: A) -> Result<Keys, A::Error> {
                let mut v = vec![];
                while let Some(k) = m.next_key()? {
                    v.push(k);
                    m.next_value::<serde::de::IgnoredAny>()?;
                }
                Ok(Keys(v))
            }
        }
        d.deserialize_map(V)
    }
}
impl Serialize for Keys {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for k in &self.0 {
            m.serialize_entry(k, "v")?;
        }
        m.end()
    }
}

#[derive(Serialize, Deserialize)]
struct St {
    v: Got,
    w: Got,
}
#[derive(Serialize, Deserialize)]
struct New(Got);
#[derive(Serialize, Deserialize)]
struct Two(Got, Got);
#[derive(Serialize, Deserialize)]
enum En {
    New(Got),
    Tup(Got, Got),
    St { v: Got, w: Got },
}
#[derive(Serialize, Deserialize)]
struct Helped {
    v: InlineList<Got>,
    w: Optional<Vec<Got>>,
}

/// Where the fields stand.
pub const PLACES: usize = 12;

fn read_as<T: serde::de::DeserializeOwned>(t: &str, via: usize) -> Result<Vec<T>, SerdeError> {
    fn nodes<R: Repr, T: serde::de::DeserializeOwned>(v: Vec<Node<R>>) -> Result<Vec<T>, SerdeError> {
        v.into_iter().map(T::deserialize).collect()
    }
    match via {
        0 => yaml_peg::serde::from_str(t),
        1 => nodes(yaml_peg::parse::<RcRepr>(t).map_err(|e| SerdeError::from(e.to_string()))?),
        2 => nodes(yaml_peg::parse::<ArcRepr>(t).map_err(|e| SerdeError::from(e.to_string()))?),
        _ => nodes(Loader::<RcRepr>::new(t.as_bytes()).parse().map_err(|e| SerdeError::from(e.to_string()))?),
    }
}

/// Reads all fields in order.
pub fn read(t: &str, place: usize, via: usize) -> Result<Vec<Got>, SerdeError> {
    Ok(match place {
        0 => read_as::<Got>(t, via)?,
        1 => read_as::<Vec<Got>>(t, via)?.concat(),
        2 => read_as::<BTreeMap<String, Got>>(t, via)?.into_iter().flat_map(BTreeMap::into_values).collect(),
        3 => read_as::<Keys>(t, via)?.into_iter().flat_map(|k| k.0).collect(),
        4 => read_as::<St>(t, via)?.into_iter().flat_map(|s| [s.v, s.w]).collect(),
        5 => read_as::<New>(t, via)?.into_iter().map(|s| s.0).collect(),
        6 => read_as::<Two>(t, via)?.into_iter().flat_map(|s| [s.0, s.1]).collect(),
        7 => read_as::<Vec<En>>(t, via)?
            .into_iter()
            .flatten()
            .flat_map(|e| match e {
                En::New(v) => vec![v],
                En::Tup(v, w) | En::St { v, w } => vec![v, w],
            })
            .collect(),
        8 => read_as::<Vec<Option<Got>>>(t, via)?.concat().into_iter().map(|v| v.unwrap_or(Got::None)).collect(),
        9 => read_as::<Vec<(Got, Vec<Got>)>>(t, via)?
            .into_iter()
            .flatten()
            .flat_map(|(v, mut w)| {
                w.insert(0, v);
                w
            })
            .collect(),
        10 => read_as::<Helped>(t, via)?
            .into_iter()
            .flat_map(|h| {
                let mut v: Vec<Got> = h.v.into_iter().collect();
                match h.w {
                    Optional::Bool(b) => v.push(Got::Bool(b)),
                    Optional::Some(w) => v.extend(w),
                }
                v
            })
            .collect(),
        _ => read_as::<BTreeMap<String, BTreeMap<String, Option<Got>>>>(t, via)?
            .into_iter()
            .flatten()
            .flat_map(|(_, m)| m.into_values())
            .map(|v| v.unwrap_or(Got::None))
            .collect(),
    })
}

/// Writes fields in the same places.
pub fn write(v: &[Got], place: usize) -> Result<String, SerdeError> {
    let a = v[0].clone();
    let b = v[v.len() - 1].clone();
    use yaml_peg::serde::to_string;
    match place {
        0 => to_string(&a),
        1 => to_string(&v.to_vec()),
        2 => to_string(&v.iter().enumerate().map(|(i, v)| (format!("k{i}"), v.clone())).collect::<BTreeMap<_, _>>()),
        3 => to_string(&Keys(v.to_vec())),
        4 => to_string(&St { v: a, w: b }),
        5 => to_string(&New(a)),
        6 => to_string(&Two(a, b)),
        7 => to_string(&vec![En::New(a.clone()), En::Tup(a.clone(), b.clone()), En::St { v: a, w: b }]),
        8 => to_string(&v.iter().cloned().map(Some).collect::<Vec<_>>()),
        9 => to_string(&vec![(a, v.to_vec())]),
        10 => to_string(&Helped { v: if v.len() == 1 { InlineList::Inline(a) } else { InlineList::List(v.to_vec()) }, w: Optional::Some(v.to_vec()) }),
        _ => to_string(&BTreeMap::from([("m", v.iter().enumerate().map(|(i, v)| (format!("k{i}"), Some(v.clone()))).collect::<BTreeMap<_, _>>())])),
    }
}

/// The fields `write` puts in a place, in the order `read` gives them.
pub fn written(v: &[Got], place: usize) -> Vec<Got> {
    let a = v[0].clone();
    let b = v[v.len() - 1].clone();
    match place {
        0 | 5 => vec![a],
        4 | 6 => vec![a, b],
        7 => vec![a.clone(), a.clone(), b.clone(), a, b],
        9 => std::iter::once(a).chain(v.iter().cloned()).collect(),
        10 => v.iter().chain(v).cloned().collect(),
        _ => v.to_vec(),
    }
}

/// What the accessors of a node say.
#[derive(Debug)]
pub struct Said {
    pub null: bool,
    pub bool: Option<bool>,
    pub int: Option<i64>,
    pub float: Option<f64>,
    pub number: Option<f64>,
    pub str: Option<String>,
    pub value: Option<String>,
}

pub fn said<R: Repr>(n: &Node<R>) -> Said {
    Said {
        null: n.is_null(),
        bool: n.as_bool().ok(),
        int: n.as_int().ok(),
        float: n.as_float().ok(),
        number: n.as_number().ok(),
        str: n.as_str().ok().map(Into::into),
        value: n.as_value().ok().map(Into::into),
    }
}

/// Nodes made from typed values.
pub fn node_of<R: Repr>(g: &Got) -> Node<R> {
    match g {
        Got::I8(v) => (*v).into(),
        Got::I16(v) => (*v).into(),
        Got::I32(v) => (*v).into(),
        Got::I64(v) => (*v).into(),
        Got::I128(v) => (*v).into(),
        Got::U8(v) => (*v).into(),
        Got::U16(v) => (*v).into(),
        Got::U32(v) => (*v).into(),
        Got::U64(v) => (*v).into(),
        Got::U128(v) => (*v).into(),
        Got::Isize(v) => (*v).into(),
        Got::Usize(v) => (*v).into(),
        Got::F32(v) => (*v).into(),
        Got::F64(v) => (*v).into(),
        Got::Char(v) => (*v).into(),
        Got::Str(v) => v.as_str().into(),
        Got::Bool(v) => (*v).into(),
        Got::Helper(h) => match &h.held {
            Held::Bool(v) => (*v).into(),
            Held::Int(v) => (*v).into(),
            Held::Float(v) => (*v).into(),
            Held::Str(v) => v.as_str().into(),
        },
        Got::Unit | Got::None => ().into(),
    }
}

/// A field read from a node made of a typed value.
pub fn convert<R: Repr>(g: &Got) -> Result<Got, SerdeError> {
    Got::deserialize(node_of::<R>(g))
}

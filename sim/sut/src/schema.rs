//! Typed reads by a described type.
use crate::peer::{fbits, hit, FAIL};
use serde::de::*;
use std::fmt;
use yaml_peg::{repr::Repr, serde::SerdeError, Node};

#[derive(Clone, Debug, PartialEq)]
pub enum Sch {
    Bool,
    Int(u8),
    F32,
    F64,
    Str,
    Char,
    Unit,
    Bytes,
    Any,
    Opt(Box<Sch>),
    Newtype(Box<Sch>),
    Seq(Box<Sch>),
    Tuple(Vec<Sch>),
    Map(Box<Sch>),
    Struct(Vec<Sch>),
    /// Variants with nothing, one value, a tuple, fields.
    EUnit,
    ENew(Box<Sch>),
    ETuple(Vec<Sch>),
    EStruct(Vec<Sch>),
}

pub const FIELDS: &[&str] = &["a", "b", "c", "d", "e", "f"];
const VARIANTS: &[&str] = &["u", "n", "t", "s"];

impl Sch {
    pub fn variant(&self) -> Option<&'static str> {
        Some(match self {
            Self::EUnit => "u",
            Self::ENew(_) => "n",
            Self::ETuple(_) => "t",
            Self::EStruct(_) => "s",
            _ => return None,
        })
    }
}

struct S<'a>(&'a Sch);

impl<'de> DeserializeSeed<'de> for S<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0 {
            Sch::Bool => d.deserialize_bool(self),
            Sch::Int(0) => d.deserialize_i8(self),
            Sch::Int(1) => d.deserialize_i16(self),
            Sch::Int(2) => d.deserialize_i32(self),
            Sch::Int(3) => d.deserialize_i64(self),
            Sch::Int(4) => d.deserialize_i128(self),
            Sch::Int(5) => d.deserialize_u8(self),
            Sch::Int(6) => d.deserialize_u16(self),
            Sch::Int(7) => d.deserialize_u32(self),
            Sch::Int(8) => d.deserialize_u64(self),
            Sch::Int(_) => d.deserialize_u128(self),
            Sch::F32 => d.deserialize_f32(self),
            Sch::F64 => d.deserialize_f64(self),
            Sch::Str => d.deserialize_string(self),
            Sch::Char => d.deserialize_char(self),
            Sch::Unit => d.deserialize_unit(self),
            Sch::Bytes => d.deserialize_bytes(self),
            Sch::Any => d.deserialize_any(self),
            Sch::Opt(_) => d.deserialize_option(self),
            Sch::Newtype(_) => d.deserialize_newtype_struct("N", self),
            Sch::Seq(_) => d.deserialize_seq(self),
            Sch::Tuple(v) => d.deserialize_tuple(v.len(), self),
            Sch::Map(_) => d.deserialize_map(self),
            Sch::Struct(v) => d.deserialize_struct("S", &FIELDS[..v.len()], self),
            Sch::EUnit | Sch::ENew(_) | Sch::ETuple(_) | Sch::EStruct(_) => d.deserialize_enum("E", VARIANTS, self),
        }
    }
}

/// One call of the visitor.
fn told<E: Error>(what: impl FnOnce() -> String) -> Result<(), E> {
    if hit(what) {
        return Err(E::custom(FAIL));
    }
    Ok(())
}

/// The name of a field or variant.
struct Name;

impl<'de> DeserializeSeed<'de> for Name {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl Visitor<'_> for Name {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<String, E> {
        told(|| format!("name {v}"))?;
        Ok(v.into())
    }
}

impl<'de> Visitor<'de> for S<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("what the type describes")
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<(), E> {
        told(|| format!("bool {v}"))
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<(), E> {
        told(|| format!("int {v}"))
    }
    fn visit_i128<E: Error>(self, v: i128) -> Result<(), E> {
        told(|| format!("int {v}"))
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<(), E> {
        told(|| format!("int {v}"))
    }
    fn visit_u128<E: Error>(self, v: u128) -> Result<(), E> {
        told(|| format!("int {v}"))
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<(), E> {
        told(|| fbits(v))
    }
    fn visit_char<E: Error>(self, v: char) -> Result<(), E> {
        told(|| format!("char {v:?}"))
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<(), E> {
        told(|| format!("str {v:?}"))
    }
    fn visit_unit<E: Error>(self) -> Result<(), E> {
        told(|| "null".into())
    }
    fn visit_none<E: Error>(self) -> Result<(), E> {
        told(|| "null".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        told(|| "some".into())?;
        match self.0 {
            Sch::Opt(s) => S(s).deserialize(d),
            _ => Ok(()),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        told(|| "newtype".into())?;
        match self.0 {
            Sch::Newtype(s) => S(s).deserialize(d),
            _ => Ok(()),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        told(|| "seq".into())?;
        match self.0 {
            Sch::Tuple(v) | Sch::ETuple(v) | Sch::Struct(v) | Sch::EStruct(v) => {
                for s in v {
                    a.next_element_seed(S(s))?;
                }
            }
            s => {
                let s = match s {
                    Sch::Seq(s) => s,
                    Sch::Bytes => &Sch::Int(5),
                    _ => &Sch::Any,
                };
                while a.next_element_seed(S(s))?.is_some() {}
            }
        }
        told(|| "end".into())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        told(|| "map".into())?;
        match self.0 {
            Sch::Struct(v) | Sch::EStruct(v) => {
                while let Some(k) = a.next_key_seed(Name)? {
                    match FIELDS.iter().position(|f| *f == k).filter(|i| *i < v.len()) {
                        Some(i) => a.next_value_seed(S(&v[i]))?,
                        None => drop(a.next_value::<IgnoredAny>()?),
                    }
                }
            }
            s => {
                let (k, v) = match s {
                    Sch::Map(v) => (&Sch::Str, &**v),
                    _ => (&Sch::Any, &Sch::Any),
                };
                while a.next_key_seed(S(k))?.is_some() {
                    a.next_value_seed(S(v))?;
                }
            }
        }
        told(|| "end".into())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        told(|| "enum".into())?;
        let (name, v) = a.variant_seed(Name)?;
        if self.0.variant() != Some(&name) {
            return Err(Error::unknown_variant(&name, VARIANTS));
        }
        match self.0 {
            Sch::ENew(s) => v.newtype_variant_seed(S(s)),
            Sch::ETuple(s) => v.tuple_variant(s.len(), self),
            Sch::EStruct(s) => v.struct_variant(&FIELDS[..s.len()], self),
            _ => v.unit_variant(),
        }
    }
}

/// Reads a node as the described type.
pub fn read<R: Repr>(n: &Node<R>, s: &Sch) -> Result<(), SerdeError> {
    S(s).deserialize(n.clone())
}

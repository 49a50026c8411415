//! Typed records of an application.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use yaml_peg::serde::{InlineList, Optional, Stringify};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Rec {
    pub name: String,
    pub id: i64,
    pub size: u64,
    pub on: bool,
    pub list: Vec<u32>,
    pub opt: Option<f64>,
    pub map: BTreeMap<String, i32>,
    pub kind: Kind,
    pub ch: char,
    pub pair: (i8, String),
    pub unit: (),
    pub wrap: Wrap,
    pub nested: Vec<Inner>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Wrap(pub u16);

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Inner {
    pub a: Option<String>,
    pub b: Vec<Vec<i16>>,
    pub k: Kind,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Kind {
    Unit,
    New(i64),
    Tup(u8, String),
    St { a: bool, b: char },
}

#[derive(Deserialize, Debug)]
pub struct Loose {
    #[serde(default)]
    pub a: Option<Stringify>,
    #[serde(default)]
    pub b: Option<InlineList<Box<Loose>>>,
    #[serde(default)]
    pub key: Option<Optional<Vec<i32>>>,
    #[serde(default)]
    pub name: Option<String>,
}

#[derive(Deserialize, Debug)]
#[serde(untagged)]
pub enum Any {
    B(bool),
    I(i64),
    U(u64),
    F(f64),
    S(String),
    L(Vec<Any>),
    M(BTreeMap<String, Any>),
    N(()),
}

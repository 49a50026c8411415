//! The reference model of document content.
use yaml_peg::{repr::Repr, Node, Yaml};

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    /// Canonical decimal value.
    Int(i64),
    Float(f64),
    Str(String),
    Seq(Vec<Item>),
    Map(Vec<(Item, Item)>),
    /// Use of an anchor defined earlier in the document.
    Alias(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Item {
    pub val: Val,
    /// Tag as written and tag as it must be read.
    pub tag: Option<(String, String)>,
    pub anchor: Option<String>,
}

impl From<Val> for Item {
    fn from(val: Val) -> Self {
        Self { val, tag: None, anchor: None }
    }
}


/// The node for a model value.
pub fn build<R: Repr>(i: &Item) -> Node<R> {
    build_as(i, &|_| None)
}

/// With other spellings of numbers.
pub fn build_as<R: Repr>(i: &Item, spell: &dyn Fn(&Val) -> Option<String>) -> Node<R> {
    let sub = |i| build_as::<R>(i, spell);
    let y: Yaml<R> = match &i.val {
        Val::Null => ().into(),
        Val::Bool(b) => (*b).into(),
        Val::Int(n) => spell(&i.val).map_or_else(|| (*n).into(), Yaml::Int),
        Val::Float(f) => spell(&i.val).map_or_else(|| (*f).into(), Yaml::Float),
        Val::Str(s) => s.into(),
        Val::Seq(v) => v.iter().map(sub).collect(),
        Val::Map(v) => v.iter().map(|(k, i)| (sub(k), sub(i))).collect(),
        Val::Alias(a) => Yaml::Alias(a.clone()),
    };
    Node::new(y, 0, i.tag.as_ref().map_or("", |t| t.1.as_str()))
}

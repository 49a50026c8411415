//! Everything the simulator calls in the library, instantiated here so that it
//! is compiled with the simulator's callbacks.
pub mod canon;
pub mod hooks;
pub mod model;
pub mod numbers;
pub mod peer;
pub mod probe;
pub mod reprs;
pub mod schema;
pub mod stream;
pub mod types;
pub use yaml_peg as yp;
use yaml_peg::{
    parser::{Anchors, Loader, PError},
    repr::{ArcRepr, RcRepr, Repr},
    *,
};

/// Runs library code: attributes its allocations, turns a panic into `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::sched::sut(f))).map_err(|p| {
        drop(p);
        rt::last_panic()
    })
}

/// The same, with the panic's own text, whatever other threads do.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::sched::sut(f))).map_err(|p| {
        let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
        drop(p);
        s.unwrap_or_default()
    })
}

pub fn parse<R: Repr>(doc: &str) -> Result<Vec<Node<R>>, PError> {
    yaml_peg::parse::<R>(doc)
}
pub fn parse_rc(doc: &str) -> Result<Vec<NodeRc>, PError> {
    parse::<RcRepr>(doc)
}
pub fn parse_arc(doc: &str) -> Result<Vec<NodeArc>, PError> {
    parse::<ArcRepr>(doc)
}
pub fn parse_cyclic_rc(doc: &str) -> Result<(Vec<NodeRc>, Vec<Anchors<RcRepr>>), PError> {
    parse_cyclic::<RcRepr>(doc)
}
pub fn parse_cyclic_arc(doc: &str) -> Result<(Vec<NodeArc>, Vec<Anchors<ArcRepr>>), PError> {
    parse_cyclic::<ArcRepr>(doc)
}
pub fn load_rc(doc: &[u8]) -> Result<Vec<NodeRc>, PError> {
    Loader::<RcRepr>::new(doc).parse()
}
pub fn load_arc(doc: &[u8]) -> Result<Vec<NodeArc>, PError> {
    Loader::<ArcRepr>::new(doc).parse()
}
/// Cyclic mode through the loader.
#[allow(clippy::type_complexity)]
pub fn load_cyclic<R: Repr>(doc: &[u8]) -> Result<(Vec<Node<R>>, Vec<Anchors<R>>), PError> {
    let mut l = Loader::<R>::new(doc).cyclic_mode(true);
    let v = l.parse()?;
    Ok((v, l.get_anchors()))
}
pub fn dump_rc(n: &[NodeRc]) -> String {
    dump(n, &[])
}
pub fn dump_arc(n: &[NodeArc]) -> String {
    dump(n, &[])
}

// Operations on shared nodes, kept out of line so that each is instrumented.
#[inline(never)]
pub fn clone_node<R: Repr>(n: &Node<R>) -> Node<R> {
    n.clone()
}
#[inline(never)]
pub fn drop_node<R: Repr>(n: Node<R>) {
    drop(n)
}
#[inline(never)]
pub fn eq_node<R: Repr>(a: &Node<R>, b: &Node<R>) -> bool {
    a == b
}
#[inline(never)]
pub fn set_yaml<R: Repr>(n: &mut Node<R>, y: Yaml<R>) {
    n.set_yaml(y)
}
#[inline(never)]
pub fn set_repr<R: Repr>(n: &mut Node<R>, y: R::Rc) {
    n.set_repr(y)
}

/// The message of an error without its place.
pub fn err_name(e: &PError) -> String {
    match e {
        PError::Mismatch => "mismatch".into(),
        PError::Terminate { name, .. } => (*name).into(),
    }
}

// Conversations with peers (see peer.rs).
use peer::*;
use ::serde::{de::DeserializeSeed, Deserialize, Serialize};
use yaml_peg::serde::SerdeError;

pub fn to_node_rc(v: &SVal) -> Result<NodeRc, SerdeError> {
    yaml_peg::serde::to_node(v)
}
pub fn to_node_arc(v: &SVal) -> Result<NodeArc, SerdeError> {
    yaml_peg::serde::to_arc_node(v)
}
pub fn to_text(v: &SVal) -> Result<String, SerdeError> {
    yaml_peg::serde::to_string(v)
}
pub fn node_into_serializer<R: Repr>(n: &Node<R>) -> Result<(), PeerErr> {
    n.serialize(TSer)
}
pub fn node_into_visitor<R: Repr>(n: &Node<R>, s: Seed) -> Result<(), SerdeError> {
    s.deserialize(n.clone())
}
pub fn text_into_visitor(t: &str) -> Result<Vec<Probe>, SerdeError> {
    yaml_peg::serde::from_str::<Probe>(t)
}
pub fn node_from_peer<R: Repr>(d: TDe) -> Result<Node<R>, PeerErr> {
    Node::<R>::deserialize(d)
}
pub fn node_to_sink<R: Repr>(n: &Node<R>, alt: bool, s: &mut Sink) -> std::fmt::Result {
    use std::fmt::Write;
    if alt {
        write!(s, "{n:#?}")
    } else {
        write!(s, "{n:?}")
    }
}
pub fn show_to_sink<T: std::fmt::Debug + std::fmt::Display>(v: &T, how: usize, s: &mut Sink) -> std::fmt::Result {
    use std::fmt::Write;
    match how {
        0 => write!(s, "{v}"),
        1 => write!(s, "{v:?}"),
        _ => write!(s, "{v:#?}"),
    }
}

/// Instantiates the generic operations here, so that they are instrumented.
pub fn instantiate() -> usize {
    fn all<R: Repr>() -> usize {
        let v: [*const (); 30] = [
            numbers::said::<R> as *const (),
            numbers::node_of::<R> as *const (),
            numbers::convert::<R> as *const (),
            hooks::node_program::<R> as *const (),
            load_keep::<R> as *const (),
            parse::<R> as *const (),
            load_cyclic::<R> as *const (),
            clone_node::<R> as *const (),
            drop_node::<R> as *const (),
            eq_node::<R> as *const (),
            set_yaml::<R> as *const (),
            set_repr::<R> as *const (),
            node_into_serializer::<R> as *const (),
            node_into_visitor::<R> as *const (),
            node_from_peer::<R> as *const (),
            node_to_sink::<R> as *const (),
            canon::canon::<R> as *const (),
            model::build::<R> as *const (),
            probe::hash_of::<R> as *const (),
            probe::accessors::<R> as *const (),
            probe::typed::<R> as *const (),
            probe::battery::<R> as *const (),
            debug_node::<R> as *const (),
            pretty_node::<R> as *const (),
            seq_of::<R> as *const (),
            map_of::<R> as *const (),
            child::<R> as *const (),
            value_of::<R> as *const (),
            join::<R> as *const (),
            schema::read::<R> as *const (),
        ];
        v.iter().map(|p| *p as usize & 1).sum()
    }
    all::<RcRepr>() + all::<ArcRepr>() + all::<reprs::Faulty>()
}

pub fn debug_node<R: Repr>(n: &Node<R>) -> String {
    format!("{n:?}")
}
pub fn pretty_node<R: Repr>(n: &Node<R>) -> String {
    format!("{n:#?}")
}
pub fn seq_of<R: Repr>(n: &Node<R>) -> Vec<Node<R>> {
    n.as_seq().unwrap_or_default()
}
pub fn map_of<R: Repr>(n: &Node<R>) -> Map<R> {
    n.as_map().unwrap_or_default()
}
pub fn child<R: Repr>(n: &Node<R>, i: usize) -> Option<Node<R>> {
    n.get_ind(Ind(i)).ok().cloned()
}
pub fn value_of<R: Repr>(n: &Node<R>, k: Node<R>) -> Option<Node<R>> {
    n.get(k).ok().cloned()
}
pub fn join<R: Repr>(v: Vec<Node<R>>, pos: u64, tag: &str) -> Node<R> {
    Node::new(v.into_iter().collect::<Yaml<R>>(), pos, tag)
}

/// Loads in resolving mode and keeps the anchor tables.
#[allow(clippy::type_complexity)]
pub fn load_keep<R: Repr>(doc: &[u8], cyclic: bool) -> Result<(Vec<Node<R>>, Vec<Anchors<R>>), PError> {
    let mut l = Loader::<R>::new(doc).cyclic_mode(cyclic);
    let v = l.parse()?;
    Ok((v, l.get_anchors()))
}

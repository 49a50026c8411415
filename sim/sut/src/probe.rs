//! Every query an application can make on what it loaded.
use crate::types::*;
use serde::Deserialize;
use std::{
    collections::BTreeMap,
    fmt::Write,
    hash::{Hash, Hasher},
};
use yaml_peg::{
    dump,
    parser::Anchors,
    repr::Repr,
    serde::{InlineList, Optional, Stringify},
    Ind, Node, Yaml,
};

/// A hasher without random keys.
pub struct Fnv(pub u64);

impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ u64::from(*c)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

pub fn hash_of<R: Repr>(n: &Node<R>) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    n.hash(&mut h);
    h.finish()
}

/// Number of nodes when every alias is expanded, up to a cap.
pub fn expanded<R: Repr>(n: &Node<R>, cap: usize) -> usize {
    match n.yaml() {
        Yaml::Seq(v) => {
            let mut k = 1;
            for n in v {
                if k >= cap {
                    return k;
                }
                k += expanded(n, cap - k);
            }
            k
        }
        Yaml::Map(m) => {
            let mut k = 1;
            for (a, b) in m {
                if k >= cap {
                    return k;
                }
                k += expanded(a, cap - k);
                if k >= cap {
                    return k;
                }
                k += expanded(b, cap - k);
            }
            k
        }
        _ => 1,
    }
}

pub const CAP: usize = 5000;

fn pm(p: u64) -> String {
    format!("!{p}")
}

fn walk<R: Repr>(n: &Node<R>, s: &mut String, left: &mut usize, anchors: &Anchors<R>) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    write!(s, "@{} {} ", n.pos(), n.tag()).unwrap();
    write!(
        s,
        "{} {:?} {:?} {:?} {:?} {:?} {:?}",
        n.is_null(),
        n.as_bool().map_err(pm),
        n.as_int().map_err(pm),
        n.as_float().map_err(pm).map(f64::to_bits),
        n.as_number().map_err(pm).map(f64::to_bits),
        n.as_str().map_err(pm),
        n.as_value().map_err(pm)
    )
    .unwrap();
    write!(s, " {:?}", n.as_seq().map(|v| v.len()).map_err(pm)).unwrap();
    write!(s, " {:?}", n.as_map().map(|v| v.len()).map_err(pm)).unwrap();
    write!(s, " {:?}", n.as_anchor(anchors).map(Node::pos).map_err(pm)).unwrap();
    write!(s, " {:?}", n.get("a").map(Node::pos).map_err(pm)).unwrap();
    write!(s, " {:?}", n.get(1).map(Node::pos).map_err(pm)).unwrap();
    write!(s, " {:?}", n.get_default("key", 7, Node::as_int).map_err(pm)).unwrap();
    write!(s, " {:?}\n", n.get_ind(Ind(1)).map(Node::pos).map_err(pm)).unwrap();
    match n.yaml() {
        Yaml::Seq(v) => {
            for (i, n) in v.iter().enumerate() {
                if i < 8 {
                    write!(s, "[{i}]").unwrap();
                }
                walk(n, s, left, anchors);
            }
        }
        Yaml::Map(m) => {
            for (k, v) in m {
                walk(k, s, left, anchors);
                // A map finds every key it lists.
                match m.get(k) {
                    Some(w) if std::ptr::eq(v, w) => {}
                    Some(_) => s.push_str("OTHER-VALUE-FOR-LISTED-KEY"),
                    None => s.push_str("LISTED-KEY-NOT-FOUND"),
                }
                walk(v, s, left, anchors);
            }
        }
        _ => {}
    }
}

/// All accessors on all nodes.
pub fn accessors<R: Repr>(n: &Node<R>, anchors: &Anchors<R>) -> String {
    let mut s = String::new();
    let mut left = 400;
    walk(n, &mut s, &mut left, anchors);
    s
}

fn show<T: std::fmt::Debug>(s: &mut String, what: &str, r: Result<T, yaml_peg::serde::SerdeError>) {
    match r {
        Ok(v) => writeln!(s, "{what} = {v:?}").unwrap(),
        Err(e) => writeln!(s, "{what} ! {} @{} {e}", e.msg, e.pos).unwrap(),
    }
}

macro_rules! family {
    ($($t:ty),+ $(,)?) => {
        pub const FAMILY: usize = [$(stringify!($t)),+].len();
        /// Typed read of a node as the `i`-th type.
        pub fn typed<R: Repr>(n: &Node<R>, i: usize) -> String {
            let mut s = String::new();
            let mut k = 0;
            $(
                if k == i {
                    show(&mut s, stringify!($t), <$t>::deserialize(n.clone()));
                }
                k += 1;
            )+
            let _ = k;
            s
        }
        /// Typed read of a text as the `i`-th type.
        pub fn typed_str(t: &str, i: usize) -> String {
            let mut s = String::new();
            let mut k = 0;
            $(
                if k == i {
                    show(&mut s, stringify!($t), yaml_peg::serde::from_str::<$t>(t));
                }
                k += 1;
            )+
            let _ = k;
            s
        }
    };
}
family! {
    Rec, Loose, Any, Kind, Inner, BTreeMap<String, Any>, Vec<i32>, Vec<Any>, Vec<Option<String>>, (u8, i64, String),
    Stringify, InlineList<i16>, Optional<Vec<u8>>, BTreeMap<i64, Vec<bool>>, String, char, bool, i8, i16, i32, i64, i128, u8, u16, u32,
    u64, u128, f32, f64, (), Option<u32>, serde::de::IgnoredAny, Vec<Kind>, BTreeMap<char, f64>, Wrap,
}

/// All other operations on a node. `pick` selects the typed reads.
pub fn battery<R: Repr>(n: &Node<R>, anchors: &Anchors<R>, pick: &[usize]) -> String {
    let mut s = accessors(n, anchors);
    let size = expanded(n, CAP);
    if size >= CAP {
        s.push_str("expanded too far\n");
        return s;
    }
    writeln!(s, "hash {:x}", hash_of(n)).unwrap();
    let c = n.clone();
    writeln!(s, "eq {}", c == *n).unwrap();
    drop(c);
    writeln!(s, "debug {n:?}").unwrap();
    let one = [n.clone()];
    writeln!(s, "dump {}", dump(&one, &[])).unwrap();
    if anchors.values().all(|v| expanded(v, CAP) < CAP) {
        let a = [anchors.clone()];
        writeln!(s, "dump& {}", dump(&one, &a)).unwrap();
    }
    for i in pick {
        s += &typed(n, i % FAMILY);
    }
    // Node to node.
    match Node::<yaml_peg::repr::RcRepr>::deserialize(n.clone()) {
        Ok(m) => writeln!(s, "node {m:?}").unwrap(),
        Err(e) => writeln!(s, "node ! {e}").unwrap(),
    }
    match yaml_peg::serde::to_string(n) {
        Ok(m) => writeln!(s, "text {m}").unwrap(),
        Err(e) => writeln!(s, "text ! {e}").unwrap(),
    }
    s
}

/// Typed read of a text whose only bad value is a string in place of the
/// leaf. Gives the position of the error.
pub fn typed_pos(t: &str, leaf: usize, shape: usize) -> Result<(), u64> {
    fn go<T: serde::de::DeserializeOwned>(t: &str, shape: usize) -> Result<(), u64> {
        use yaml_peg::serde::from_str;
        match shape {
            0 => from_str::<Vec<T>>(t).map(drop),
            1 => from_str::<BTreeMap<String, T>>(t).map(drop),
            2 => from_str::<BTreeMap<String, Vec<T>>>(t).map(drop),
            3 => from_str::<Vec<(T, T)>>(t).map(drop),
            4 => from_str::<Vec<Option<T>>>(t).map(drop),
            _ => from_str::<Vec<BTreeMap<String, Option<T>>>>(t).map(drop),
        }
        .map_err(|e| e.pos)
    }
    match leaf {
        0 => go::<bool>(t, shape),
        1 => go::<i32>(t, shape),
        2 => go::<u64>(t, shape),
        3 => go::<f64>(t, shape),
        4 => go::<f32>(t, shape),
        5 => go::<i8>(t, shape),
        6 => go::<u128>(t, shape),
        7 => go::<char>(t, shape),
        _ => go::<()>(t, shape),
    }
}
pub const LEAVES: usize = 9;
pub const SHAPES: usize = 6;

/// Places that failing accessors report, other than the node's own.
pub fn wrong_places<R: Repr>(n: &Node<R>) -> Option<String> {
    let e = [
        ("as_bool", n.as_bool().err()),
        ("as_int", n.as_int().err()),
        ("as_float", n.as_float().err()),
        ("as_number", n.as_number().err()),
        ("as_str", n.as_str().err()),
        ("as_value", n.as_value().err()),
        ("as_seq", n.as_seq().err()),
        ("as_map", n.as_map().err()),
        ("as_anchor", n.as_anchor(&Default::default()).err()),
        ("get", n.get("no such key").err()),
        ("get of a number", n.get(987_654).err()),
        ("get_default", if matches!(n.yaml(), Yaml::Map(_)) { None } else { n.get_default("no such key", 1, Node::as_int).err() }),
        ("get_ind", n.get_ind(Ind(99_999)).err()),
    ];
    if let Some(w) = e.iter().find(|(_, p)| p.is_some_and(|p| p != n.pos())).map(|(w, p)| format!("{w} says {p:?}")) {
        return Some(w);
    }
    // What a value refuses is refused at its own place.
    let Yaml::Map(m) = n.yaml() else { return None };
    m.iter().take(6).find_map(|(k, v)| {
        let refuse = |v: &Node<R>| if matches!(v.yaml(), Yaml::Seq(_)) { v.as_map().map(|_| ()) } else { v.as_seq().map(|_| ()) };
        let p = n.get_default(k.clone(), (), refuse).err();
        (p != Some(v.pos())).then(|| format!("get_default says {p:?} for a value at {}", v.pos()))
    })
}

//! Application code that the node interface calls: conversions, iterators,
//! tags, factories and hashers that panic at a drawn call, and a program of
//! node operations around them.
use crate::{
    canon::canon,
    model::{build, Item, Val},
};
use rt::sched::app;
use std::{
    cell::Cell,
    fmt,
    hash::{Hash, Hasher},
};
use serde::Deserialize;
use yaml_peg::{
    repr::Repr,
    serde::{InlineList, Optional, Stringify},
    Node, Yaml,
};

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}

pub const PANIC: &str = "simulated failure in application code";

/// Panics in the `n`-th call from now; 0 = never.
pub fn arm(n: u64) {
    LEFT.with(|l| l.set(n));
    FIRED.with(|f| f.set(false));
}

pub fn fired() -> bool {
    LEFT.with(|l| l.set(0));
    FIRED.with(Cell::get)
}

fn hit() {
    let n = LEFT.with(Cell::get);
    LEFT.with(|l| l.set(n.saturating_sub(1)));
    if n == 1 {
        FIRED.with(|f| f.set(true));
        app(|| std::panic::panic_any(PANIC));
    }
}

struct Into1<'a>(&'a Item);

impl<R: Repr> From<Into1<'_>> for Yaml<R> {
    fn from(i: Into1) -> Self {
        let y = build::<R>(i.0).yaml().clone();
        hit();
        y
    }
}

struct Tag<'a>(&'a str);

impl fmt::Display for Tag<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)?;
        hit();
        f.write_str(self.0)
    }
}

#[derive(Default)]
struct Mixer(u64);

impl Hasher for Mixer {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        hit();
        for c in b {
            self.0 = (self.0 ^ u64::from(*c)).wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// What an optional field holds.
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq)]
struct Part(Vec<Stringify>);

impl Default for Part {
    fn default() -> Self {
        hit();
        Self(vec![Stringify::Str("default".into())])
    }
}

pub const KINDS: usize = 11;

/// One way of calling the node interface with code of the application.
pub fn node_program<R: Repr>(kind: usize, i: &Item, tag: &str) -> String {
    let made = |r: &Item| {
        hit();
        build::<R>(r)
    };
    match kind {
        // Collecting from an iterator.
        0 => match &i.val {
            Val::Seq(v) => canon(&v.iter().map(made).collect::<Node<R>>(), true, true),
            Val::Map(v) => canon(&v.iter().map(|(k, v)| (made(k), made(v))).collect::<Node<R>>(), true, true),
            _ => canon(&std::iter::repeat_with(|| made(i)).take(5).collect::<Node<R>>(), true, true),
        },
        1 => canon(&Node::<R>::new(Into1(i), 3, Tag(tag)), true, true),
        2 => {
            let r = build::<R>(i).clone_yaml();
            canon(&Node::<R>::new_repr(r, 3, Tag(tag)), true, true)
        }
        // An update that panics leaves the node as it was.
        3 => {
            let old = build::<R>(&Val::Str(tag.into()).into());
            let mut n = old.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.set_yaml(Into1(i))));
            match r {
                Ok(()) => canon(&n, true, true),
                Err(_) if n == old => "unchanged".into(),
                Err(_) => format!("changed by a failed update: {}", canon(&n, true, true)),
            }
        }
        4 => {
            let n = build::<R>(i);
            let mut h = Mixer::default();
            n.hash(&mut h);
            format!("{:x}", h.finish())
        }
        // Lookups with a key made by the application.
        5 => {
            let n = build::<R>(i);
            let k = Val::Str(tag.into()).into();
            let r = n.get(Into1(&k)).map(|n| canon(n, true, true));
            format!("{r:?}")
        }
        6 => {
            let n = build::<R>(i);
            let k: Item = match &i.val {
                Val::Map(v) if !v.is_empty() => v[v.len() / 2].0.clone(),
                _ => Val::Str(tag.into()).into(),
            };
            let r = n.get_default(Into1(&k), vec![build::<R>(i)], |n| {
                let v = vec![n.clone(), n.clone()];
                hit();
                Ok(v)
            });
            r.map_or_else(|p| p.to_string(), |v| v.iter().map(|n| canon(n, true, true)).collect())
        }
        7 => {
            let n = build::<R>(i);
            let k: Item = Val::Str(tag.into()).into();
            canon(&n[Into1(&k)], true, true)
        }
        // The helper types and their callbacks.
        8 => {
            let n = build::<R>(i);
            let Ok(o) = Optional::<Part>::deserialize(n) else { return "other".into() };
            let mut s = vec![];
            o.ok(|p| {
                s.push(format!("{p:?}"));
                hit();
            });
            let other = Part(vec![Stringify::Bool(true)]);
            o.ok_instead(
                |p| {
                    hit();
                    s.push(format!("{p:?}"));
                },
                &other,
            );
            let named = |p: &Part| {
                let t = format!("{p:?}");
                hit();
                t
            };
            s.push(o.ok_or(named, || tag.to_string()));
            s.push(o.ok_or_instead(named, &other, || {
                hit();
                tag.to_string()
            }));
            s.push(yaml_peg::serde::to_string(&o).unwrap_or_default());
            s.concat()
        }
        9 => {
            let n = build::<R>(i);
            let Ok(l) = InlineList::<Stringify>::deserialize(n) else { return "other".into() };
            let mut s = format!("{} {} {}", l.len(), l.is_empty(), l.is_single());
            for e in l.iter() {
                s += &e.to_string();
                hit();
            }
            for (k, e) in l.into_iter().enumerate() {
                s += &e.to_string();
                hit();
                if k > 1 {
                    break;
                }
            }
            s
        }
        // The parts outlive the whole.
        _ => {
            let n = build::<R>(i);
            let parts: Vec<Node<R>> = match n.yaml() {
                Yaml::Seq(v) => v.clone(),
                Yaml::Map(m) => m.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect(),
                _ => vec![n.clone(), n.clone()],
            };
            drop(n);
            hit();
            parts.iter().map(|n| canon(n, true, true)).collect()
        }
    }
}

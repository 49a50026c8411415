//! Canonical text of a node, for comparison with the reference model.
use std::fmt::Write;
use yaml_peg::{repr::Repr, Node, Yaml};

fn fnum(f: f64) -> String {
    if f.is_nan() {
        "nan".into()
    } else {
        format!("{:016x}", f.to_bits())
    }
}

const CAP: usize = 1 << 20;

fn walk<R: Repr>(n: &Node<R>, tags: bool, pos: bool, top: bool, s: &mut String) {
    if s.len() > CAP {
        return;
    }
    let _ = top;
    if pos {
        write!(s, "@{} ", n.pos()).unwrap();
    }
    let t = n.tag();
    if tags && !t.is_empty() {
        // Default tags of the core schema are not written out.
        let default = match n.yaml() {
            Yaml::Null => "null",
            Yaml::Bool(_) => "bool",
            Yaml::Int(_) => "int",
            Yaml::Float(_) => "float",
            Yaml::Str(_) => "str",
            Yaml::Seq(_) => "seq",
            Yaml::Map(_) => "map",
            Yaml::Alias(_) => "",
        };
        if t.strip_prefix("tag:yaml.org,2002:") != Some(default) {
            write!(s, "!{t} ").unwrap();
        }
    }
    match n.yaml() {
        Yaml::Null => s.push_str("null"),
        Yaml::Bool(b) => write!(s, "bool {b}").unwrap(),
        Yaml::Int(t) => match n.as_int() {
            Ok(i) => write!(s, "int {i}").unwrap(),
            Err(_) => write!(s, "int? {t}").unwrap(),
        },
        Yaml::Float(t) => match n.as_float() {
            Ok(f) => write!(s, "float {}", fnum(f)).unwrap(),
            Err(_) => write!(s, "float? {t}").unwrap(),
        },
        Yaml::Str(t) => write!(s, "str {t:?}").unwrap(),
        Yaml::Seq(v) => {
            s.push('[');
            for n in v {
                walk(n, tags, pos, false, s);
                s.push(',');
            }
            s.push(']');
        }
        Yaml::Map(m) => {
            s.push('{');
            for (k, v) in m {
                walk(k, tags, pos, false, s);
                s.push('=');
                walk(v, tags, pos, false, s);
                s.push(',');
            }
            s.push('}');
        }
        Yaml::Alias(a) => write!(s, "*{a}").unwrap(),
    }
}

pub fn canon<R: Repr>(n: &Node<R>, tags: bool, pos: bool) -> String {
    let mut s = String::new();
    walk(n, tags, pos, true, &mut s);
    s
}

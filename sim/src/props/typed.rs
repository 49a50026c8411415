//! Types that are described, values that fit them and values that do not.
use crate::gen::{Item, Val};
use rt::tape::{chance, choose, range, span};
use sut::{
    peer::fbits,
    schema::{Sch, FIELDS},
};

pub fn schema(depth: usize) -> Sch {
    span(|| {
        let some = |least: usize| -> Vec<Sch> { (0..range(least, 3)).map(|_| schema(depth - 1)).collect() };
        let one = || Box::new(schema(depth - 1));
        match choose(if depth == 0 { 10 } else { 24 }) {
            0 => Sch::Bool,
            1 => Sch::Int(choose(10) as u8),
            2 => Sch::Str,
            3 => Sch::F32,
            4 => Sch::F64,
            5 => Sch::Char,
            6 => Sch::Unit,
            7 => Sch::Bytes,
            8 => Sch::Any,
            9 => Sch::EUnit,
            10 => Sch::Opt(one()),
            11 => Sch::Newtype(one()),
            12..=14 => Sch::Seq(one()),
            15 => Sch::Tuple(some(1)),
            16 | 17 => Sch::Map(one()),
            18..=20 => Sch::Struct(some(1)),
            21 => Sch::ENew(one()),
            22 => Sch::ETuple(some(1)),
            _ => Sch::EStruct(some(1)),
        }
    })
}

pub fn fields(s: &[Sch]) -> Val {
    Val::Map(s.iter().zip(FIELDS).map(|(s, f)| (Val::Str(f.to_string()).into(), fitting(s))).collect())
}

pub fn one_of(mut v: Vec<Val>) -> Val {
    v.swap_remove(choose(v.len()))
}

/// A value that can be read as the type.
pub fn fitting(s: &Sch) -> Item {
    let variant = |v: Val| Val::Map(vec![(Val::Str(s.variant().unwrap_or("?").into()).into(), v.into())]);
    match s {
        Sch::Bool => Val::Bool(chance(1, 2)),
        Sch::Int(_) => Val::Int(range(0, 99) as i64),
        Sch::F32 | Sch::F64 => one_of(vec![Val::Float(1.5), Val::Int(3), Val::Float(0.25)]),
        Sch::Str => one_of(vec![Val::Str("text".into()), Val::Int(7), Val::Null, Val::Bool(true)]),
        Sch::Char => one_of(vec![Val::Str("c".into()), Val::Str("é".into())]),
        Sch::Unit => Val::Null,
        Sch::Bytes => one_of(vec![Val::Str("bytes".into()), Val::Seq(vec![Val::Int(1).into(), Val::Int(2).into()])]),
        Sch::Any => one_of(vec![Val::Int(1), Val::Null, Val::Str("any".into()), Val::Seq(vec![Val::Null.into()])]),
        Sch::Opt(s) => return if chance(1, 4) { Val::Null.into() } else { fitting(s) },
        Sch::Newtype(s) => return fitting(s),
        Sch::Seq(s) => Val::Seq((0..range(1, 3)).map(|_| fitting(s)).collect()),
        Sch::Tuple(v) => Val::Seq(v.iter().map(fitting).collect()),
        Sch::Map(s) => Val::Map((0..range(1, 3)).map(|k| (Val::Str(format!("k{k}")).into(), fitting(s))).collect()),
        Sch::Struct(v) => {
            if chance(1, 4) {
                Val::Seq(v.iter().map(fitting).collect())
            } else {
                fields(v)
            }
        }
        Sch::EUnit => {
            if chance(1, 2) {
                variant(Val::Null)
            } else {
                Val::Str("u".into())
            }
        }
        Sch::ENew(s) => variant(fitting(s).val),
        Sch::ETuple(v) => variant(Val::Seq(v.iter().map(fitting).collect())),
        Sch::EStruct(v) => variant(fields(v)),
    }
    .into()
}

/// Values that cannot be read as the type, because of their kind.
pub fn misfits(s: &Sch, out: &mut Vec<Val>) {
    let seq = || Val::Seq(vec![Val::Int(1).into()]);
    let map = || Val::Map(vec![(Val::Str("zz".into()).into(), Val::Int(1).into())]);
    let text = || Val::Str("zzz".into());
    match s {
        Sch::Bool => out.extend([Val::Null, Val::Int(1), Val::Float(0.5), text(), Val::Str("true".into()), seq(), map()]),
        Sch::Int(_) => out.extend([Val::Null, Val::Bool(true), Val::Float(0.5), text(), Val::Str("12".into()), seq(), map()]),
        Sch::F32 | Sch::F64 => out.extend([Val::Null, Val::Bool(true), text(), Val::Str("1.5".into()), seq(), map()]),
        Sch::Str => out.extend([seq(), map(), Val::Seq(vec![])]),
        Sch::Char => out.extend([Val::Null, Val::Bool(true), Val::Int(42), Val::Float(0.5), text(), Val::Str("".into()), seq(), map()]),
        Sch::Unit => out.extend([Val::Bool(false), Val::Int(0), Val::Float(0.5), text(), Val::Str("null".into()), seq(), map()]),
        Sch::Bytes => out.extend([Val::Null, Val::Bool(false), Val::Int(0), Val::Float(0.5), map()]),
        Sch::Any => {}
        Sch::Opt(s) => {
            misfits(s, out);
            out.retain(|v| *v != Val::Null);
        }
        Sch::Newtype(s) => misfits(s, out),
        Sch::Seq(_) | Sch::Tuple(_) => out.extend([Val::Null, Val::Bool(false), Val::Int(0), Val::Float(0.5), text(), map(), Val::Map(vec![])]),
        Sch::Map(_) => out.extend([Val::Null, Val::Bool(false), Val::Int(0), Val::Float(0.5), text(), seq(), Val::Seq(vec![])]),
        Sch::Struct(_) => out.extend([Val::Null, Val::Bool(false), Val::Int(0), Val::Float(0.5), text()]),
        Sch::EUnit | Sch::ENew(_) | Sch::ETuple(_) | Sch::EStruct(_) => out.extend([
            Val::Null,
            Val::Bool(false),
            Val::Int(0),
            Val::Float(0.5),
            seq(),
            Val::Map(vec![]),
            Val::Map(vec![(Val::Str("u".into()).into(), Val::Null.into()), (Val::Str("n".into()).into(), Val::Null.into())]),
        ]),
    }
}

/// What is wrong where: the way to an item (2k for the k-th key, 2k + 1 for
/// its value or the k-th element) and the values that do not fit there.
pub type Spot = (Vec<usize>, Vec<Val>);

pub fn spots(s: &Sch, i: &Item, way: &mut Vec<usize>, out: &mut Vec<Spot>) {
    let mut no = vec![];
    misfits(s, &mut no);
    if !matches!(s, Sch::Opt(_) | Sch::Newtype(_)) {
        // Passed on to what is inside otherwise.
        out.push((way.clone(), no));
    } else if *i == Item::from(Val::Null) && matches!(s, Sch::Opt(_)) {
        out.push((way.clone(), no));
        return;
    }
    let names = || vec![Val::Null, Val::Bool(true), Val::Int(3), Val::Float(0.5), Val::Seq(vec![Val::Null.into()])];
    let mut down = |k: usize, s: &Sch, i: &Item| {
        way.push(k);
        spots(s, i, way, out);
        way.pop();
    };
    match (s, &i.val) {
        (Sch::Newtype(s), _) => spots(s, i, way, out),
        (Sch::Opt(s), _) => {
            let n = out.len();
            spots(s, i, way, out);
            for (w, no) in &mut out[n..] {
                if w == way {
                    no.retain(|v| *v != Val::Null);
                }
            }
        }
        (Sch::Bytes, Val::Seq(v)) => v.iter().enumerate().for_each(|(k, i)| down(2 * k + 1, &Sch::Int(5), i)),
        (Sch::Seq(s), Val::Seq(v)) => v.iter().enumerate().for_each(|(k, i)| down(2 * k + 1, s, i)),
        (Sch::Tuple(s) | Sch::Struct(s), Val::Seq(v)) => v.iter().zip(s).enumerate().for_each(|(k, (i, s))| down(2 * k + 1, s, i)),
        (Sch::Map(s), Val::Map(m)) => {
            for (k, (a, b)) in m.iter().enumerate() {
                down(2 * k, &Sch::Str, a);
                down(2 * k + 1, s, b);
            }
        }
        (Sch::Struct(s), Val::Map(m)) => {
            for (k, ((_, b), s)) in m.iter().zip(s).enumerate() {
                way.push(2 * k + 1);
                spots(s, b, way, out);
                way.pop();
                way.push(2 * k);
                out.push((way.clone(), names()));
                way.pop();
            }
        }
        (Sch::EUnit | Sch::ENew(_) | Sch::ETuple(_) | Sch::EStruct(_), Val::Map(m)) => {
            way.push(0);
            out.push((way.clone(), names()));
            way.pop();
            let i = &m[0].1;
            way.push(1);
            match s {
                Sch::EUnit => spots(&Sch::Unit, i, way, out),
                Sch::ENew(s) => spots(s, i, way, out),
                Sch::ETuple(s) => spots(&Sch::Tuple(s.clone()), i, way, out),
                Sch::EStruct(s) => {
                    // Only by names.
                    spots(&Sch::Struct(s.clone()), i, way, out);
                    if let Some((_, no)) = out.iter_mut().find(|(w, _)| w == way) {
                        no.push(Val::Seq(vec![Val::Int(1).into()]));
                    }
                }
                _ => {}
            }
            way.pop();
        }
        _ => {}
    }
}

/// What the visitors of such a read are told, in order.
pub fn told(s: &Sch, i: &Item, out: &mut Vec<String>) {
    let put = |out: &mut Vec<String>, t: &str| out.push(t.into());
    let list = |s: &mut dyn Iterator<Item = (&Sch, &Item)>, out: &mut Vec<String>| {
        put(out, "seq");
        s.for_each(|(s, i)| told(s, i, out));
        put(out, "end");
    };
    let named = |s: &[Sch], v: &[(Item, Item)], out: &mut Vec<String>| {
        put(out, "map");
        for ((_, i), (s, f)) in v.iter().zip(s.iter().zip(FIELDS)) {
            out.push(format!("name {f}"));
            told(s, i, out);
        }
        put(out, "end");
    };
    match (s, &i.val) {
        (Sch::Newtype(s), _) => {
            put(out, "newtype");
            told(s, i, out);
        }
        (_, Val::Null) if !matches!(s, Sch::Str) => put(out, "null"),
        (Sch::Opt(s), _) => {
            put(out, "some");
            told(s, i, out);
        }
        (Sch::EUnit, Val::Str(_)) => out.extend(["enum".into(), "name u".into()]),
        (Sch::EUnit | Sch::ENew(_) | Sch::ETuple(_) | Sch::EStruct(_), Val::Map(v)) => {
            out.extend(["enum".into(), format!("name {}", s.variant().unwrap_or("?"))]);
            match (s, &v[0].1.val) {
                (Sch::ENew(s), _) => told(s, &v[0].1, out),
                (Sch::ETuple(s), Val::Seq(v)) => list(&mut s.iter().zip(v), out),
                (Sch::EStruct(s), Val::Map(v)) => named(s, v, out),
                _ => {}
            }
        }
        (_, Val::Bool(b)) if !matches!(s, Sch::Str) => out.push(format!("bool {b}")),
        (Sch::F32 | Sch::F64, Val::Int(n)) => out.push(fbits(*n as f64)),
        (Sch::Str, Val::Int(n)) => out.push(format!("str {:?}", n.to_string())),
        (Sch::Str, Val::Bool(b)) => out.push(format!("str {:?}", b.to_string())),
        (Sch::Str, Val::Null) => out.push("str \"null\"".into()),
        (_, Val::Int(n)) => out.push(format!("int {n}")),
        (_, Val::Float(n)) => out.push(fbits(*n)),
        (Sch::Char, Val::Str(t)) => out.push(format!("char {:?}", t.chars().next().unwrap_or_default())),
        (_, Val::Str(t)) => out.push(format!("str {t:?}")),
        (Sch::Tuple(s) | Sch::Struct(s), Val::Seq(v)) => list(&mut s.iter().zip(v), out),
        (Sch::Seq(s), Val::Seq(v)) => list(&mut v.iter().map(|i| (&**s, i)), out),
        (Sch::Bytes, Val::Seq(v)) => list(&mut v.iter().map(|i| (&Sch::Int(5), i)), out),
        (_, Val::Seq(v)) => list(&mut v.iter().map(|i| (&Sch::Any, i)), out),
        (Sch::Struct(s), Val::Map(v)) => named(s, v, out),
        (s, Val::Map(v)) => {
            let (a, b) = match s {
                Sch::Map(s) => (&Sch::Str, &**s),
                _ => (&Sch::Any, &Sch::Any),
            };
            put(out, "map");
            for (k, i) in v {
                told(a, k, out);
                told(b, i, out);
            }
            put(out, "end");
        }
        (_, Val::Alias(_) | Val::Bool(_) | Val::Null) => {}
    }
}

/// The value at the end of a way.
pub fn at<'a>(i: &'a mut Item, way: &[usize]) -> &'a mut Val {
    match way {
        [] => &mut i.val,
        [k, rest @ ..] => match &mut i.val {
            Val::Seq(v) => at(&mut v[k / 2], rest),
            Val::Map(v) => {
                let (a, b) = &mut v[k / 2];
                at(if k % 2 == 0 { a } else { b }, rest)
            }
            _ => unreachable!(),
        },
    }
}

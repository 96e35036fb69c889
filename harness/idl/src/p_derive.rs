//! D01 to D03: Rust enums that derive the indexer and union forms, compiled and run.
use crate::crates::{self, Answer, Built, Rt, Runner};
use crate::model::{DArm, Derived, Enc, Mark, Model, Named, V, W};
use crate::modes::{self, Mode};
use crate::p_run::{rust_name, work_dir};
use mon::{Ctx, Rng, Spec, hash, hexs};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write;

// ---------------------------------------------------------------- programs

struct Prog {
    m: Model,
    code: String,
    /// What is decoded: the derived types and what they are nested in.
    roots: Vec<W>,
    /// Which kind of type the property is about.
    union: Option<bool>,
}

fn prim(r: &mut Rng) -> W {
    match r.below(14) {
        0 => W::I8,
        1 => W::U8,
        2 => W::I16,
        3 => W::U16,
        4 | 5 => W::I32,
        6 | 7 => W::U32,
        8 => W::I64,
        9 => W::U64,
        10 => W::F32,
        11 => W::F64,
        12 => W::Bool,
        _ => W::Str(usize::MAX),
    }
}

/// The type of a variant's field. `me`: the enum itself, where its size stays finite.
fn field(r: &mut Rng, ready: &[usize], me: Option<usize>, depth: usize) -> W {
    match r.below(if depth > 2 { 8 } else { 18 }) {
        0..=5 => prim(r),
        6 => W::Wrap,
        7 => {
            if r.one_in(4) {
                W::Unit
            } else {
                W::Str(usize::MAX)
            }
        }
        8 => W::Opt(Box::new(field(r, ready, me, depth + 1))),
        9 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 7, 31, 32]);
            W::Fix(Box::new(field(r, ready, None, 3)), n)
        }
        10 => {
            let n = 1 + r.usize(4);
            W::Tup((0..n).map(|_| field(r, ready, None, depth + 1)).collect())
        }
        11 if me.is_some() => W::Opt(Box::new(W::N(me.unwrap()))),
        12 if me.is_some() => W::Var(Box::new(W::N(me.unwrap())), usize::MAX),
        13 => W::Var(Box::new(field(r, ready, me, depth + 1)), usize::MAX),
        _ if !ready.is_empty() => W::N(*r.pick(ready)),
        _ => prim(r),
    }
}

const ODD: &[&str] = &[
    "A", "B", "S", "D", "T", "Ok", "Err", "Some", "None", "Value", "Error", "Default", "Self_", "index", "lower", "_X", "X_1", "ÄÖ", "Seq", "Option", "Vec", "value", "seq",
    "ser", "variant", "r0", "a0", "XdrIndexer", "String", "Z9", "camelCase", "UPPER", "I32", "r#type", "r#match", "r#fn", "r#async", "r#true", "r#impl", "r#gen", "Type", "type_", "fn_",
];

/// A name out of the code under test, as Rust writes it.
fn word(r: &mut Rng) -> Option<String> {
    let w = r.word_name()?;
    match w.as_str() {
        "self" | "Self" | "super" | "crate" => None,
        // Also those that later editions keep.
        _ if crate::names::KEYWORDS.contains(&w.as_str()) => Some(format!("r#{w}")),
        _ => Some(w),
    }
}

fn variant(r: &mut Rng, here: &mut BTreeSet<String>) -> String {
    loop {
        let s = if r.one_in(16) {
            word(r).unwrap_or_else(|| "Word".into())
        } else if r.one_in(5) {
            r.pick(ODD).to_string()
        } else { format!("{}{}", r.pick(&["Item", "Case", "Var", "Arm", "X", "item_"]), r.below(2000)) };
        if here.insert(s.clone()) {
            return s;
        }
    }
}

/// Distinct discriminants of a type.
fn nums(m: &Model, w: &W, r: &mut Rng, n: usize) -> Vec<V> {
    let mut v: Vec<V> = vec![];
    let style = r.below(4);
    let mut tries = 0;
    while v.len() < n && tries < 40 * n + 40 {
        tries += 1;
        let x = match (w, style) {
            (W::I32, _) if r.one_in(16) => V::I(r.word_int().unwrap_or(3) as i32 as i128),
            (W::I32, 0) => V::I(*r.pick(&[0, 1, -1, i32::MIN, i32::MAX, i32::MAX - 1, i32::MIN + 1, 1 << 16, -(1 << 16), 255, 256, -128, 0x1000000]) as i128),
            (W::I32 | W::I64 | W::I16, 1) => V::I(r.range(-20, 20) as i128),
            (W::I32 | W::I64 | W::I16 | W::U16 | W::U32 | W::U64 | W::U8, 2) => V::I(tries as i128 - 1),
            _ => {
                let mut fuel = 20;
                m.value(w, r, &mut fuel)
            }
        };
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn derived(m: &mut Model, r: &mut Rng, union: bool, ready: &[usize]) -> usize {
    let me = m.named.len();
    let disc = if !union {
        W::I32
    } else {
        let enums: Vec<usize> = ready
            .iter()
            .copied()
            .filter(|i| match &m.named[*i].1 {
                Named::Enum(_) => true,
                Named::Derived(d) => !d.union && d.arms.iter().all(|a| a.fields.is_empty()),
                _ => false,
            })
            .collect();
        match r.below(14) {
            0 | 1 => W::I32,
            2 | 3 => W::U32,
            4 => W::I16,
            5 => W::U8,
            6 => W::I64,
            7 => W::U64,
            8 => W::Bool,
            9 => W::Str(usize::MAX),
            10 => W::Tup(vec![W::I32, W::Bool]),
            11 => W::Opt(Box::new(W::U16)),
            _ if !enums.is_empty() => W::N(*r.pick(&enums)),
            _ => W::I32,
        }
    };
    let max = if r.one_in(80) {
        400
    } else if r.one_in(6) {
        60
    } else {
        9
    };
    let many = if r.one_in(3) { 2 } else { 1 };
    let listed = 1 + r.usize(max);
    let mut ns = nums(m, &disc, r, listed * many);
    let mut arms = vec![];
    let mut here = BTreeSet::new();
    // Kept out of the arms: the mapping refuses these or gives them to the arm for the others.
    let mut out = 0;
    if ns.len() > 1 {
        out = r.usize(ns.len().min(3));
    }
    ns.truncate(ns.len() - out);
    let unit = r.one_in(5);
    let wide = r.one_in(5);
    while !ns.is_empty() {
        let k = if r.one_in(3) { 1 + r.usize(4) } else { 1 };
        let k = k.min(ns.len());
        let mine: Vec<V> = ns.drain(..k).collect();
        let n = if unit {
            0
        } else if wide && r.bool() {
            if r.one_in(20) {
                // Past one hundred and past one byte.
                r.word_size(300).filter(|_| r.one_in(3)).unwrap_or(*r.pick(&[99usize, 100, 101, 127, 128, 129, 255, 256, 257, 300]))
            } else if r.one_in(8) {
                18 + r.usize(50)
            } else {
                8 + r.usize(10)
            }
        } else {
            r.usize(4)
        };
        let fields = (0..n).map(|_| if n > 17 { prim(r) } else { field(r, ready, Some(me), 0) }).collect();
        arms.push(DArm { name: variant(r, &mut here), fields, nums: mine, parens: !union && r.one_in(8) });
    }
    r.shuffle(&mut arms);
    let other = if r.one_in(3) {
        if r.bool() && union {
            let n = r.usize(4);
            let fields = (0..n).map(|_| field(r, ready, Some(me), 0)).collect();
            arms.push(DArm { name: variant(r, &mut here), fields, nums: vec![], parens: false });
            Some(arms.len() - 1)
        } else {
            Some(r.usize(arms.len()))
        }
    } else {
        None
    };
    m.named.push((format!("{}{}", r.pick(&["Type", "Foo", "Kind", "T", "Enum_"]), me), Named::Derived(Derived { union, disc, arms, other })));
    me
}

fn structure(m: &mut Model, r: &mut Rng, ready: &[usize]) -> usize {
    let me = m.named.len();
    let n = 1 + r.usize(5);
    let f = (0..n)
        .map(|k| {
            let w = match r.below(6) {
                0 => W::OpF(*r.pick(&[0, 1, 3, 4, 5, 16, 32])),
                1 => W::OpV(usize::MAX),
                2 | 3 => W::N(*r.pick(ready)),
                _ => field(r, ready, None, 0),
            };
            (format!("f{k}"), w)
        })
        .collect();
    m.named.push((format!("Struct{me}"), Named::Struct(f)));
    me
}

fn simple(m: &mut Model, r: &mut Rng) -> usize {
    let me = m.named.len();
    let n = 1 + r.usize(6);
    m.named.push((format!("Plain{me}"), Named::Enum((0..n).map(|k| (format!("P{k}"), k as i32)).collect())));
    me
}

fn ty(m: &Model, w: &W, me: Option<usize>) -> String {
    let t = |w: &W| ty(m, w, me);
    match w {
        W::I8 => "i8".into(),
        W::U8 => "u8".into(),
        W::I16 => "i16".into(),
        W::U16 => "u16".into(),
        W::I32 => "i32".into(),
        W::U32 => "u32".into(),
        W::I64 => "i64".into(),
        W::U64 => "u64".into(),
        W::F32 => "f32".into(),
        W::F64 => "f64".into(),
        W::Bool => "bool".into(),
        W::Str(_) => "::std::string::String".into(),
        W::OpF(n) => format!("[u8; {n}]"),
        W::OpV(_) => "::std::vec::Vec<u8>".into(),
        W::Fix(w, n) => format!("[{}; {n}]", t(w)),
        W::Var(w, _) => format!("::std::vec::Vec<{}>", t(w)),
        W::Opt(w) if matches!(**w, W::N(i) if Some(i) == me) => format!("::std::option::Option<Box<{}>>", t(w)),
        W::Opt(w) => format!("::std::option::Option<{}>", t(w)),
        W::N(i) => rust_name(&m.named[*i].0),
        W::Wrap => "::serde_xdr::opaque::VariableArray".into(),
        W::Tup(ws) => format!("({},)", ws.iter().map(t).collect::<Vec<_>>().join(", ")),
        W::Unit => "()".into(),
    }
}

/// A discriminant as a pattern.
fn pattern(m: &Model, w: &W, v: &V) -> String {
    match (w, v) {
        (_, V::S(s)) => format!("{s:?}"),
        (W::Tup(ws), V::L(l)) => format!("({},)", ws.iter().zip(l).map(|(w, x)| pattern(m, w, x)).collect::<Vec<_>>().join(", ")),
        (W::Opt(_), V::Opt(None)) => "::std::option::Option::None".into(),
        (W::Opt(w), V::Opt(Some(x))) => format!("::std::option::Option::Some({})", pattern(m, w, x)),
        (W::N(i), V::E(x)) => match &m.named[*i].1 {
            Named::Enum(it) => format!("{}::{}", m.named[*i].0, it[*x as usize].0),
            _ => unreachable!(),
        },
        (W::N(i), V::D(_, a, _)) => match &m.named[*i].1 {
            Named::Derived(d) => format!("{}::{}{}", m.named[*i].0, d.arms[*a].name, if d.arms[*a].parens { "()" } else { "" }),
            _ => unreachable!(),
        },
        (_, V::I(x)) => x.to_string(),
        (_, V::B(x)) => x.to_string(),
        _ => unreachable!(),
    }
}

/// A value as an expression.
fn expr(m: &Model, w: &W, v: &V, boxed: Option<usize>) -> String {
    let e = |w: &W, v: &V| expr(m, w, v, boxed);
    let list = |w: &W, l: &Vec<V>| l.iter().map(|x| e(w, x)).collect::<Vec<_>>().join(", ");
    match (w, v) {
        (_, V::I(x)) => {
            if *x < 0 {
                format!("({x} as {})", ty(m, w, None)).replace("(-9223372036854775808 as i64)", "i64::MIN").replace("(-2147483648 as i32)", "i32::MIN")
            } else {
                format!("{x}{}", ty(m, w, None))
            }
        }
        (_, V::F32(x)) => format!("f32::from_bits({x})"),
        (_, V::F64(x)) => format!("f64::from_bits({x})"),
        (_, V::B(x)) => x.to_string(),
        (_, V::S(s)) => format!("::std::string::String::from({s:?})"),
        (W::OpF(_), V::O(o)) => format!("[{}]", o.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", ")),
        (W::OpV(_), V::O(o)) => format!("::std::vec::Vec::<u8>::from({o:?})"),
        (_, V::O(o)) => format!("::serde_xdr::opaque::VariableArray {{ data: ::std::vec::Vec::<u8>::from({o:?}) }}"),
        (W::Fix(w, _), V::L(l)) => format!("[{}]", list(w, l)),
        (W::Var(w, _), V::L(l)) => format!("::std::vec![{}]", list(w, l)),
        (W::Tup(ws), V::L(l)) => format!("({},)", ws.iter().zip(l).map(|(w, x)| e(w, x)).collect::<Vec<_>>().join(", ")),
        (W::Unit, _) => "()".into(),
        (W::Opt(_), V::Opt(None)) => "::std::option::Option::None".into(),
        (W::Opt(w), V::Opt(Some(x))) => {
            if matches!(**w, W::N(i) if Some(i) == boxed) {
                format!("::std::option::Option::Some(Box::new({}))", e(w, x))
            } else {
                format!("::std::option::Option::Some({})", e(w, x))
            }
        }
        (W::N(_), V::E(_)) => pattern(m, w, v),
        (W::N(i), V::L(l)) => {
            let Named::Struct(f) = &m.named[*i].1 else { unreachable!() };
            format!("{} {{ {} }}", m.named[*i].0, f.iter().zip(l).map(|((n, w), x)| format!("{n}: {}", expr(m, w, x, Some(*i)))).collect::<Vec<_>>().join(", "))
        }
        (W::N(i), V::D(d, a, l)) => {
            let Named::Derived(t) = &m.named[*i].1 else { unreachable!() };
            let arm = &t.arms[*a];
            let mut parts = vec![];
            if t.union {
                parts.push(expr(m, &t.disc, d, Some(*i)));
            }
            parts.extend(arm.fields.iter().zip(l).map(|(w, x)| expr(m, w, x, Some(*i))));
            let p = if parts.is_empty() && !arm.parens { String::new() } else { format!("({})", parts.join(", ")) };
            format!("{}::{}{p}", m.named[*i].0, arm.name)
        }
        _ => unreachable!(),
    }
}

fn print(m: &Model, r: &mut Rng) -> String {
    let mut s = String::from(
        "use serde::ser::SerializeTuple;\nuse serde::{Deserialize, Serialize};\nuse serde_xdr::{XdrIndexer, XdrUnion};\nuse serde_xdr_derive::{XdrIndexer, XdrUnion};\n#[derive(Debug)] pub struct Refused;\n",
    );
    for (i, (n, t)) in m.named.iter().enumerate() {
        match t {
            Named::Enum(items) => {
                let items: Vec<&str> = items.iter().map(|x| x.0.as_str()).collect();
                let _ = writeln!(s, "#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)] pub enum {n} {{ {} }}", items.join(", "));
            }
            Named::Struct(f) => {
                let _ = writeln!(s, "#[derive(Clone, Debug, Serialize, Deserialize)] pub struct {n} {{");
                for (f, w) in f {
                    match w {
                        W::OpF(_) => s.push_str("#[serde(with = \"serde_xdr::opaque::fixed\")] "),
                        W::OpV(_) => s.push_str("#[serde(with = \"serde_xdr::opaque::variable\")] "),
                        _ => {}
                    }
                    let _ = writeln!(s, "pub {f}: {},", ty(m, w, Some(i)));
                }
                s.push_str("}\n");
            }
            Named::Union(_) => unreachable!(),
            Named::Derived(d) => {
                let form = if d.union { "XdrUnion" } else { "XdrIndexer" };
                if r.one_in(4) {
                    s.push_str("/// A documented type.\n");
                }
                // Numbers of the language's own, which say nothing about the encoding.
                let own: Vec<i32> = match r.below(4) {
                    0 => (0..d.arms.len()).map(|k| 7 + 3 * ((k * 7919) % 10007) as i32).collect(),
                    1 => (0..d.arms.len()).map(|k| -(k as i32)).collect(),
                    _ => vec![],
                };
                if !own.is_empty() {
                    s.push_str("#[repr(i32)] ");
                }
                let through = r.one_in(5);
                let mut types: Vec<String> = vec![];
                let mut body = String::new();
                let dt = ty(m, &d.disc, Some(i));
                for (k, a) in d.arms.iter().enumerate() {
                    let mut f = vec![];
                    if d.union {
                        f.push(dt.clone());
                    }
                    f.extend(a.fields.iter().map(|w| ty(m, w, Some(i))));
                    if r.one_in(9) {
                        body.push_str("/// One of them.\n");
                    }
                    body.push_str(&a.name);
                    if !f.is_empty() || a.parens {
                        if through {
                            for t in f.iter_mut() {
                                types.push(std::mem::replace(t, format!("$t{}", types.len())));
                            }
                        }
                        let _ = write!(body, "({})", f.join(", "));
                    }
                    if let Some(x) = own.get(k) {
                        let _ = write!(body, " = {x}");
                    }
                    body.push_str(if k + 1 == d.arms.len() && r.bool() { "\n" } else { ",\n" });
                }
                let attr = format!("#[derive(Clone, Debug, {form})]");
                if through && !types.is_empty() {
                    // Written by a macro, with the types handed to it.
                    let own = if own.is_empty() { "" } else { "#[repr(i32)] " };
                    if !own.is_empty() {
                        let at = s.rfind("#[repr(i32)] ").unwrap();
                        s.truncate(at);
                    }
                    let pars: Vec<String> = (0..types.len()).map(|k| format!("$t{k}:ty")).collect();
                    let _ = writeln!(s, "macro_rules! make{i} {{ ({}) => {{ {own}{attr} pub enum {n} {{\n{body}}} }} }}\nmake{i}!({});", pars.join("; "), types.join("; "));
                } else {
                    let _ = writeln!(s, "{attr} pub enum {n} {{\n{body}}}");
                }
                let (error, refused) = if r.bool() { ("::serde_xdr::error::Error", "::serde_xdr::error::Error::Convert") } else { ("Refused", "Refused") };
                let mut map = String::new();
                for a in &d.arms {
                    for x in &a.nums {
                        let _ = write!(map, "{} => ::std::result::Result::Ok({:?}), ", pattern(m, &d.disc, x), a.name);
                    }
                }
                let other = match d.other {
                    Some(o) => format!("_ => ::std::result::Result::Ok({:?})", d.arms[o].name),
                    None => format!("_ => ::std::result::Result::Err({refused})"),
                };
                if d.union {
                    let on = if matches!(d.disc, W::Str(_)) { "v.as_str()" } else { "v" };
                    // Through a reference, tuples and options match as they are.
                    let _ = writeln!(
                        s,
                        "impl XdrUnion<{dt}> for {n} {{ type Error = {error}; fn name_by_value(v: &{dt}) -> ::std::result::Result<&'static str, {error}> {{ match {on} {{ {map}{other} }} }} }}"
                    );
                } else {
                    let mut index = String::new();
                    for a in &d.arms {
                        let p = if a.fields.is_empty() && !a.parens { "" } else { "(..)" };
                        let V::I(x) = &a.nums[0] else { unreachable!() };
                        let _ = write!(index, "{n}::{}{p} => {x}, ", a.name);
                    }
                    let _ = writeln!(
                        s,
                        "impl XdrIndexer for {n} {{ type Error = {error}; fn name_by_index(i: i32) -> ::std::result::Result<&'static str, {error}> {{ match i {{ {map}{other} }} }} fn index(&self) -> i32 {{ match self {{ {index} }} }} }}"
                    );
                }
            }
        }
    }
    s
}

fn prog(r: &mut Rng, union: Option<bool>) -> Prog {
    let mut m = Model { named: vec![], raw: HashMap::new(), consts: vec![] };
    let mut ready = vec![];
    let mut mine = vec![];
    let n = 2 + r.usize(5);
    for _ in 0..n {
        let i = match r.below(8) {
            0 => simple(&mut m, r),
            1 if !ready.is_empty() => structure(&mut m, r, &ready),
            x => {
                let u = union.unwrap_or(x % 2 == 0);
                let u = if r.one_in(4) { !u } else { u };
                let i = derived(&mut m, r, u, &ready);
                mine.push(i);
                i
            }
        };
        ready.push(i);
    }
    if !mine.iter().any(|i| union.is_none_or(|u| matches!(&m.named[*i].1, Named::Derived(d) if d.union == u))) {
        mine.push(derived(&mut m, r, union.unwrap_or(false), &ready));
    }
    let mut roots: Vec<W> = mine.iter().map(|i| W::N(*i)).collect();
    for _ in 0..1 + r.usize(4) {
        let t = || W::N(0);
        let _ = t;
        let t = Box::new(W::N(*r.pick(&mine)));
        let after = prim(r);
        roots.push(match r.below(6) {
            0 => W::Tup(vec![*t, after]),
            1 => W::Tup(vec![prim(r), *t.clone(), *t, after]),
            2 => W::Var(t, usize::MAX),
            3 => W::Opt(t),
            4 => W::Fix(t, 1 + r.usize(4)),
            _ => W::Tup(vec![W::Var(t, usize::MAX), after]),
        });
    }
    for (i, n) in m.named.iter().enumerate() {
        if matches!(n.1, Named::Struct(_)) {
            roots.push(W::N(i));
        }
    }
    let code = print(&m, r);
    Prog { m, code, roots, union }
}

// ---------------------------------------------------------------- running

struct Run {
    progs: Vec<Prog>,
    runner: Runner,
    /// Program, type.
    table: Vec<(usize, W)>,
    /// Values that the program makes: program, type, value, place in the table.
    made: Vec<(usize, W, V, usize)>,
}

fn program(ctx: &mut Ctx, r: &mut Rng, rt: &Rt, dir: &std::path::Path, union: Option<bool>, values: usize) -> Option<Run> {
    let progs: Vec<Prog> = (0..3).map(|_| prog(r, union)).collect();
    let mut table = vec![];
    let mut made = vec![];
    let mut main = String::new();
    let mut calls = String::new();
    for (k, p) in progs.iter().enumerate() {
        let _ = writeln!(main, "mod at{k} {{ use super::*; use m{k}::*;");
        for (i, w) in p.roots.iter().enumerate() {
            let _ = writeln!(main, "pub type R{i} = {};", ty(&p.m, w, None));
            let _ = write!(calls, "rt::one::<at{k}::R{i}>,\n");
            table.push((k, w.clone()));
        }
        for i in 0..values {
            let w = r.pick(&p.roots).clone();
            let mut fuel = *r.pick(&[5, 15, 40]);
            let v = p.m.value(&w, r, &mut fuel);
            let v = stray(&p.m, &w, v, r);
            let _ = writeln!(main, "pub fn v{i}(_: &[u8]) -> String {{ let v: {} = {}; rt::made(v) }}", ty(&p.m, &w, None), expr(&p.m, &w, &v, None));
            made.push((k, w, v, 0));
        }
        main.push_str("}\n");
    }
    let mut n = 0;
    let mut last = usize::MAX;
    for x in made.iter_mut() {
        n = if x.0 == last { n + 1 } else { 0 };
        last = x.0;
        let _ = write!(calls, "at{}::v{n},\n", x.0);
        x.3 = table.len();
        table.push((x.0, x.1.clone()));
    }
    let _ = writeln!(main, "fn main() {{ rt::serve(&[{calls}]) }}");
    let mods: Vec<String> = progs.iter().map(|p| p.code.clone()).collect();
    ctx.note(|| mods.join("\n----\n"));
    let edition = if r.bool() { "2021" } else { "2024" };
    match crates::compile(rt, dir, &mods, Some(&main), edition) {
        Built::Ok(exe) => match Runner::new(&exe) {
            Ok(runner) => Some(Run { progs, runner, table, made }),
            Err(e) => {
                ctx.inconclusive(&format!("the program does not start: {e}"));
                None
            }
        },
        Built::Refused(ds) => {
            let d = &ds[0];
            match d.module {
                Some(i) => ctx.violation(&format!("the derived code does not compile (edition {edition}): {}\n{}", d.text, mods[i])),
                None => ctx.inconclusive(&format!("the program around the types does not compile: {}\n{main}", d.text)),
            }
            None
        }
        Built::Failed(e) => {
            ctx.inconclusive(&format!("no compiler: {e}"));
            None
        }
    }
}

/// A union value may hold a discriminant that its own mapping would not give to its variant:
/// writing it is not the mapping's business.
fn stray(m: &Model, w: &W, v: V, r: &mut Rng) -> V {
    match (w, v) {
        (W::N(i), V::D(d, a, l)) => match &m.named[*i].1 {
            Named::Derived(t) if t.union && r.one_in(3) => {
                let mut fuel = 10;
                V::D(Box::new(m.value(&t.disc, r, &mut fuel)), a, l)
            }
            _ => V::D(d, a, l),
        },
        (_, v) => v,
    }
}

fn show(p: &Prog, w: &W) -> String {
    format!("type {}\n{}", ty(&p.m, w, None), p.code)
}

fn any_mode() -> Mode {
    modes::mode([false, false, false, false])
}

/// Counts what a value exercises.
fn census(ctx: &mut Ctx, m: &Model, w: &W, v: &V) {
    match (w, v) {
        (W::N(i), V::D(d, a, l)) => {
            let Named::Derived(t) = &m.named[*i].1 else { return };
            let form = if t.union { "union" } else { "indexer" };
            ctx.count(&format!("{form} values"));
            if l.len() >= 10 {
                ctx.count(&format!("{form} values with ten fields or more"));
            }
            if matches!(&**d, V::I(x) if *x < 0) {
                ctx.count(&format!("{form} values with a negative discriminant"));
            }
            if t.arms[*a].nums.len() > 1 {
                ctx.count(&format!("{form} values of arms with several discriminants"));
            }
            if !t.arms[*a].nums.contains(d) {
                ctx.count(&format!("{form} values of the arm for the others"));
            }
            t.arms[*a].fields.iter().zip(l).for_each(|(w, x)| census(ctx, m, w, x));
        }
        (W::N(i), V::L(l)) => {
            if let Named::Struct(f) = &m.named[*i].1 {
                f.iter().zip(l).for_each(|(f, x)| census(ctx, m, &f.1, x));
            }
        }
        (W::Tup(ws), V::L(l)) => ws.iter().zip(l).for_each(|(w, x)| census(ctx, m, w, x)),
        (W::Fix(w, _) | W::Var(w, _), V::L(l)) => l.iter().for_each(|x| census(ctx, m, w, x)),
        (W::Opt(w), V::Opt(Some(x))) => census(ctx, m, w, x),
        _ => {}
    }
}

fn encode(m: &Model, w: &W, v: &V) -> Enc {
    let mut e = Enc::default();
    m.encode(w, v, &mut e);
    e
}

fn work(ctx: &mut Ctx, union: bool) {
    let rt = match crates::rt() {
        Ok(r) => r,
        Err(e) => return ctx.inconclusive(&format!("the runtime crates are missing: {e}")),
    };
    let dir = work_dir(if union { "d02" } else { "d01" });
    let mode = any_mode();
    ctx.cases(9, 300, |ctx, r| {
        let Some(mut p) = program(ctx, r, &rt, &dir, Some(union), 40) else { return };
        // Values the program makes.
        for (k, w, v, at) in &p.made {
            let q = &p.progs[*k];
            let e = encode(&q.m, w, v);
            let want = q.m.debug(w, v, &mode, false);
            ctx.eval();
            ctx.count("values made by the program");
            census(ctx, &q.m, w, v);
            match p.runner.ask(*at, &[]) {
                Answer::None(m) => return ctx.inconclusive(&m),
                Answer::Value(_, d) if d != want => return ctx.inconclusive(&format!("the monitor's debug text {want} is not {d}")),
                Answer::Value(Ok(b), _) if b == e.b => {}
                a => return ctx.violation(&format!("{want}\nis encoded as {a:?}\ninstead of {}\n{}", hexs(&e.b), show(q, w))),
            }
        }
        // Values decoded and encoded again.
        for at in 0..p.table.len() - p.made.len() {
            let (k, w) = p.table[at].clone();
            for _ in 0..25 {
                let q = &p.progs[k];
                let mut fuel = *r.pick(&[5, 20, 60, 200]);
                let v = q.m.value(&w, r, &mut fuel);
                let e = encode(&q.m, &w, &v);
                let want = q.m.debug(&w, &v, &mode, false);
                ctx.eval();
                ctx.distinct(hash(format!("{}{want}", ty(&q.m, &w, None)).as_bytes()));
                ctx.count("values decoded");
                census(ctx, &q.m, &w, &v);
                match p.runner.ask(at, &e.b) {
                    Answer::None(m) => return ctx.inconclusive(&m),
                    Answer::Value(Ok(b), d) if b == e.b && d == want => {}
                    a => return ctx.violation(&format!("{want}\nas {}\ngives {a:?}\n{}", hexs(&e.b), show(q, &w))),
                }
                // Another discriminant at each place.
                for (pos, mark) in &e.marks {
                    let Mark::Derived(i) = mark else { continue };
                    let Named::Derived(d) = &q.m.named[*i].1 else { continue };
                    if d.union != union || !r.one_in(2) {
                        continue;
                    }
                    let mut fuel = 10;
                    let x = if r.bool() { nums(&q.m, &d.disc, r, 1).pop().unwrap() } else { q.m.value(&d.disc, r, &mut fuel) };
                    let arm = d.arms.iter().position(|a| a.nums.contains(&x)).or(d.other);
                    let xb = encode(&q.m, &d.disc, &x).b;
                    let mut b = e.b[..*pos].to_vec();
                    b.extend_from_slice(&xb);
                    match arm {
                        None => {
                            // Refused, whatever follows.
                            if r.bool() {
                                let n = r.usize(5) * 4;
                                b.extend(r.bytes(n));
                            }
                            ctx.count("discriminants the mapping refuses");
                            match p.runner.ask(at, &b) {
                                Answer::Error(_) => {}
                                Answer::None(m) => return ctx.inconclusive(&m),
                                a => return ctx.violation(&format!("the mapping refuses the discriminant at byte {pos} of {}, which gives {a:?}\n{}", hexs(&b), show(q, &w))),
                            }
                        }
                        Some(a) if *pos == 0 && w == W::N(*i) => {
                            // The whole value anew, with a discriminant that need not be the arm's first.
                            let mut fuel = 40;
                            let l: Vec<V> = d.arms[a].fields.iter().map(|w| q.m.value(w, r, &mut fuel)).collect();
                            let canonical = if d.union { x.clone() } else { d.arms[a].nums[0].clone() };
                            let v = V::D(Box::new(x), a, l.clone());
                            let b = encode(&q.m, &w, &v).b;
                            let back = V::D(Box::new(canonical), a, l);
                            let bb = encode(&q.m, &w, &back).b;
                            let want = q.m.debug(&w, &back, &mode, false);
                            ctx.count("values with any discriminant that means their arm");
                            match p.runner.ask(at, &b) {
                                Answer::None(m) => return ctx.inconclusive(&m),
                                Answer::Value(Ok(y), d) if y == bb && d == want => {}
                                a => return ctx.violation(&format!("{} should decode as {want} and encode as {}: {a:?}\n{}", hexs(&b), hexs(&bb), show(q, &w))),
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        for q in &p.progs {
            for (_, n) in &q.m.named {
                if let Named::Derived(d) = n {
                    ctx.count(if d.union { "union types" } else { "indexer types" });
                    if d.union {
                        ctx.count(&format!("union types over {}", match &d.disc {
                            W::N(i) => match &q.m.named[*i].1 {
                                Named::Enum(_) => "a serde enum".to_string(),
                                _ => "an indexer enum".to_string(),
                            },
                            w => ty(&q.m, w, None),
                        }));
                    }
                }
            }
        }
        let t = p.progs[0].code.clone();
        ctx.sample(|| t);
    });
    let _ = std::fs::remove_dir_all(&dir);
}

fn d01(ctx: &mut Ctx) {
    work(ctx, false)
}
fn d02(ctx: &mut Ctx) {
    work(ctx, true)
}

pub const D01: Spec = Spec {
    prop: "D01",
    rule: "random Rust enums deriving the indexer form (1 to 60 variants of 0 to 17 fields, any indexes, alias and default indexes, refusing mappings) are compiled with their mappings and run, alone and nested; values made in the program are encoded, encodings by an independent encoder are decoded: bytes and debug text must be those of the model, and refused indexes errors; distinct by type and value",
    assumptions: &["the user's mapping only names variants of the enum", "the traits the derived code uses are imported"],
    must_observe: &["indexer values", "indexer values with ten fields or more", "indexer values with a negative discriminant", "discriminants the mapping refuses", "values with any discriminant that means their arm", "values made by the program"],
    worker: d01,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

pub const D02: Spec = Spec {
    prop: "D02",
    rule: "random Rust enums deriving the union form over integers of all widths, booleans, strings, tuples, options, serde enums and indexer enums, with one or several discriminants per variant, an arm for all others or a refusing mapping, are compiled and run, alone and nested; values made in the program are encoded (also with discriminants that the mapping would not give to their variant), encodings by an independent encoder are decoded: bytes and debug text must be those of the model, and refused discriminants errors; distinct by type and value",
    assumptions: &["the user's mapping only names variants of the enum", "the traits the derived code uses are imported", "every variant holds the discriminant first"],
    must_observe: &["union values", "union values with ten fields or more", "union values of arms with several discriminants", "union values of the arm for the others", "discriminants the mapping refuses", "values made by the program"],
    worker: d02,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

// ---------------------------------------------------------------- D03

fn d03(ctx: &mut Ctx) {
    let rt = match crates::rt() {
        Ok(r) => r,
        Err(e) => return ctx.inconclusive(&format!("the runtime crates are missing: {e}")),
    };
    let dir = work_dir("d03");
    let mode = any_mode();
    ctx.cases(9, 300, |ctx, r| {
        let Some(mut p) = program(ctx, r, &rt, &dir, None, 0) else { return };
        for at in 0..p.table.len() {
            let (k, w) = p.table[at].clone();
            let empty = p.progs[k].m.empty_elements(&w);
            for _ in 0..16 {
                let q = &p.progs[k];
                debug_assert!(q.union.is_none());
                let mut fuel = *r.pick(&[5, 20, 60]);
                let v = q.m.value(&w, r, &mut fuel);
                let e = encode(&q.m, &w, &v);
                let want = q.m.debug(&w, &v, &mode, false);
                ctx.eval();
                ctx.distinct(hash(format!("{}{want}", ty(&q.m, &w, None)).as_bytes()));
                for _ in 0..3 {
                    if e.b.is_empty() {
                        break;
                    }
                    let cut = if r.one_in(3) { e.b.len() - 1 } else { r.usize(e.b.len()) };
                    ctx.count("truncated encodings");
                    match p.runner.ask(at, &e.b[..cut]) {
                        Answer::Error(m) if m.starts_with("NotEnoughData") => {}
                        Answer::None(m) => return ctx.inconclusive(&m),
                        a => return ctx.violation(&format!("{} cut after {cut} bytes gives {a:?}\n{}", hexs(&e.b), show(q, &w))),
                    }
                }
                let mut long = e.b.clone();
                let n = *r.pick(&[1usize, 2, 3, 4, 5, 8, 40]);
                let fill = if r.bool() { vec![0; n] } else { r.bytes(n) };
                long.extend(fill);
                ctx.count("encodings with trailing bytes");
                match p.runner.ask(at, &long) {
                    Answer::Error(m) if m.starts_with("TrailingData") => {}
                    Answer::None(m) => return ctx.inconclusive(&m),
                    a => return ctx.violation(&format!("{} with {n} bytes more gives {a:?}\n{}", hexs(&long), show(q, &w))),
                }
                // Inside larger values.
                ctx.count("embedded values");
                match p.runner.ask(at, &e.b) {
                    Answer::Value(Ok(b), d) if b == e.b && d == want => {}
                    Answer::None(m) => return ctx.inconclusive(&m),
                    a => return ctx.violation(&format!("{want}\nas {}\ngives {a:?}\n{}", hexs(&e.b), show(q, &w))),
                }
                if empty {
                    ctx.count("values of types left out of hostile inputs (elements without bytes)");
                    continue;
                }
                for _ in 0..12 {
                    let mut b = e.b.clone();
                    match r.below(7) {
                        5 => b = (0..r.usize(14)).flat_map(|_| r.odd32().to_be_bytes()).collect(),
                        0 if b.len() >= 4 => {
                            let i = r.usize(b.len() / 4) * 4;
                            let x = r.odd32();
                            b[i..i + 4].copy_from_slice(&x.to_be_bytes());
                        }
                        1 if !e.marks.is_empty() => {
                            let (i, _) = e.marks[r.usize(e.marks.len())];
                            let x = r.odd32();
                            if i + 4 <= b.len() {
                                b[i..i + 4].copy_from_slice(&x.to_be_bytes());
                            }
                        }
                        2 if !b.is_empty() => {
                            let i = r.usize(b.len());
                            b[i] ^= 1 << r.below(8);
                        }
                        3 => {
                            let n = r.usize(100);
                            b = r.bytes(n);
                        }
                        4 if b.len() >= 8 => {
                            let i = r.usize(b.len() / 4) * 4;
                            b.drain(i..i + 4);
                        }
                        _ => {
                            let n = r.usize(12) * 4;
                            b = (0..n).map(|i| if i % 4 == 3 { r.below(6) as u8 } else { 0 }).collect();
                        }
                    }
                    ctx.count("hostile inputs");
                    match p.runner.ask(at, &b) {
                        Answer::Error(_) => ctx.count("hostile inputs refused"),
                        Answer::Value(Ok(_), _) => ctx.count("hostile inputs that decode"),
                        Answer::None(m) => return ctx.inconclusive(&m),
                        a => return ctx.violation(&format!("{} gives {a:?}\n{}", hexs(&b), show(q, &w))),
                    }
                }
            }
        }
        let t = p.progs[0].code.clone();
        ctx.sample(|| t);
    });
    let _ = std::fs::remove_dir_all(&dir);
}

pub const D03: Spec = Spec {
    prop: "D03",
    rule: "encodings of random derived enums, alone and inside structures, tuples, lists, arrays and options, are truncated (missing data must be reported), extended (trailing data must be reported), decoded whole (what follows a derived value must come out unaffected), and damaged or replaced by random bytes (a value or an error, never a panic); distinct by type and value",
    assumptions: &["the user's mapping only names variants of the enum", "lists of elements without bytes are left out of hostile inputs"],
    must_observe: &["truncated encodings", "encodings with trailing bytes", "embedded values", "hostile inputs refused", "hostile inputs that decode"],
    worker: d03,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

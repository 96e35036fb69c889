//! The items of generated code, expected and found.
use crate::model::{Model, Named, W};
use crate::modes::{EM, Mode, UM};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum RT {
    Path(String),
    Gen(String, Box<RT>),
    Arr(Box<RT>, i128),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Const { name: String, ty: String, value: i128 },
    Enum { name: String, items: Vec<(String, i128)> },
    Struct { name: String, fields: Vec<(String, RT)> },
    Union { name: String, arms: Vec<(String, Vec<RT>)> },
    /// A typedef that stays.
    Alias { name: String },
}

impl Item {
    pub fn name(&self) -> &str {
        match self {
            Item::Const { name, .. } | Item::Enum { name, .. } | Item::Struct { name, .. } | Item::Union { name, .. } | Item::Alias { name } => name,
        }
    }
}

/// A type with the aliases in it replaced by what they stand for.
fn expand(t: &RT, aliases: &HashMap<String, RT>, n: u32) -> Option<RT> {
    if n > 200 {
        return None;
    }
    Some(match t {
        RT::Path(p) => match aliases.get(p) {
            Some(t) => expand(t, aliases, n + 1)?,
            None => RT::Path(p.strip_prefix("::").unwrap_or(p).to_string()),
        },
        RT::Gen(p, t) => RT::Gen(p.clone(), Box::new(expand(t, aliases, n + 1)?)),
        RT::Arr(t, k) => RT::Arr(Box::new(expand(t, aliases, n + 1)?), *k),
    })
}

/// The same, where typedefs stay: they are found as well.
pub fn found_kept(code: &str) -> Result<Vec<Item>, String> {
    expanded(read(code, true)?)
}

fn expanded((mut items, aliases): (Vec<Item>, HashMap<String, RT>)) -> Result<Vec<Item>, String> {
    let full = |t: &mut RT| -> Result<(), String> {
        *t = expand(t, &aliases, 0).ok_or_else(|| format!("{t:?} stands for itself"))?;
        Ok(())
    };
    for i in &mut items {
        match i {
            Item::Struct { fields, .. } => fields.iter_mut().try_for_each(|f| full(&mut f.1))?,
            Item::Union { arms, .. } => arms.iter_mut().flat_map(|a| &mut a.1).try_for_each(full)?,
            _ => {}
        }
    }
    Ok(items)
}

fn unraw(i: &syn::Ident) -> String {
    let s = i.to_string();
    s.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(s)
}

fn eval(e: &syn::Expr, consts: &HashMap<String, i128>) -> Option<i128> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => i.base10_digits().parse().ok(),
            _ => None,
        },
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => eval(&u.expr, consts).map(|v| -v),
        syn::Expr::Cast(c) => eval(&c.expr, consts),
        syn::Expr::Paren(p) => eval(&p.expr, consts),
        syn::Expr::Group(p) => eval(&p.expr, consts),
        syn::Expr::Path(p) => consts.get(&unraw(&p.path.segments.last()?.ident)).copied(),
        _ => None,
    }
}

fn ty(t: &syn::Type, consts: &HashMap<String, i128>) -> Option<RT> {
    match t {
        syn::Type::Path(p) => {
            let s = p.path.segments.last()?;
            let n = unraw(&s.ident);
            match &s.arguments {
                // Marked: a path that leads elsewhere is none of the types of the file.
                syn::PathArguments::None if p.path.segments.len() > 1 => Some(RT::Path(format!("::{n}"))),
                syn::PathArguments::None => Some(RT::Path(n)),
                syn::PathArguments::AngleBracketed(a) if a.args.len() == 1 => match &a.args[0] {
                    // An indirection changes nothing that can be observed.
                    syn::GenericArgument::Type(t) if n == "Box" => ty(t, consts),
                    syn::GenericArgument::Type(t) => Some(RT::Gen(n, Box::new(ty(t, consts)?))),
                    _ => None,
                },
                _ => None,
            }
        }
        syn::Type::Array(a) => Some(RT::Arr(Box::new(ty(&a.elem, consts)?), eval(&a.len, consts)?)),
        syn::Type::Paren(p) => ty(&p.elem, consts),
        syn::Type::Group(p) => ty(&p.elem, consts),
        _ => None,
    }
}

/// The public items of generated code, in order.
pub fn found(code: &str) -> Result<Vec<Item>, String> {
    expanded(read(code, false)?)
}

fn read(code: &str, keep: bool) -> Result<(Vec<Item>, HashMap<String, RT>), String> {
    let mut aliases = HashMap::new();
    let f = syn::parse_file(code).map_err(|e| format!("not Rust: {e}"))?;
    let mut consts = HashMap::new();
    let mut out = vec![];
    for i in &f.items {
        if let syn::Item::Const(c) = i {
            let v = eval(&c.expr, &HashMap::new()).ok_or_else(|| format!("constant {} has no literal value", c.ident))?;
            consts.insert(unraw(&c.ident), v);
        }
    }
    for i in &f.items {
        match i {
            syn::Item::Const(c) => {
                if !matches!(c.vis, syn::Visibility::Public(_)) {
                    return Err(format!("constant {} is not public", c.ident));
                }
                let t = match ty(&c.ty, &consts) {
                    Some(RT::Path(t)) => t,
                    _ => return Err(format!("constant {} has an odd type", c.ident)),
                };
                out.push(Item::Const { name: unraw(&c.ident), ty: t, value: consts[&unraw(&c.ident)] });
            }
            syn::Item::Struct(s) => {
                if !matches!(s.vis, syn::Visibility::Public(_)) {
                    return Err(format!("struct {} is not public", s.ident));
                }
                let mut fields = vec![];
                for f in &s.fields {
                    let n = f.ident.as_ref().map(unraw).unwrap_or_default();
                    if !matches!(f.vis, syn::Visibility::Public(_)) {
                        return Err(format!("member {n} of {} is not public", s.ident));
                    }
                    fields.push((n.clone(), ty(&f.ty, &consts).ok_or_else(|| format!("member {n} of {} has an odd type", s.ident))?));
                }
                out.push(Item::Struct { name: unraw(&s.ident), fields });
            }
            syn::Item::Enum(e) => {
                if !matches!(e.vis, syn::Visibility::Public(_)) {
                    return Err(format!("enum {} is not public", e.ident));
                }
                if e.variants.iter().any(|v| v.discriminant.is_some()) {
                    let mut items = vec![];
                    for v in &e.variants {
                        let n = unraw(&v.ident);
                        let d = v.discriminant.as_ref().and_then(|d| eval(&d.1, &consts));
                        items.push((n.clone(), d.ok_or_else(|| format!("item {n} of {} has no number", e.ident))?));
                    }
                    out.push(Item::Enum { name: unraw(&e.ident), items });
                } else {
                    let mut arms = vec![];
                    for v in &e.variants {
                        let n = unraw(&v.ident);
                        let mut ts = vec![];
                        for f in &v.fields {
                            ts.push(ty(&f.ty, &consts).ok_or_else(|| format!("arm {n} of {} has an odd type", e.ident))?);
                        }
                        arms.push((n, ts));
                    }
                    out.push(Item::Union { name: unraw(&e.ident), arms });
                }
            }
            syn::Item::Use(_) | syn::Item::Impl(_) => {}
            syn::Item::Type(t) if keep => {
                let n = unraw(&t.ident);
                let what = ty(&t.ty, &consts).ok_or_else(|| format!("type {n} stands for an odd type"))?;
                if aliases.insert(n.clone(), what).is_some() {
                    return Err(format!("two types {n}"));
                }
                out.push(Item::Alias { name: n });
            }
            x => {
                use quote::ToTokens;
                return Err(format!("unexpected item: {}", x.to_token_stream()));
            }
        }
    }
    Ok((out, aliases))
}

fn path(s: &str) -> RT {
    RT::Path(s.to_string())
}
fn gener(s: &str, t: RT) -> RT {
    RT::Gen(s.to_string(), Box::new(t))
}

fn rt(m: &Model, w: &W, wrap: bool) -> RT {
    match w {
        W::I8 => path("i8"),
        W::U8 => path("u8"),
        W::I16 => path("i16"),
        W::U16 => path("u16"),
        W::I32 => path("i32"),
        W::U32 => path("u32"),
        W::I64 => path("i64"),
        W::U64 => path("u64"),
        W::F32 => path("f32"),
        W::F64 => path("f64"),
        W::Bool => path("bool"),
        W::Str(_) => path("String"),
        W::OpF(_) | W::OpV(_) if wrap => path("VariableArray"),
        W::OpF(n) => RT::Arr(Box::new(path("u8")), *n as i128),
        W::OpV(_) => gener("Vec", path("u8")),
        W::Fix(w, n) => RT::Arr(Box::new(rt(m, w, false)), *n as i128),
        W::Var(w, _) => gener("Vec", rt(m, w, matches!(**w, W::OpV(_)))),
        W::Opt(w) => gener("Option", rt(m, w, false)),
        W::N(i) => path(&m.named[*i].0),
        W::Wrap | W::Tup(_) | W::Unit => unreachable!(),
    }
}

/// What a file must generate. Reserved place-holders are left out.
pub fn expected(m: &Model, mode: &Mode) -> Vec<Item> {
    let mut out = vec![];
    for (n, v) in &m.consts {
        let ty = if *v <= u32::MAX as i128 { "u32" } else { "u64" };
        out.push(Item::Const { name: n.clone(), ty: ty.to_string(), value: *v });
    }
    for (n, t) in &m.named {
        out.push(match t {
            Named::Derived(_) => continue,
            Named::Enum(items) => Item::Enum { name: n.clone(), items: items.iter().map(|x| (x.0.clone(), x.1 as i128)).collect() },
            Named::Struct(f) => Item::Struct {
                name: n.clone(),
                fields: f
                    .iter()
                    .map(|(n, w)| (n.clone(), rt(m, w, false)))
                    .collect(),
            },
            Named::Union(u) => {
                let mut arms = vec![];
                let mut arm = |name: &str, w: &Option<W>| {
                    let mut ts = vec![];
                    if mode.u == UM::Union {
                        ts.push(rt(m, &u.disc, false));
                    }
                    if let Some(w) = w {
                        ts.push(rt(m, w, mode.u != UM::Complement && matches!(w, W::OpV(_) | W::OpF(_))));
                    }
                    arms.push((name.to_string(), ts));
                };
                for (name, _, w) in &u.arms {
                    arm(name, w);
                }
                if let Some(w) = &u.default {
                    arm("Default", w);
                }
                Item::Union { name: n.clone(), arms }
            }
        });
    }
    out
}

/// Takes the reserved place-holders out, after checking that they stand where they may.
pub fn strip_reserved(items: &mut [Item], m: &Model, mode: &Mode) -> Result<u64, String> {
    let mut n = 0;
    for it in items.iter_mut() {
        match it {
            Item::Enum { name, items } => {
                let mut keep = vec![];
                for (s, v) in items.drain(..) {
                    if s.strip_prefix("_Reserved").map(|d| d.replace('_', "-").parse::<i128>() == Ok(v)).unwrap_or(false) {
                        n += 1;
                        let declared = m.named.iter().any(|(x, t)| x == name && matches!(t, Named::Enum(i) if i.iter().any(|y| y.1 as i128 == v)));
                        if declared || mode.e != EM::Complement {
                            return Err(format!("{name} has a place-holder {s}"));
                        }
                    } else {
                        keep.push((s, v));
                    }
                }
                *items = keep;
            }
            Item::Union { name, arms } => {
                let mut keep = vec![];
                for (s, t) in arms.drain(..) {
                    if let Some(v) = s.strip_prefix("_Reserved").and_then(|d| d.parse::<i64>().ok()) {
                        n += 1;
                        let declared = m.named.iter().any(|(x, t)| x == name && matches!(t, Named::Union(u) if u.arms.iter().any(|y| y.1 == v)));
                        if declared || mode.u != UM::Complement || !t.is_empty() {
                            return Err(format!("{name} has a place-holder {s}"));
                        }
                    } else {
                        keep.push((s, t));
                    }
                }
                *arms = keep;
            }
            _ => {}
        }
    }
    Ok(n)
}

//! G12: generated types in the hands of a program: values made from their public parts, default
//! values, numbers, conversions and names.
use crate::ast::{Decl, Def, Ty};
use crate::crates::{self, Answer, Built, Rt, Runner};
use crate::model::{Enc, Model, Named, V, W};
use crate::modes::{EM, Mode, UM};
use crate::p_run::{self, Job, rust_name};
use mon::{Ctx, Rng, Spec, hash, hexs};
use std::collections::BTreeSet;

/// Structure and field of everything that is boxed: a member of its own structure's type.
fn boxed(ds: &[Def]) -> BTreeSet<(usize, usize)> {
    let mut s = BTreeSet::new();
    let mut i = 0;
    for d in ds {
        match d {
            Def::Struct(n, f) => {
                for (k, d) in f.iter().enumerate() {
                    if matches!(d, Decl::T(Ty::Id(t), _, _) if t == n) {
                        s.insert((i, k));
                    }
                }
                i += 1;
            }
            Def::Enum(..) | Def::Union(..) => i += 1,
            _ => {}
        }
    }
    s
}

struct Ex<'a> {
    m: &'a Model,
    mode: Mode,
    k: usize,
    boxed: &'a BTreeSet<(usize, usize)>,
}

impl Ex<'_> {
    fn ty(&self, i: usize) -> String {
        format!("m{}::{}", self.k, rust_name(&self.m.named[i].0))
    }
    fn item(&self, i: usize, n: i32) -> String {
        let Named::Enum(items) = &self.m.named[i].1 else { unreachable!() };
        format!("{}::{}", self.ty(i), rust_name(&items.iter().find(|x| x.1 == n).unwrap().0))
    }
    /// A discriminant as an expression.
    fn disc(&self, w: &W, d: i64) -> String {
        match w {
            W::Bool => (d == 1).to_string(),
            W::N(e) => self.item(*e, d as i32),
            W::U32 => format!("{d}u32"),
            _ => format!("({d}i64 as i32)"),
        }
    }
    /// A value as an expression.
    fn expr(&self, w: &W, v: &V, wrap: bool) -> String {
        let list = |w: &W, l: &[V], wrap: bool| l.iter().map(|x| self.expr(w, x, wrap)).collect::<Vec<_>>().join(", ");
        let int = |x: &i128, t: &str| if *x < 0 { format!("({x}i128 as {t})") } else { format!("{x}{t}") };
        match (w, v) {
            (W::I8, V::I(x)) => int(x, "i8"),
            (W::U8, V::I(x)) => int(x, "u8"),
            (W::I16, V::I(x)) => int(x, "i16"),
            (W::U16, V::I(x)) => int(x, "u16"),
            (W::I32, V::I(x)) => int(x, "i32"),
            (W::U32, V::I(x)) => int(x, "u32"),
            (W::I64, V::I(x)) => int(x, "i64"),
            (W::U64, V::I(x)) => int(x, "u64"),
            (_, V::F32(x)) => format!("f32::from_bits({x})"),
            (_, V::F64(x)) => format!("f64::from_bits({x})"),
            (_, V::B(x)) => x.to_string(),
            (_, V::S(s)) => format!("::std::string::String::from({s:?})"),
            (W::OpF(_), V::O(o)) => format!("[{}]", o.iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", ")),
            (_, V::O(o)) => {
                let l = format!("::std::vec::Vec::<u8>::from({o:?})");
                if wrap { format!("::serde_xdr::opaque::VariableArray {{ data: {l} }}") } else { l }
            }
            (W::Fix(w, _), V::L(l)) => format!("[{}]", list(w, l, false)),
            (W::Var(w, _), V::L(l)) => format!("::std::vec![{}]", list(w, l, matches!(**w, W::OpV(_)))),
            (W::Opt(_), V::Opt(None)) => "::std::option::Option::None".into(),
            (W::Opt(w), V::Opt(Some(x))) => format!("::std::option::Option::Some({})", self.expr(w, x, false)),
            (W::N(i), V::E(x)) => self.item(*i, *x),
            (W::N(i), V::L(l)) => {
                let Named::Struct(f) = &self.m.named[*i].1 else { unreachable!() };
                let mut s = vec![];
                for (k, ((n, w), x)) in f.iter().zip(l).enumerate() {
                    let e = self.expr(w, x, false);
                    s.push(match self.boxed.contains(&(*i, k)) {
                        true => format!("{}: ::std::boxed::Box::new({e})", rust_name(n)),
                        false => format!("{}: {e}", rust_name(n)),
                    });
                }
                format!("{} {{ {} }}", self.ty(*i), s.join(", "))
            }
            (W::N(i), V::U(d, a, p)) => {
                let Named::Union(u) = &self.m.named[*i].1 else { unreachable!() };
                let (name, w) = match a {
                    Some(a) => (u.arms[*a].0.clone(), u.arms[*a].2.as_ref()),
                    None => ("Default".to_string(), u.default.as_ref().unwrap().as_ref()),
                };
                let mut parts = vec![];
                if self.mode.u == UM::Union {
                    parts.push(self.disc(&u.disc, *d));
                }
                if let (Some(w), Some(p)) = (w, p) {
                    parts.push(self.expr(w, p, self.mode.u != UM::Complement && matches!(w, W::OpV(_))));
                }
                let p = if parts.is_empty() { String::new() } else { format!("({})", parts.join(", ")) };
                format!("{}::{}{p}", self.ty(*i), rust_name(&name))
            }
            _ => panic!("value does not fit its type: {w:?} {v:?}"),
        }
    }
}

impl Model {
    /// Strictly reads one value.
    pub fn decode(&self, w: &W, b: &[u8], at: &mut usize) -> Option<V> {
        fn take<'a>(b: &'a [u8], at: &mut usize, n: usize) -> Option<&'a [u8]> {
            let s = b.get(*at..at.checked_add(n)?)?;
            *at += n;
            Some(s)
        }
        fn u32_(b: &[u8], at: &mut usize) -> Option<u32> {
            Some(u32::from_be_bytes(take(b, at, 4)?.try_into().ok()?))
        }
        fn opaque(b: &[u8], at: &mut usize, n: usize) -> Option<Vec<u8>> {
            let o = take(b, at, n)?.to_vec();
            let pad = take(b, at, (4 - n % 4) % 4)?;
            pad.iter().all(|x| *x == 0).then_some(o)
        }
        let small = |n: u32, lo: i64, hi: i64| -> Option<V> {
            let x = n as i32 as i64;
            (lo..=hi).contains(&x).then_some(V::I(x as i128))
        };
        Some(match w {
            W::I8 => small(u32_(b, at)?, -128, 127)?,
            W::U8 => small(u32_(b, at)?, 0, 255)?,
            W::I16 => small(u32_(b, at)?, -32768, 32767)?,
            W::U16 => small(u32_(b, at)?, 0, 65535)?,
            W::I32 => V::I(u32_(b, at)? as i32 as i128),
            W::U32 => V::I(u32_(b, at)? as i128),
            W::I64 => V::I(i64::from_be_bytes(take(b, at, 8)?.try_into().ok()?) as i128),
            W::U64 => V::I(u64::from_be_bytes(take(b, at, 8)?.try_into().ok()?) as i128),
            W::F32 => V::F32(u32_(b, at)?),
            W::F64 => V::F64(u64::from_be_bytes(take(b, at, 8)?.try_into().ok()?)),
            W::Bool => match u32_(b, at)? {
                0 => V::B(false),
                1 => V::B(true),
                _ => return None,
            },
            W::Str(max) => {
                let n = u32_(b, at)? as usize;
                if n > *max {
                    return None;
                }
                V::S(String::from_utf8(opaque(b, at, n)?).ok()?)
            }
            W::OpF(n) => V::O(opaque(b, at, *n)?),
            W::OpV(max) => {
                let n = u32_(b, at)? as usize;
                if n > *max {
                    return None;
                }
                V::O(opaque(b, at, n)?)
            }
            W::Fix(w, n) => V::L((0..*n).map(|_| self.decode(w, b, at)).collect::<Option<_>>()?),
            W::Var(w, max) => {
                let n = u32_(b, at)? as usize;
                if n > *max || n > 1 << 20 {
                    return None;
                }
                V::L((0..n).map(|_| self.decode(w, b, at)).collect::<Option<_>>()?)
            }
            W::Opt(w) => match u32_(b, at)? {
                0 => V::Opt(None),
                1 => V::Opt(Some(Box::new(self.decode(w, b, at)?))),
                _ => return None,
            },
            W::N(i) => match &self.named[*i].1 {
                Named::Enum(items) => {
                    let n = u32_(b, at)? as i32;
                    items.iter().any(|x| x.1 == n).then_some(V::E(n))?
                }
                Named::Struct(f) => V::L(f.iter().map(|x| self.decode(&x.1, b, at)).collect::<Option<_>>()?),
                Named::Union(u) => {
                    let n = u32_(b, at)?;
                    let d = match &u.disc {
                        W::U32 => n as i64,
                        W::Bool if n > 1 => return None,
                        W::N(e) => match &self.named[*e].1 {
                            Named::Enum(items) if items.iter().any(|x| x.1 == n as i32) => n as i32 as i64,
                            _ => return None,
                        },
                        _ => n as i32 as i64,
                    };
                    let (a, w) = match u.arms.iter().position(|a| a.1 == d) {
                        Some(a) => (Some(a), u.arms[a].2.as_ref()),
                        None => (None, u.default.as_ref()?.as_ref()),
                    };
                    let p = match w {
                        Some(w) => Some(Box::new(self.decode(w, b, at)?)),
                        None => None,
                    };
                    V::U(d, a, p)
                }
                Named::Derived(_) => return None,
            },
            W::Wrap | W::Tup(_) | W::Unit => return None,
        })
    }

    /// Zero numbers, no text, no data, nothing optional; any item and any arm.
    fn empty(&self, w: &W, v: &V) -> bool {
        match (w, v) {
            (_, V::I(x)) => *x == 0,
            (_, V::F32(x)) => *x == 0,
            (_, V::F64(x)) => *x == 0,
            (_, V::B(x)) => !x,
            (_, V::S(s)) => s.is_empty(),
            (_, V::O(o)) => o.iter().all(|x| *x == 0),
            (W::Fix(w, _), V::L(l)) => l.iter().all(|x| self.empty(w, x)),
            (W::Var(..), V::L(l)) => l.is_empty(),
            (_, V::Opt(o)) => o.is_none(),
            (_, V::E(_)) => true,
            (W::N(i), V::L(l)) => match &self.named[*i].1 {
                Named::Struct(f) => f.iter().zip(l).all(|(f, x)| self.empty(&f.1, x)),
                _ => false,
            },
            (W::N(i), V::U(_, a, p)) => match &self.named[*i].1 {
                Named::Union(u) => {
                    let w = match a {
                        Some(a) => u.arms[*a].2.as_ref(),
                        None => u.default.as_ref().unwrap().as_ref(),
                    };
                    match (w, p) {
                        (Some(w), Some(p)) => self.empty(w, p),
                        _ => true,
                    }
                }
                _ => false,
            },
            _ => false,
        }
    }

    /// Whether a known finding makes bytes of the type differ from the declared ones.
    fn outside(&self, i: usize, mode: &Mode) -> bool {
        self.closure(i).iter().any(|i| match &self.named[*i].1 {
            Named::Enum(items) => mode.e == EM::Complement && items.iter().any(|x| x.1 < 0),
            Named::Union(u) => {
                mode.u != UM::Complement
                    && (u.arms.iter().any(|a| matches!(a.2, Some(W::OpF(_)))) || matches!(u.default, Some(Some(W::OpF(_)))))
            }
            _ => false,
        })
    }
}

enum Q {
    /// Default (no bytes) and clone (a value).
    Dflt(usize),
    /// A number: what the enumeration makes of it.
    Enum(usize),
    /// A discriminant: what the union makes of it.
    Union(usize),
    /// Constants.
    Consts,
    /// A value made by the program.
    Made(usize, V),
}

struct Prog {
    jobs: Vec<Job>,
    runner: Runner,
    /// Job, question.
    table: Vec<(usize, Q)>,
}

fn build(ctx: &mut Ctx, r: &mut Rng, rt: &Rt, dir: &std::path::Path, jobs: Vec<Job>, edition: &str) -> Option<Prog> {
    let mut table = vec![];
    let mut funs = String::new();
    let mut list = String::new();
    let mut add = |table: &mut Vec<(usize, Q)>, k: usize, q: Q, body: Option<String>, generic: Option<String>| {
        let n = table.len();
        match (body, generic) {
            (Some(b), _) => {
                funs.push_str(&format!("fn q{n}(b: &[u8]) -> ::std::string::String {{\n{b}\n}}\n"));
                list.push_str(&format!("q{n},\n"));
            }
            (None, Some(g)) => list.push_str(&format!("{g},\n")),
            _ => unreachable!(),
        }
        table.push((k, q));
    };
    for (k, j) in jobs.iter().enumerate() {
        let Ok((ds, _)) = crate::p_parse::real(&j.text) else {
            ctx.inconclusive("a generated file does not parse again");
            return None;
        };
        let bx = boxed(&ds);
        let x = Ex { m: &j.m, mode: j.mode, k, boxed: &bx };
        for (i, (_, n)) in j.m.named.iter().enumerate() {
            let t = x.ty(i);
            add(&mut table, k, Q::Dflt(i), None, Some(format!("rt::dflt::<{t}>")));
            match n {
                Named::Enum(items) => {
                    let all: Vec<String> = items.iter().map(|y| x.item(i, y.1)).collect();
                    let all = all.join(", ");
                    let mut b = String::from("let n = i32::from_be_bytes([b[0], b[1], b[2], b[3]]); let mut s = ::std::string::String::new(); use ::std::fmt::Write;\n");
                    b.push_str(&format!("let all = || ::std::vec![{all}];\n"));
                    b.push_str("for (i, x) in all().into_iter().enumerate() { for (j, y) in all().into_iter().enumerate() { if (x == y) != (i == j) { s.push_str(\"unequal \"); } } }\n");
                    b.push_str("for x in all() {\n");
                    match j.mode.e {
                        EM::Std => b.push_str(&format!(
                            "let _ = write!(s, \"{{}}:{{}} \", *<{t} as ::std::convert::AsRef<i32>>::as_ref(&x), <i32 as ::std::convert::From<{t}>>::from(x.clone()));\n"
                        )),
                        EM::Indexer => b.push_str(&format!(
                            "let _ = write!(s, \"{{}}:{{:?}} \", <{t} as ::serde_xdr::XdrIndexer>::index(&x), <{t} as ::serde_xdr::XdrIndexer>::name_by_index(x.clone() as i32).ok());\n"
                        )),
                        EM::Complement => {}
                    }
                    b.push_str("let _ = write!(s, \"{} \", x as i32); }\n");
                    if j.mode.e == EM::Std {
                        b.push_str(&format!("let _ = write!(s, \"/ {{:?}}\", <{t} as ::std::convert::TryFrom<i32>>::try_from(n).ok());\n"));
                    }
                    b.push_str("format!(\"V \\t{s}\")");
                    add(&mut table, k, Q::Enum(i), Some(b), None);
                }
                Named::Union(u) => {
                    match j.mode.u {
                        UM::Indexer => {
                            let b = format!(
                                "let n = i32::from_be_bytes([b[0], b[1], b[2], b[3]]); let s = <{t} as ::serde_xdr::XdrIndexer>::name_by_index(n).ok();
                                if b.len() == 4 {{ return format!(\"V \\t{{s:?}}\"); }}
                                match ::serde_xdr::from_bytes::<{t}>(b) {{ Ok(v) => format!(\"V \\t{{s:?}} {{}}\", ::serde_xdr::XdrIndexer::index(&v)), Err(e) => format!(\"E {{e:?}}\") }}"
                            );
                            add(&mut table, k, Q::Union(i), Some(b), None);
                        }
                        UM::Union => {
                            let d = match &u.disc {
                                W::Bool => "n == 1".to_string(),
                                W::U32 => "n as u32".to_string(),
                                W::N(e) => {
                                    let Named::Enum(items) = &j.m.named[*e].1 else { unreachable!() };
                                    let a: String = items.iter().map(|y| format!("{}i32 => {},", y.1, x.item(*e, y.1))).collect();
                                    format!("match n {{ {a} _ => return ::std::string::String::from(\"E\") }}").replace("-2147483648i32", "i32::MIN")
                                }
                                _ => "n".to_string(),
                            };
                            let b = format!(
                                "let n = i32::from_be_bytes([b[0], b[1], b[2], b[3]]); let d = {d}; let s = <{t} as ::serde_xdr::XdrUnion<_>>::name_by_value(&d).ok(); format!(\"V \\t{{s:?}}\")"
                            );
                            add(&mut table, k, Q::Union(i), Some(b), None);
                        }
                        UM::Complement => {}
                    }
                }
                _ => {}
            }
            // Values made from the public parts.
            let w = W::N(i);
            let tries = if matches!(n, Named::Enum(_)) { 1 } else { 3 };
            for _ in 0..tries {
                let mut fuel = *r.pick(&[6, 12, 25]);
                let v = j.m.value(&w, r, &mut fuel);
                let mut f = BTreeSet::new();
                j.m.findings(&w, &v, &j.mode, &mut f);
                if !f.is_empty() {
                    ctx.count("values outside (known findings)");
                    continue;
                }
                let b = format!("rt::made::<{t}>({})", x.expr(&w, &v, false));
                add(&mut table, k, Q::Made(i, v), Some(b), None);
            }
        }
        if !j.m.consts.is_empty() {
            let mut b = String::from("let mut s = ::std::string::String::new(); use ::std::fmt::Write;\n");
            for (n, _) in &j.m.consts {
                b.push_str(&format!("let _ = write!(s, \"{{}} \", m{k}::{});\n", rust_name(n)));
            }
            b.push_str("format!(\"V \\t{s}\")");
            add(&mut table, k, Q::Consts, Some(b), None);
        }
    }
    let main = format!("{funs}\nfn main() {{ rt::serve(&[{list}]) }}\n");
    let mods: Vec<String> = jobs.iter().map(|j| j.code.clone()).collect();
    match crates::compile(rt, dir, &mods, Some(&main), edition) {
        Built::Ok(exe) => match Runner::new(&exe) {
            Ok(runner) => Some(Prog { jobs, runner, table }),
            Err(e) => {
                ctx.inconclusive(&format!("the program does not start: {e}"));
                None
            }
        },
        Built::Refused(ds) => {
            p_run::report(ctx, &jobs, &ds, edition);
            None
        }
        Built::Failed(e) => {
            ctx.inconclusive(&format!("no compiler: {e}"));
            None
        }
    }
}

fn near(r: &mut Rng, declared: &[i32]) -> i32 {
    let z = *r.pick(declared);
    match r.below(8) {
        0 => z,
        1 => *r.pick(&[-1, i32::MIN, i32::MAX, 0, 1, 2]),
        2 => r.next() as i32,
        3 => z.swap_bytes(),
        4 => *r.pick(&[!z, z.wrapping_neg(), z.wrapping_mul(2), z >> 1, z as i16 as i32, z as u8 as i32, z.wrapping_add(i32::MIN)]),
        5 => z ^ (1 << r.below(32)),
        _ => z.wrapping_add(r.range(-2, 2) as i32),
    }
}

fn judge(ctx: &mut Ctx, r: &mut Rng, mut p: Prog) {
    for k in 0..p.table.len() {
        let (ji, q) = &p.table[k];
        let j = &p.jobs[*ji];
        let (m, mode) = (&j.m, &j.mode);
        let mut seen = |what: &str, key: String, ctx: &mut Ctx| {
            ctx.eval();
            ctx.count(what);
            ctx.distinct(hash(key.as_bytes()));
        };
        let blame = |what: &str, a: &Answer| format!("{what}: {a:?}\n{}\nfile:\n{}\ncode:\n{}", mode.name(), j.text, j.code);
        match q {
            Q::Consts => {
                let a = p.runner.ask(k, &[]);
                let want: String = m.consts.iter().map(|c| format!("{} ", c.1)).collect();
                match &a {
                    Answer::Value(_, s) if *s == want => seen("files whose constants have their values", want, ctx),
                    Answer::None(e) => return ctx.inconclusive(e),
                    a => return ctx.violation(&blame(&format!("the constants should be {want}"), a)),
                }
            }
            Q::Made(i, v) => {
                let w = W::N(*i);
                let mut e = Enc::default();
                m.encode(&w, v, &mut e);
                let want = m.debug(&w, v, mode, false);
                let a = p.runner.ask(k, &[]);
                match &a {
                    Answer::Value(Ok(b), s) if *b == e.b && *s == want => seen("values made by the program", format!("{}{want}", mode.name()), ctx),
                    Answer::None(e) => return ctx.inconclusive(e),
                    a => return ctx.violation(&blame(&format!("the value {want} made by the program should encode as {}", hexs(&e.b)), a)),
                }
            }
            Q::Dflt(i) => {
                let w = W::N(*i);
                let name = &m.named[*i].0;
                if m.outside(*i, mode) {
                    ctx.count("types outside (known findings)");
                    continue;
                }
                let a = p.runner.ask(k, &[]);
                let (b, s) = match &a {
                    Answer::Value(Ok(b), s) => (b.clone(), s.clone()),
                    Answer::None(e) => return ctx.inconclusive(e),
                    a => return ctx.violation(&blame(&format!("the default value of {name}"), a)),
                };
                let mut at = 0;
                let v = m.decode(&w, &b, &mut at);
                let ok = match &v {
                    Some(v) => at == b.len() && m.empty(&w, v) && m.debug(&w, v, mode, false) == s,
                    None => false,
                };
                if !ok {
                    return ctx.violation(&blame(
                        &format!(
                            "the default value of {name} is {s}, its bytes {} mean {}",
                            hexs(&b),
                            v.map(|v| m.debug(&w, &v, mode, false)).unwrap_or("nothing the file allows".into())
                        ),
                        &a,
                    ));
                }
                if !b.is_empty() {
                    match p.runner.ask(k, &b) {
                        Answer::Value(Ok(c), t) if c == b && t == s => {}
                        Answer::None(e) => return ctx.inconclusive(&e),
                        a => return ctx.violation(&blame(&format!("the default value of {name}, {s}, decoded again"), &a)),
                    }
                }
                seen("default values", format!("{}{name}{s}{}", mode.name(), hexs(&b)), ctx);
                // Clones.
                for _ in 0..2 {
                    let mut fuel = 20;
                    let v = m.value(&w, r, &mut fuel);
                    let mut e = Enc::default();
                    m.encode(&w, &v, &mut e);
                    let mut f = BTreeSet::new();
                    m.findings(&w, &v, mode, &mut f);
                    if !f.is_empty() || e.b.is_empty() {
                        continue;
                    }
                    let want = m.debug(&w, &v, mode, false);
                    match p.runner.ask(k, &e.b) {
                        Answer::Value(Ok(c), t) if c == e.b && t == want => seen("clones", format!("{}{want}", mode.name()), ctx),
                        Answer::None(e) => return ctx.inconclusive(&e),
                        a => return ctx.violation(&blame(&format!("a clone of {want}"), &a)),
                    }
                }
            }
            Q::Enum(i) => {
                let Named::Enum(items) = &m.named[*i].1 else { unreachable!() };
                let declared: Vec<i32> = items.iter().map(|x| x.1).collect();
                let head: String = items
                    .iter()
                    .map(|x| match mode.e {
                        EM::Std => format!("{0}:{0} {0} ", x.1),
                        EM::Indexer => format!("{0}:{1:?} {0} ", x.1, Some(&x.0)),
                        EM::Complement => format!("{} ", x.1),
                    })
                    .collect();
                let mut asked: Vec<i32> = if declared.len() <= 12 { declared.clone() } else { (0..12).map(|_| *r.pick(&declared)).collect() };
                asked.extend((0..24).map(|_| near(r, &declared)));
                if mode.e != EM::Std {
                    asked.truncate(1);
                }
                for n in asked {
                    let item = items.iter().find(|x| x.1 == n).map(|x| x.0.as_str());
                    let want = match (mode.e, item) {
                        (EM::Std, Some(x)) => format!("{head}/ Some({x})"),
                        (EM::Std, None) => format!("{head}/ None"),
                        _ => head.clone(),
                    };
                    match p.runner.ask(k, &n.to_be_bytes()) {
                        Answer::Value(_, s) if s == want => {
                            ctx.count(if item.is_some() { "declared numbers" } else { "undeclared numbers" });
                            seen("questions to enumerations", format!("{}{want}{n}", mode.name()), ctx);
                        }
                        Answer::None(e) => return ctx.inconclusive(&e),
                        a => return ctx.violation(&blame(&format!("the enumeration {}, asked about {n}, should say {want}", m.named[*i].0), &a)),
                    }
                }
            }
            Q::Union(i) => {
                let Named::Union(u) = &m.named[*i].1 else { unreachable!() };
                let known: Vec<i32> = u.arms.iter().map(|a| a.1 as u32 as i32).collect();
                let mut asked = known.clone();
                asked.truncate(20);
                asked.extend((0..16).map(|_| near(r, &known)));
                for n in asked {
                    let arm = u.arms.iter().find(|a| a.1 as u32 as i32 == n).map(|a| a.0.as_str());
                    let name = match arm {
                        Some(x) => Some(x),
                        None if u.default.is_some() => Some("Default"),
                        None => None,
                    };
                    if mode.u == UM::Union {
                        match &u.disc {
                            W::Bool if n != 0 && n != 1 => continue,
                            W::N(e) if matches!(&m.named[*e].1, Named::Enum(items) if !items.iter().any(|x| x.1 == n)) => continue,
                            _ => {}
                        }
                    } else if arm.is_none() && u.default.is_some() && matches!(u.disc, W::Bool | W::N(_)) {
                        // The name of a number that the discriminant's type cannot have.
                        continue;
                    }
                    let want = format!("{name:?}");
                    match p.runner.ask(k, &n.to_be_bytes()) {
                        Answer::Value(_, s) if s == want => {
                            ctx.count(if arm.is_some() { "declared discriminants" } else { "undeclared discriminants" });
                            seen("questions to unions", format!("{}{}{want}{n}", mode.name(), m.named[*i].0), ctx);
                        }
                        Answer::None(e) => return ctx.inconclusive(&e),
                        a => return ctx.violation(&blame(&format!("the union {}, asked about {n}, should say {want}", m.named[*i].0), &a)),
                    }
                }
                if mode.u != UM::Indexer {
                    continue;
                }
                for _ in 0..4 {
                    let w = W::N(*i);
                    let mut fuel = 15;
                    let v = m.value(&w, r, &mut fuel);
                    let mut f = BTreeSet::new();
                    m.findings(&w, &v, mode, &mut f);
                    let V::U(d, Some(a), _) = &v else { continue };
                    if !f.is_empty() {
                        continue;
                    }
                    let mut e = Enc::default();
                    m.encode(&w, &v, &mut e);
                    let want = format!("{:?} {}", Some(&u.arms[*a].0), *d as u32 as i32);
                    if e.b.len() == 4 {
                        continue;
                    }
                    match p.runner.ask(k, &e.b) {
                        Answer::Value(_, s) if s == want => seen("indexes of union values", format!("{}{want}{}", mode.name(), hexs(&e.b)), ctx),
                        Answer::None(e) => return ctx.inconclusive(&e),
                        a => return ctx.violation(&blame(&format!("the value {} of a union should say {want}", m.debug(&w, &v, mode, false)), &a)),
                    }
                }
            }
        }
    }
    for j in &p.jobs {
        p_run::kinds(ctx, j);
    }
    let t = p.jobs[0].text.clone();
    ctx.sample(|| t);
}

fn g12(ctx: &mut Ctx) {
    let Some(rt) = p_run::with_rt(ctx) else { return };
    let dir = p_run::work_dir("g12");
    ctx.cases(1, 8, |ctx, r| {
        let js = p_run::matrix(ctx, r, (ctx.shard + ctx.nth()) as usize, ctx.nshards as usize, false);
        if js.is_empty() {
            return;
        }
        ctx.note(|| js[0].text.clone());
        let edition = if r.bool() { "2021" } else { "2024" };
        if let Some(p) = build(ctx, r, &rt, &dir, js, edition) {
            judge(ctx, r, p);
        }
    });
    ctx.cases(1, 12, |ctx, r| {
        let js = p_run::discriminants(ctx, r);
        if js.is_empty() {
            return;
        }
        ctx.note(|| js[0].text.clone());
        let edition = if r.bool() { "2021" } else { "2024" };
        if let Some(p) = build(ctx, r, &rt, &dir, js, edition) {
            judge(ctx, r, p);
        }
    });
    ctx.cases(12, 330, |ctx, r| {
        let mut js = vec![];
        for _ in 0..2 {
            js.extend(p_run::jobs(ctx, r, 3, 9, true));
        }
        if js.is_empty() {
            return;
        }
        ctx.note(|| js.iter().map(|j| format!("---- {}\n{}", j.mode.name(), j.text)).collect::<String>());
        let edition = if r.bool() { "2021" } else { "2024" };
        if let Some(p) = build(ctx, r, &rt, &dir, js, edition) {
            judge(ctx, r, p);
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}

pub const G12: Spec = Spec {
    prop: "G12",
    rule: "random meaningful files and the file with every combination are generated, compiled together with a program that makes values from the public parts of the types (structure literals, variants, items), takes default values and clones, casts and converts enumeration items, asks for names by number, and reads constants; every answer is compared with the interface file through an independent model, encoder and decoder; distinct by mode and value or question",
    assumptions: &[
        "debug text is that of derived Debug",
        "values and types under known findings of G06 and G07 are left out, and so are the names of undeclared numbers of indexer enumerations (G07 K3)",
    ],
    must_observe: &[
        "values made by the program",
        "default values",
        "clones",
        "declared numbers",
        "undeclared numbers",
        "declared discriminants",
        "undeclared discriminants",
        "indexes of union values",
        "files whose constants have their values",
    ],
    worker: g12,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

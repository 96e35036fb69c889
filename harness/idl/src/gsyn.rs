//! Arbitrary members of the grammar, meaningful or not.
use crate::ast::*;
use mon::Rng;

const NAMES: &[&str] = &[
    "a", "b", "foo", "Bar", "FOO", "foo_bar", "FOO_BAR", "fooBar", "userID", "x1", "_x", "_", "__", "a_", "T", "type", "match", "self", "Self",
    "crate", "super", "char", "short", "TRUE", "FALSE", "voidish", "void_", "integer", "int1", "inta", "unsigned_", "unsignedint", "hyper2",
    "floaty", "doubles", "boolean", "bools", "enumx", "enums", "structure", "struct_a", "unions", "union_", "opaquex", "opaque_", "strings",
    "string1", "constant", "const_x", "typedefs", "typedef1", "cases", "case_", "case1", "caseX", "defaults", "default_", "switches", "switch_",
    "programs", "versions", "version2", "quadruples", "program_", "Void", "Int", "CASE", "DEFAULT", "Option", "Vec", "String", "Box", "Result",
    "a0", "value", "index", "x_", "reserved", "_Reserved0", "r0", "ABCdef", "aB", "a1b2", "O0", "x0x", "e1", "l", "zZ9_",
];

/// A name that has a word of the language in it, at its beginning, its end, or in another case.
fn near(r: &mut Rng) -> String {
    let w = *r.pick(RESERVED);
    let s = match r.below(10) {
        0 => format!("{w}_"),
        1 => format!("{w}{}", r.pick(&["_t", "__", "_1", "_x", "_T", "_int", "_a_b", "_link", "_opaque"])),
        2 => format!("{w}{}", r.pick(&["0", "1", "9", "64", "7x"])),
        3 => format!("{w}{}", r.pick(&["s", "x", "A", "Z", "int", "link", "e", "d", "ed"])),
        4 => format!("{w}{}", r.pick(RESERVED)),
        5 => format!("{w}_{}", r.pick(RESERVED)),
        6 => format!("_{w}"),
        7 => format!("{}{w}", r.pick(&["x", "un", "my_", "A", "a1", "a_", "const", "X_"])),
        8 => w.to_uppercase(),
        _ => {
            let c: Vec<char> = w.chars().collect();
            match r.below(3) {
                // One letter short, one letter doubled, one letter capital.
                0 => c[..c.len() - 1].iter().collect(),
                1 => w.chars().chain([c[c.len() - 1]]).collect(),
                _ => {
                    let i = r.usize(c.len());
                    c.iter().enumerate().map(|(k, x)| if k == i { if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() } } else { *x }).collect()
                }
            }
        }
    };
    if RESERVED.contains(&s.as_str()) { format!("{s}_") } else { s }
}

pub fn name(r: &mut Rng) -> String {
    match r.below(9) {
        1 | 2 | 3 => near(r),
        4 if r.one_in(40) => {
            let n = *r.pick(&[63usize, 64, 65, 255, 256, 257, 1023, 4096, 70000]);
            let c = *r.pick(&["a", "Z", "_", "a1", "a_"]);
            c.repeat(n)
        }
        5 if r.one_in(3) => match r.word_name() {
            Some(w) if !RESERVED.contains(&w.as_str()) => w,
            _ => "word".to_string(),
        },
        0 => {
            let n = 1 + r.usize(12);
            let mut s = String::new();
            for i in 0..n {
                let cs = if i == 0 {
                    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
                } else {
                    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
                };
                s.push(cs.as_bytes()[r.usize(cs.len())] as char);
            }
            if RESERVED.contains(&s.as_str()) { "n".to_string() } else { s }
        }
        _ => r.pick(NAMES).to_string(),
    }
}

pub fn num(r: &mut Rng) -> Num {
    match r.below(12) {
        0 => Num::Dec("0".into()),
        1 => Num::Oct("0".into()),
        2 => Num::Dec(format!("-{}", 1 + r.mag(31))),
        3 => Num::Hex(format!("{:x}", r.mag(64))),
        4 => Num::Hex(format!("00{:X}", r.mag(32))),
        5 => Num::Oct(format!("{:o}", r.mag(40))),
        6 => Num::Dec(r.mag(64).to_string()),
        7 => Num::Dec(format!("{}{}", 1 + r.below(9), r.next())),
        _ => Num::Dec(r.below(40).to_string()),
    }
}

pub fn val(r: &mut Rng) -> Val {
    if r.one_in(3) { Val::Id(name(r)) } else { Val::N(num(r)) }
}

pub fn items(r: &mut Rng) -> Vec<(String, Val)> {
    (0..1 + r.usize(5)).map(|_| (name(r), val(r))).collect()
}

pub fn decl(r: &mut Rng, depth: u32) -> Decl {
    let ov = |r: &mut Rng| if r.bool() { Some(val(r)) } else { None };
    match r.below(14) {
        0 => Decl::Void,
        1 => Decl::OpF(name(r), val(r)),
        2 => {
            let v = ov(r);
            Decl::OpV(name(r), v)
        }
        3 => {
            let v = ov(r);
            Decl::Str(name(r), v)
        }
        _ => {
            let t = ty(r, depth);
            let k = match r.below(7) {
                0 => Kind::Fixed(val(r)),
                1 => Kind::Var(None),
                2 => Kind::Var(Some(val(r))),
                3 => Kind::Ptr,
                _ => Kind::Plain,
            };
            Decl::T(t, name(r), k)
        }
    }
}

fn fields(r: &mut Rng, depth: u32) -> Vec<Decl> {
    (0..1 + r.usize(if depth == 0 { 2 } else { 5 })).map(|_| decl(r, depth)).collect()
}

pub fn ubody(r: &mut Rng, depth: u32) -> UBody {
    let cond = if r.one_in(8) { decl(r, depth) } else { Decl::T(ty(r, 0), name(r), Kind::Plain) };
    let cases = (0..1 + r.usize(4)).map(|_| ((0..1 + r.usize(3)).map(|_| val(r)).collect(), decl(r, depth))).collect();
    let default = if r.bool() { Some(decl(r, depth)) } else { None };
    UBody { cond, cases, default }
}

pub fn ty(r: &mut Rng, depth: u32) -> Ty {
    let n = if depth == 0 { 16 } else { 22 };
    match r.below(n) {
        0 => Ty::Int(true),
        1 => Ty::Int(false),
        2 => Ty::Hyper(true),
        3 => Ty::Hyper(false),
        4 => Ty::Char(true),
        5 => Ty::Char(false),
        6 => Ty::Short(true),
        7 => Ty::Short(false),
        8 => Ty::Float,
        9 => Ty::Double,
        10 => Ty::Quad,
        11 => Ty::Bool,
        12..=15 => Ty::Id(name(r)),
        16 | 17 => Ty::Enum(items(r)),
        18 | 19 => Ty::Struct(fields(r, depth - 1)),
        _ => Ty::Union(Box::new(ubody(r, depth - 1))),
    }
}

fn pty(r: &mut Rng, depth: u32) -> Ty {
    if r.one_in(3) { Ty::Void } else { ty(r, depth) }
}

pub fn def(r: &mut Rng, depth: u32) -> Def {
    match r.below(12) {
        0 | 1 => Def::Const(name(r), val(r)),
        2 | 3 => Def::Typedef(decl(r, depth)),
        4 | 5 => Def::Enum(name(r), items(r)),
        6..=8 => Def::Struct(name(r), fields(r, depth)),
        9 | 10 => Def::Union(name(r), ubody(r, depth)),
        _ => {
            let vs = (0..1 + r.usize(3))
                .map(|_| {
                    let ps = (0..1 + r.usize(3))
                        .map(|_| {
                            let d = if r.one_in(4) { depth.min(1) } else { 0 };
                            Proc { res: pty(r, d), name: name(r), arg: pty(r, d), num: val(r) }
                        })
                        .collect();
                    (name(r), ps, val(r))
                })
                .collect();
            Def::Program(name(r), vs, val(r))
        }
    }
}

/// Says something twice: a definition, a member, an item, a label, a case, a version, a procedure.
/// Nothing in the grammar forbids it.
fn twice(r: &mut Rng, ds: &mut Vec<Def>) {
    fn again<T: Clone>(v: &mut Vec<T>, r: &mut Rng) {
        let i = r.usize(v.len());
        let x = v[i].clone();
        let at = if r.bool() { i + 1 } else { r.usize(v.len() + 1) };
        v.insert(at, x);
    }
    fn dtwice(d: &mut Decl, r: &mut Rng) {
        if let Decl::T(t, _, _) = d {
            match t {
                Ty::Enum(i) => again(i, r),
                Ty::Struct(f) => ftwice(f, r),
                Ty::Union(u) => utwice(u, r),
                _ => {}
            }
        }
    }
    fn ftwice(f: &mut Vec<Decl>, r: &mut Rng) {
        if r.bool() {
            again(f, r);
        } else {
            let i = r.usize(f.len());
            dtwice(&mut f[i], r);
        }
    }
    fn utwice(u: &mut UBody, r: &mut Rng) {
        let i = r.usize(u.cases.len());
        match r.below(5) {
            0 => again(&mut u.cases, r),
            1 | 2 => again(&mut u.cases[i].0, r),
            3 => dtwice(&mut u.cases[i].1, r),
            _ => u.default = Some(u.cases[i].1.clone()),
        }
    }
    if ds.is_empty() {
        return;
    }
    let i = r.usize(ds.len());
    match &mut ds[i] {
        _ if r.one_in(4) => again(ds, r),
        Def::Enum(_, v) => again(v, r),
        Def::Struct(_, f) => ftwice(f, r),
        Def::Union(_, u) => utwice(u, r),
        Def::Typedef(d) => dtwice(d, r),
        Def::Program(_, vs, _) => {
            let k = r.usize(vs.len());
            if r.bool() { again(vs, r) } else { again(&mut vs[k].1, r) }
        }
        Def::Const(..) => again(ds, r),
    }
}

/// One definition with a long list in it.
pub fn long(r: &mut Rng, n: usize) -> Def {
    let nm = |r: &mut Rng, i: usize| if r.one_in(3) { name(r) } else { format!("m{i}") };
    match r.below(7) {
        0 => Def::Enum(name(r), (0..n).map(|i| (nm(r, i), val(r))).collect()),
        1 => Def::Struct(name(r), (0..n).map(|_| decl(r, 0)).collect()),
        2 => {
            let mut u = ubody(r, 0);
            u.cases = (0..n).map(|_| (vec![val(r)], decl(r, 0))).collect();
            Def::Union(name(r), u)
        }
        3 => {
            let mut u = ubody(r, 0);
            u.cases[0].0 = (0..n).map(|_| val(r)).collect();
            Def::Union(name(r), u)
        }
        4 => {
            let p = (0..n).map(|i| Proc { res: pty(r, 0), name: nm(r, i), arg: pty(r, 0), num: val(r) }).collect();
            Def::Program(name(r), vec![(name(r), p, val(r))], val(r))
        }
        5 => {
            let v = (0..n).map(|i| (nm(r, i), vec![Proc { res: pty(r, 0), name: nm(r, i), arg: pty(r, 0), num: val(r) }], val(r))).collect();
            Def::Program(name(r), v, val(r))
        }
        _ => Def::Typedef(Decl::T(Ty::Enum((0..n).map(|i| (nm(r, i), val(r))).collect()), name(r), Kind::Plain)),
    }
}

/// A file whose own reading by the reference parser is unambiguous.
pub fn file(r: &mut Rng) -> (Vec<Def>, Vec<Tok>) {
    loop {
        let n = r.usize(9);
        let depth = r.below(4) as u32;
        let mut ds: Vec<Def> = (0..n).map(|_| def(r, depth)).collect();
        if r.one_in(4) {
            twice(r, &mut ds);
        }
        let lengthy = r.one_in(100);
        if lengthy {
            let n = *r.pick(&[40usize, 100, 127, 128, 129, 255, 256, 257, 500, 1000]) + r.usize(2);
            ds.push(long(r, n));
        }
        let toks = tokens(&ds, Some(r));
        if toks.len() > 3000 && !lengthy {
            continue;
        }
        let ts: Vec<String> = toks.iter().map(|t| t.t.clone()).collect();
        if parse_tokens(&ts).as_ref() == Some(&ds) {
            return (ds, toks);
        }
    }
}

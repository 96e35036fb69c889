//! The meaning of an interface file: numbers, wire types, values, encodings and how the generated
//! types show themselves when printed for debugging.
use crate::ast::*;
use crate::modes::{EM, Mode, UM};
use crate::names;
use mon::Rng;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
    Bool,
    Str(usize),
    OpF(usize),
    OpV(usize),
    Fix(Box<W>, usize),
    Var(Box<W>, usize),
    Opt(Box<W>),
    /// An enumeration, structure or union: its place in `named`.
    N(usize),
    /// Only for derived types: the wrapper type around variable opaque data.
    Wrap,
    Tup(Vec<W>),
    Unit,
}

#[derive(Clone, Debug)]
pub enum Named {
    Enum(Vec<(String, i32)>),
    Struct(Vec<(String, W)>),
    Union(Union),
    Derived(Derived),
}

/// A Rust enum that derives the indexer or union form.
#[derive(Clone, Debug)]
pub struct Derived {
    pub union: bool,
    /// Indexer: a signed 32 bit integer.
    pub disc: W,
    pub arms: Vec<DArm>,
    /// The arm of every discriminant that no arm lists; without one, the mapping refuses them.
    pub other: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct DArm {
    pub name: String,
    /// Without the discriminant.
    pub fields: Vec<W>,
    /// The discriminants that mean it; the first is what an indexer writes.
    pub nums: Vec<V>,
    /// Written `Name()`.
    pub parens: bool,
}

#[derive(Clone, Debug)]
pub struct Union {
    pub disc: W,
    /// Variant name, discriminant, payload.
    pub arms: Vec<(String, i64, Option<W>)>,
    pub default: Option<Option<W>>,
}

#[derive(Clone, Debug)]
pub struct Model {
    /// In declaration order. The names are the Rust names.
    pub named: Vec<(String, Named)>,
    pub raw: HashMap<String, usize>,
    pub consts: Vec<(String, i128)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i128),
    F32(u32),
    F64(u64),
    B(bool),
    S(String),
    O(Vec<u8>),
    L(Vec<V>),
    Opt(Option<Box<V>>),
    E(i32),
    /// Discriminant, arm (none: the default arm), payload.
    U(i64, Option<usize>, Option<Box<V>>),
    /// Discriminant, arm, fields.
    D(Box<V>, usize, Vec<V>),
}

/// Resolves names to numbers.
pub struct Nums<'a> {
    consts: HashMap<&'a str, &'a Val>,
    items: HashMap<&'a str, &'a Val>,
}

impl<'a> Nums<'a> {
    pub fn new(defs: &'a [Def]) -> Self {
        let mut consts = HashMap::new();
        let mut items = HashMap::new();
        for d in defs {
            match d {
                Def::Const(n, v) => {
                    consts.entry(n.as_str()).or_insert(v);
                }
                Def::Enum(_, i) => {
                    for (n, v) in i {
                        items.entry(n.as_str()).or_insert(v);
                    }
                }
                _ => {}
            }
        }
        Nums { consts, items }
    }
    pub fn val(&self, v: &Val) -> Option<i128> {
        let mut v = v;
        for _ in 0..10_000 {
            match v {
                Val::N(n) => return n.value(),
                Val::Id(s) => v = self.consts.get(s.as_str()).or_else(|| self.items.get(s.as_str()))?,
            }
        }
        None
    }
}

impl Model {
    /// For files of the supported kind only.
    pub fn new(defs: &[Def]) -> Option<Model> {
        let nums = Nums::new(defs);
        let mut m = Model { named: vec![], raw: HashMap::new(), consts: vec![] };
        let mut typedefs: HashMap<&str, &Decl> = HashMap::new();
        for d in defs {
            match d {
                Def::Const(n, v) => m.consts.push((names::ident(n), nums.val(v)?)),
                Def::Typedef(d) => {
                    typedefs.insert(d.name(), d);
                }
                Def::Enum(n, _) | Def::Struct(n, _) | Def::Union(n, _) => {
                    m.raw.insert(n.clone(), m.named.len());
                    m.named.push((names::camel(n), Named::Enum(vec![])));
                }
                Def::Program(..) => {}
            }
        }
        let mut out = vec![];
        for d in defs {
            out.push(match d {
                Def::Enum(_, items) => {
                    let mut v = vec![];
                    for (n, x) in items {
                        v.push((names::camel(n), i32::try_from(nums.val(x)?).ok()?));
                    }
                    v.sort_by_key(|x| x.1);
                    Named::Enum(v)
                }
                Def::Struct(_, f) => {
                    let mut v = vec![];
                    for d in f {
                        v.push((names::snake(d.name()), m.decl(d, &typedefs, &nums)??));
                    }
                    Named::Struct(v)
                }
                Def::Union(_, u) => {
                    let disc = m.decl(&u.cond, &typedefs, &nums)??;
                    let mut arms = vec![];
                    for (ls, d) in &u.cases {
                        let p = m.decl(d, &typedefs, &nums)?;
                        for l in ls {
                            let (name, num) = match l {
                                Val::Id(s) if disc == W::Bool => (names::camel(s), (s == "TRUE") as i128),
                                Val::Id(s) => (names::camel(s), nums.val(l)?),
                                Val::N(n) => (format!("Case{}", n.value()?), n.value()?),
                            };
                            arms.push((name, i64::try_from(num).ok()?, p.clone()));
                        }
                    }
                    arms.sort_by_key(|a| a.1);
                    let default = match &u.default {
                        Some(d) => Some(m.decl(d, &typedefs, &nums)?),
                        None => None,
                    };
                    Named::Union(Union { disc, arms, default })
                }
                _ => continue,
            });
        }
        for (i, n) in out.into_iter().enumerate() {
            m.named[i].1 = n;
        }
        Some(m)
    }

    fn decl(&self, d: &Decl, td: &HashMap<&str, &Decl>, nums: &Nums) -> Option<Option<W>> {
        let max = |v: &Option<Val>| -> usize {
            match v {
                None => usize::MAX,
                Some(v) => nums.val(v).map(|x| x.max(0) as usize).unwrap_or(usize::MAX),
            }
        };
        Some(Some(match d {
            Decl::Void => return Some(None),
            Decl::OpF(_, v) => W::OpF(nums.val(v)? as usize),
            Decl::OpV(_, v) => W::OpV(max(v)),
            Decl::Str(_, v) => W::Str(max(v)),
            Decl::T(t, _, k) => {
                let w = match t {
                    Ty::Int(true) => W::I32,
                    Ty::Int(false) => W::U32,
                    Ty::Hyper(true) => W::I64,
                    Ty::Hyper(false) => W::U64,
                    Ty::Char(true) => W::I8,
                    Ty::Char(false) => W::U8,
                    Ty::Short(true) => W::I16,
                    Ty::Short(false) => W::U16,
                    Ty::Float => W::F32,
                    Ty::Double => W::F64,
                    Ty::Bool => W::Bool,
                    Ty::Id(s) => match td.get(s.as_str()) {
                        Some(d) => self.decl(d, td, nums)??,
                        None => W::N(*self.raw.get(s)?),
                    },
                    _ => return None,
                };
                match k {
                    Kind::Plain => w,
                    Kind::Ptr => W::Opt(Box::new(w)),
                    Kind::Fixed(v) => W::Fix(Box::new(w), nums.val(v)? as usize),
                    Kind::Var(v) => W::Var(Box::new(w), max(v)),
                }
            }
        }))
    }

    /// Everything a type is made of.
    pub fn closure(&self, i: usize) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        let mut todo = vec![i];
        fn walk(w: &W, out: &mut Vec<usize>) {
            match w {
                W::N(i) => out.push(*i),
                W::Fix(w, _) | W::Var(w, _) | W::Opt(w) => walk(w, out),
                W::Tup(v) => v.iter().for_each(|w| walk(w, out)),
                _ => {}
            }
        }
        while let Some(i) = todo.pop() {
            if !s.insert(i) {
                continue;
            }
            match &self.named[i].1 {
                Named::Enum(_) => {}
                Named::Struct(f) => f.iter().for_each(|x| walk(&x.1, &mut todo)),
                Named::Derived(d) => {
                    walk(&d.disc, &mut todo);
                    d.arms.iter().flat_map(|a| &a.fields).for_each(|w| walk(w, &mut todo));
                }
                Named::Union(u) => {
                    walk(&u.disc, &mut todo);
                    for a in &u.arms {
                        if let Some(w) = &a.2 {
                            walk(w, &mut todo);
                        }
                    }
                    if let Some(Some(w)) = &u.default {
                        walk(w, &mut todo);
                    }
                }
            }
        }
        s
    }
}

// ---------------------------------------------------------------- values

const STRINGS: &[&str] = &["", "a", "ab", "abc", "abcd", "abcde", "é", "値", "\0", "\"\\\n", "𝄞", "x y\tz", "\u{7f}\u{80}", "the quick brown fox jumps"];

impl Model {
    fn len(&self, r: &mut Rng, max: usize, fuel: &mut i64) -> usize {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.usize(9),
            3 if *fuel > 100 => 5 + r.usize(30),
            _ => r.usize(4),
        };
        if *fuel <= 0 { 0 } else { n.min(max) }
    }

    /// A random value; `fuel` bounds its size.
    pub fn value(&self, w: &W, r: &mut Rng, fuel: &mut i64) -> V {
        *fuel -= 1;
        let int = |r: &mut Rng, bits: u32, signed: bool| -> V {
            let m = r.mag(bits) as i128;
            V::I(if signed && m >= 1i128 << (bits - 1) { m - (1i128 << bits) } else { m })
        };
        match w {
            W::I8 => int(r, 8, true),
            W::U8 => int(r, 8, false),
            W::I16 => int(r, 16, true),
            W::U16 => int(r, 16, false),
            W::I32 => int(r, 32, true),
            W::U32 => int(r, 32, false),
            W::I64 => int(r, 64, true),
            W::U64 => int(r, 64, false),
            W::F32 => V::F32(match r.below(4) {
                0 => *r.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 1, 0x3f80_0000]),
                1 => (r.range(-1000, 1000) as f32 / 8.0).to_bits(),
                _ => r.next() as u32,
            }),
            W::F64 => V::F64(match r.below(4) {
                0 => *r.pick(&[0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, (0x7ff8 << 48) | 1, 1, 0x3ff0 << 48]),
                1 => (r.range(-1000, 1000) as f64 / 8.0).to_bits(),
                _ => r.next(),
            }),
            W::Bool => V::B(r.bool()),
            W::Str(max) => {
                let mut s = if r.bool() {
                    r.pick(STRINGS).to_string()
                } else {
                    let n = self.len(r, *max, fuel);
                    (0..n).map(|_| *r.pick(&['a', 'Z', '0', 'é', '値', ' ', '\0', '~'])).collect()
                };
                while s.len() > *max {
                    s.pop();
                }
                V::S(s)
            }
            W::OpF(n) => V::O(r.bytes(*n)),
            W::OpV(max) => {
                let n = self.len(r, *max, fuel);
                V::O(r.bytes(n))
            }
            W::Wrap => {
                let n = self.len(r, usize::MAX, fuel);
                V::O(r.bytes(n))
            }
            W::Fix(w, n) => V::L((0..*n).map(|_| self.value(w, r, fuel)).collect()),
            W::Var(w, max) => {
                let n = self.len(r, *max, fuel);
                V::L((0..n).map(|_| self.value(w, r, fuel)).collect())
            }
            W::Opt(w) => V::Opt(if *fuel > 0 && r.below(3) > 0 { Some(Box::new(self.value(w, r, fuel))) } else { None }),
            W::Tup(ws) => V::L(ws.iter().map(|w| self.value(w, r, fuel)).collect()),
            W::Unit => V::L(vec![]),
            W::N(i) => match &self.named[*i].1 {
                Named::Enum(items) => V::E(r.pick(items).1),
                Named::Struct(f) => V::L(f.iter().map(|x| self.value(&x.1, r, fuel)).collect()),
                Named::Derived(d) => {
                    let mut a = r.usize(d.arms.len());
                    let mut disc = None;
                    if let Some(o) = d.other {
                        if r.one_in(3) || d.arms[a].nums.is_empty() {
                            let x = self.value(&d.disc, r, fuel);
                            if !d.arms.iter().any(|a| a.nums.contains(&x)) {
                                disc = Some(x);
                                a = o;
                            }
                        }
                    }
                    while disc.is_none() && d.arms[a].nums.is_empty() {
                        a = r.usize(d.arms.len());
                    }
                    let disc = match disc {
                        Some(x) if d.union => x,
                        _ if d.union => r.pick(&d.arms[a].nums).clone(),
                        _ => {
                            while d.arms[a].nums.is_empty() {
                                a = r.usize(d.arms.len());
                            }
                            d.arms[a].nums[0].clone()
                        }
                    };
                    V::D(Box::new(disc), a, d.arms[a].fields.iter().map(|w| self.value(w, r, fuel)).collect())
                }
                Named::Union(u) => {
                    if u.default.is_some() && r.one_in(3) {
                        if let Some(d) = self.undeclared_disc(u, r) {
                            let p = u.default.as_ref().unwrap().as_ref().map(|w| Box::new(self.value(w, r, fuel)));
                            return V::U(d, None, p);
                        }
                    }
                    let a = r.usize(u.arms.len());
                    let p = u.arms[a].2.as_ref().map(|w| Box::new(self.value(w, r, fuel)));
                    V::U(u.arms[a].1, Some(a), p)
                }
            },
        }
    }

    /// A discriminant of the right type that no arm lists.
    pub fn undeclared_disc(&self, u: &Union, r: &mut Rng) -> Option<i64> {
        let known: BTreeSet<i64> = u.arms.iter().map(|a| a.1).collect();
        let c: Vec<i64> = match &u.disc {
            W::Bool => vec![0, 1],
            W::N(e) => match &self.named[*e].1 {
                Named::Enum(i) => i.iter().map(|x| x.1 as i64).collect(),
                _ => vec![],
            },
            d => {
                let mut c: Vec<i64> = (0..4).map(|_| r.mag(31) as i64).collect();
                for k in &known {
                    c.push(k + 1);
                    c.push(k - 1);
                }
                c.extend([0, 1, 2, i32::MAX as i64]);
                if *d == W::U32 {
                    c.push(u32::MAX as i64);
                } else {
                    c.extend([-1, i32::MIN as i64]);
                }
                c.retain(|x| if *d == W::U32 { (0..=u32::MAX as i64).contains(x) } else { (i32::MIN as i64..=i32::MAX as i64).contains(x) });
                c
            }
        };
        let c: Vec<i64> = c.into_iter().filter(|x| !known.contains(x)).collect();
        if c.is_empty() { None } else { Some(*r.pick(&c)) }
    }
}

// ---------------------------------------------------------------- encoding

#[derive(Clone, Debug, PartialEq)]
pub enum Mark {
    /// An enumeration on its own, of which type.
    Enum(usize),
    /// A union's discriminant, of which type.
    Disc(usize),
    Derived(usize),
    Bool,
    Flag,
    Len,
}

#[derive(Default)]
pub struct Enc {
    pub b: Vec<u8>,
    pub marks: Vec<(usize, Mark)>,
}

impl Enc {
    fn u32(&mut self, v: u32) {
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    fn mark(&mut self, m: Mark) {
        self.marks.push((self.b.len(), m));
    }
    fn opaque(&mut self, o: &[u8]) {
        self.b.extend_from_slice(o);
        while self.b.len() % 4 != 0 {
            self.b.push(0);
        }
    }
}

impl Model {
    pub fn encode(&self, w: &W, v: &V, e: &mut Enc) {
        match (w, v) {
            (W::I64 | W::U64, V::I(x)) => e.b.extend_from_slice(&(*x as u64).to_be_bytes()),
            (_, V::I(x)) => e.u32(*x as u32),
            (_, V::F32(x)) => e.u32(*x),
            (_, V::F64(x)) => e.b.extend_from_slice(&x.to_be_bytes()),
            (_, V::B(x)) => {
                e.mark(Mark::Bool);
                e.u32(*x as u32)
            }
            (_, V::S(s)) => {
                e.mark(Mark::Len);
                e.u32(s.len() as u32);
                e.opaque(s.as_bytes());
            }
            (W::OpF(_), V::O(o)) => e.opaque(o),
            (_, V::O(o)) => {
                e.mark(Mark::Len);
                e.u32(o.len() as u32);
                e.opaque(o);
            }
            (W::Fix(w, _), V::L(l)) => l.iter().for_each(|x| self.encode(w, x, e)),
            (W::Var(w, _), V::L(l)) => {
                e.mark(Mark::Len);
                e.u32(l.len() as u32);
                l.iter().for_each(|x| self.encode(w, x, e));
            }
            (W::Tup(ws), V::L(l)) => ws.iter().zip(l).for_each(|(w, x)| self.encode(w, x, e)),
            (W::Unit, _) => {}
            (W::Opt(w), V::Opt(o)) => {
                e.mark(Mark::Flag);
                e.u32(o.is_some() as u32);
                if let Some(x) = o {
                    self.encode(w, x, e);
                }
            }
            (W::N(i), V::E(x)) => {
                e.mark(Mark::Enum(*i));
                e.u32(*x as u32);
            }
            (W::N(i), V::L(l)) => {
                if let Named::Struct(f) = &self.named[*i].1 {
                    f.iter().zip(l).for_each(|((_, w), x)| self.encode(w, x, e));
                }
            }
            (W::N(i), V::D(d, a, l)) => {
                if let Named::Derived(t) = &self.named[*i].1 {
                    e.mark(Mark::Derived(*i));
                    self.encode(&t.disc, d, e);
                    t.arms[*a].fields.iter().zip(l).for_each(|(w, x)| self.encode(w, x, e));
                }
            }
            (W::N(i), V::U(d, a, p)) => {
                if let Named::Union(u) = &self.named[*i].1 {
                    e.mark(Mark::Disc(*i));
                    e.u32(*d as u32);
                    let w = match a {
                        Some(a) => &u.arms[*a].2,
                        None => u.default.as_ref().unwrap(),
                    };
                    if let (Some(w), Some(p)) = (w, p) {
                        self.encode(w, p, e);
                    }
                }
            }
            _ => panic!("value does not fit its type: {w:?} {v:?}"),
        }
    }

    /// The fewest bytes a value takes.
    fn least(&self, w: &W) -> usize {
        match w {
            W::I64 | W::U64 | W::F64 => 8,
            W::OpF(n) => n.div_ceil(4) * 4,
            W::Fix(_, 0) => 0,
            W::Fix(w, n) => n * self.least(w),
            W::Tup(ws) => ws.iter().map(|w| self.least(w)).sum(),
            W::Unit => 0,
            W::N(i) => match &self.named[*i].1 {
                Named::Struct(f) => f.iter().map(|x| self.least(&x.1)).sum(),
                Named::Derived(d) => self.least(&d.disc),
                _ => 4,
            },
            _ => 4,
        }
    }

    /// Whether a list of a type of its own may have elements that take no bytes: then a few bytes
    /// can announce any number of elements.
    pub fn empty_elements(&self, w: &W) -> bool {
        fn any(m: &Model, w: &W) -> bool {
            match w {
                W::Var(w, _) => m.least(w) == 0 || any(m, w),
                W::Fix(w, _) | W::Opt(w) => any(m, w),
                W::Tup(v) => v.iter().any(|w| any(m, w)),
                _ => false,
            }
        }
        let mut all = BTreeSet::new();
        fn roots(w: &W, out: &mut Vec<usize>) {
            match w {
                W::N(i) => out.push(*i),
                W::Fix(w, _) | W::Var(w, _) | W::Opt(w) => roots(w, out),
                W::Tup(v) => v.iter().for_each(|w| roots(w, out)),
                _ => {}
            }
        }
        let mut rs = vec![];
        roots(w, &mut rs);
        for i in rs {
            all.extend(self.closure(i));
        }
        any(self, w)
            || all.iter().any(|i| match &self.named[*i].1 {
                Named::Enum(_) => false,
                Named::Struct(f) => f.iter().any(|x| any(self, &x.1)),
                Named::Union(u) => u.arms.iter().filter_map(|a| a.2.as_ref()).chain(u.default.iter().flatten()).any(|w| any(self, w)),
                Named::Derived(d) => d.arms.iter().flat_map(|a| &a.fields).any(|w| any(self, w)),
            })
    }

    /// Why a value is outside what a mode is known to support (an entry of the findings file).
    pub fn findings(&self, w: &W, v: &V, m: &Mode, out: &mut BTreeSet<&'static str>) {
        match (w, v) {
            (W::Fix(w, _) | W::Var(w, _), V::L(l)) => l.iter().for_each(|x| self.findings(w, x, m, out)),
            (W::Opt(w), V::Opt(Some(x))) => self.findings(w, x, m, out),
            (W::N(i), V::L(l)) => {
                if let Named::Struct(f) = &self.named[*i].1 {
                    f.iter().zip(l).for_each(|((_, w), x)| self.findings(w, x, m, out));
                }
            }
            (W::N(i), V::E(_)) => {
                out.extend(self.enum_finding(*i, m));
            }
            (W::N(i), V::U(_, a, p)) => {
                let Named::Union(u) = &self.named[*i].1 else { return };
                if let W::N(e) = &u.disc {
                    if m.u == UM::Union {
                        out.extend(self.enum_finding(*e, m));
                    }
                }
                if a.is_none() && m.u != UM::Union {
                    out.insert("K4");
                }
                let w = match a {
                    Some(a) => u.arms[*a].2.as_ref(),
                    None => u.default.as_ref().unwrap().as_ref(),
                };
                match (w, p) {
                    (Some(W::OpF(_)), _) if m.u != UM::Complement => {
                        out.insert("K13");
                    }
                    (Some(w), Some(p)) => self.findings(w, p, m, out),
                    _ => {}
                }
            }
            _ => {}
        }
    }

    fn enum_finding(&self, i: usize, m: &Mode) -> Option<&'static str> {
        match &self.named[i].1 {
            Named::Enum(items) if m.e == EM::Complement && items.iter().any(|x| x.1 < 0) => Some("K5"),
            _ => None,
        }
    }

    // ------------------------------------------------------------ debug text

    fn enum_name(&self, i: usize, x: i32) -> String {
        match &self.named[i].1 {
            Named::Enum(items) => items.iter().find(|y| y.1 == x).map(|y| y.0.clone()).unwrap_or_else(|| format!("_Reserved{x}")),
            _ => unreachable!(),
        }
    }

    pub fn debug(&self, w: &W, v: &V, m: &Mode, wrap: bool) -> String {
        let list = |l: Vec<String>| format!("[{}]", l.join(", "));
        match (w, v) {
            (_, V::I(x)) => x.to_string(),
            (_, V::F32(x)) => format!("{:?}", f32::from_bits(*x)),
            (_, V::F64(x)) => format!("{:?}", f64::from_bits(*x)),
            (_, V::B(x)) => x.to_string(),
            (_, V::S(s)) => format!("{s:?}"),
            (_, V::O(o)) => {
                if wrap || *w == W::Wrap {
                    format!("VariableArray {{ data: {o:?} }}")
                } else {
                    format!("{o:?}")
                }
            }
            (W::Fix(w, _), V::L(l)) => list(l.iter().map(|x| self.debug(w, x, m, false)).collect()),
            (W::Var(w, _), V::L(l)) => list(l.iter().map(|x| self.debug(w, x, m, matches!(**w, W::OpV(_)))).collect()),
            (W::Tup(ws), V::L(l)) => {
                let s: Vec<String> = ws.iter().zip(l).map(|(w, x)| self.debug(w, x, m, false)).collect();
                if s.len() == 1 { format!("({},)", s[0]) } else { format!("({})", s.join(", ")) }
            }
            (W::Unit, _) => "()".to_string(),
            (W::Opt(_), V::Opt(None)) => "None".to_string(),
            (W::Opt(w), V::Opt(Some(x))) => format!("Some({})", self.debug(w, x, m, false)),
            (W::N(i), V::E(x)) => self.enum_name(*i, *x),
            (W::N(i), V::L(l)) => {
                let Named::Struct(f) = &self.named[*i].1 else { unreachable!() };
                let s: Vec<String> = f.iter().zip(l).map(|((n, w), x)| format!("{n}: {}", self.debug(w, x, m, false))).collect();
                format!("{} {{ {} }}", self.named[*i].0, s.join(", "))
            }
            (W::N(i), V::D(d, a, l)) => {
                let Named::Derived(t) = &self.named[*i].1 else { unreachable!() };
                let arm = &t.arms[*a];
                let mut parts = vec![];
                if t.union {
                    parts.push(self.debug(&t.disc, d, m, false));
                }
                parts.extend(arm.fields.iter().zip(l).map(|(w, x)| self.debug(w, x, m, false)));
                let name = arm.name.trim_start_matches("r#");
                if parts.is_empty() { name.to_string() } else { format!("{name}({})", parts.join(", ")) }
            }
            (W::N(i), V::U(d, a, p)) => {
                let Named::Union(u) = &self.named[*i].1 else { unreachable!() };
                let (name, w) = match a {
                    Some(a) => (u.arms[*a].0.clone(), u.arms[*a].2.as_ref()),
                    None => ("Default".to_string(), u.default.as_ref().unwrap().as_ref()),
                };
                let mut parts = vec![];
                if m.u == UM::Union {
                    parts.push(match &u.disc {
                        W::Bool => (*d == 1).to_string(),
                        W::N(e) => self.enum_name(*e, *d as i32),
                        _ => d.to_string(),
                    });
                }
                if let (Some(w), Some(p)) = (w, p) {
                    parts.push(self.debug(w, p, m, m.u != UM::Complement && matches!(w, W::OpV(_) | W::OpF(_))));
                }
                if parts.is_empty() { name } else { format!("{name}({})", parts.join(", ")) }
            }
            _ => panic!("value does not fit its type"),
        }
    }
}

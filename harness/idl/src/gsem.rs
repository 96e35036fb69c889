//! Self-contained, meaningful interface files.
use crate::ast::*;
use crate::names;
use mon::Rng;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Opts {
    /// Every enumeration value and case label is small, so that the modes that write out all
    /// numbers in between are usable.
    pub dense: bool,
    pub types: usize,
    pub consts: usize,
    /// Negative enumeration values.
    pub negative: bool,
    pub programs: bool,
    /// Only plain, unremarkable names.
    pub plain_names: bool,
}

impl Opts {
    pub fn any(r: &mut Rng) -> Opts {
        Opts {
            dense: r.bool(),
            types: 1 + r.usize(10),
            consts: r.usize(6),
            negative: r.one_in(3),
            programs: r.one_in(3),
            plain_names: r.one_in(4),
        }
    }
}

/// What a type name stands for, as far as the generator of uses must know.
#[derive(Clone, Copy, PartialEq)]
enum Cls {
    Enum,
    Struct,
    Union,
    /// A typedef of something that is not opaque data.
    Plain,
    OpF,
    OpV,
}

struct G<'a> {
    r: &'a mut Rng,
    o: Opts,
    raw: HashSet<String>,
    types: HashSet<String>,
    consts: HashMap<String, i128>,
    cidents: HashSet<String>,
    items: Vec<(String, i128)>,
    enums: Vec<(String, Vec<(String, i128)>)>,
    /// Names whose type is a signed or unsigned integer, or an enumeration, through typedefs.
    alias: Vec<(String, Alias)>,
    ranked: Vec<(String, Cls)>,
    /// Structures and unions that exist or will exist: only usable where the size stays finite.
    all: Vec<String>,
    defs: Vec<Def>,
    /// What most names start with.
    prefix: String,
}

#[derive(Clone)]
enum Alias {
    Int(bool),
    Bool,
    Enum(usize),
}

const WORDS: &[&str] = &[
    "name", "size", "data", "list", "node", "entry", "flags", "mode", "user", "group", "path", "file", "dir", "attr", "time", "id", "kind", "state",
    "domain", "host", "port", "key", "val", "code", "err", "status", "reply", "args", "ret", "max", "len", "buf", "x", "y", "z", "n", "net", "pool",
];
const ODD_TYPES: &[&str] = &[
    "option", "Option", "result", "String", "Vec", "Box", "Clone", "Debug", "Default", "From", "Into", "TryFrom", "AsRef", "Ok", "Err", "Some", "None",
    "self", "Self", "crate", "super", "type", "match", "fn", "u8", "i32", "str", "usize", "_1", "_x", "x_", "a__b", "T", "D", "S", "E", "A", "Sized", "Copy",
    "ABC", "aBC", "a_BC", "Error", "error", "std", "serde", "core", "iter", "Iterator", "drop", "ToString", "Send", "vec", "fmt", "Result", "bool_", "PartialEq",
];
const ODD_ITEMS: &[&str] = &[
    "Ok", "Err", "Some", "None", "Error", "error", "Value", "value", "self", "Self", "crate", "super", "type", "match", "A", "b", "_2", "_y", "y_", "X1", "Type",
    "ERROR", "OK", "Clone", "Output", "Target", "Item", "Vec", "String", "Option", "index", "E_", "Eq", "loop", "true", "false", "Box", "Result",
];

fn sorted(m: &HashMap<String, i128>) -> Vec<String> {
    let mut v: Vec<String> = m.keys().cloned().collect();
    v.sort();
    v
}

impl G<'_> {
    fn base(&mut self) -> String {
        let b = self.word();
        if !self.prefix.is_empty() && self.r.below(4) > 0 { format!("{}{b}", self.prefix) } else { b }
    }
    /// A name that is easily taken for another one.
    fn neighbour(&mut self, of: Vec<String>) -> Option<String> {
        if of.is_empty() || !self.r.one_in(8) {
            return None;
        }
        let s = self.r.pick(&of).clone();
        Some(match self.r.below(7) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            2 => s + "_MAX",
            3 => s + "1",
            4 => s + "_",
            5 => s[..s.len() - 1].to_string(),
            _ => format!("N{s}"),
        })
        .filter(|s| !s.is_empty())
    }
    fn word(&mut self) -> String {
        let n = 1 + self.r.usize(3);
        let ws: Vec<&str> = (0..n).map(|_| *self.r.pick(WORDS)).collect();
        let d = if self.r.one_in(4) { self.r.below(30).to_string() } else { String::new() };
        match self.r.below(5) {
            0 | 1 => ws.join("_") + &d,
            2 => (ws.join("_") + &d).to_uppercase(),
            3 => {
                let mut s = ws[0].to_string();
                for w in &ws[1..] {
                    s.push_str(&w[..1].to_uppercase());
                    s.push_str(&w[1..]);
                }
                s + &d
            }
            _ => {
                let mut s = String::new();
                for w in &ws {
                    s.push_str(&w[..1].to_uppercase());
                    if self.r.one_in(5) {
                        s.push_str(&w[1..].to_uppercase());
                    } else {
                        s.push_str(&w[1..]);
                    }
                }
                s + &d
            }
        }
    }
    fn odd(&mut self) -> bool {
        !self.o.plain_names && self.r.one_in(6)
    }
    /// One of the odd names, or one that occurs in the generator itself.
    fn odd_name(&mut self, l: &[&str]) -> String {
        if self.r.one_in(5) {
            // These two name types of their own.
            if let Some(w) = self.r.word_name().filter(|w| w != "char" && w != "short") {
                return w;
            }
        }
        self.r.pick(l).to_string()
    }
    fn fresh_raw(&mut self, s: &str) -> bool {
        !RESERVED.contains(&s) && !self.raw.contains(s)
    }
    fn type_name(&mut self) -> String {
        loop {
            let s = if self.odd() { self.odd_name(ODD_TYPES) } else { self.base() };
            let c = names::camel(&s);
            if self.fresh_raw(&s)
                && !self.types.contains(&c)
                && !["Serialize", "Deserialize", "SerializeTuple", "XdrIndexer", "XdrUnion"].contains(&c.as_str())
            {
                self.raw.insert(s.clone());
                self.types.insert(c);
                return s;
            }
        }
    }
    fn item_name(&mut self, here: &mut HashSet<String>) -> String {
        loop {
            let s = if self.odd() {
                self.odd_name(ODD_ITEMS)
            } else {
                let near = self.items.iter().map(|x| x.0.clone()).chain(sorted(&self.consts)).collect();
                let b = match self.neighbour(near) {
                    Some(n) => n,
                    None => self.base(),
                };
                if self.r.one_in(3) { b.to_uppercase() } else { b }
            };
            let c = names::camel(&s);
            if self.fresh_raw(&s) && c != "Default" && here.insert(c) {
                self.raw.insert(s.clone());
                return s;
            }
        }
    }
    fn const_name(&mut self) -> String {
        loop {
            let s = if self.odd() {
                self.r.pick(&["type", "self", "match", "N", "C9", "max", "f", "other", "state", "len_", "Foo", "crate", "yield", "try", "x__y", "K"]).to_string()
            } else {
                let near = sorted(&self.consts).into_iter().chain(self.items.iter().map(|x| x.0.clone())).collect();
                match self.neighbour(near) {
                    Some(n) => n,
                    None => {
                        let b = self.base();
                        if self.r.one_in(3) { b } else { b.to_uppercase() }
                    }
                }
            };
            // A constant in lower case would capture a variable of that name in the generated
            // functions, whatever they happen to call theirs: such names get an ending.
            let plain = !s.bytes().any(|b| b.is_ascii_uppercase()) && !names::KEYWORDS.contains(&s.as_str());
            let s = if plain && !s.ends_with("_k") { format!("{s}_k") } else { s };
            let c = names::ident(&s);
            // Names that the generated code binds inside its functions.
            let numbered = |p: char| c.strip_prefix(p).is_some_and(|r| !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()));
            let bound = ["index", "value", "v", "seq", "ser", "variant", "formatter", "serializer", "deserializer", "Ok", "Err", "Some", "None"].contains(&c.as_str())
                || numbered('a')
                || numbered('r');
            if self.fresh_raw(&s) && !bound && !c.starts_with('_') && self.cidents.insert(c) {
                self.raw.insert(s.clone());
                return s;
            }
        }
    }
    fn field_name(&mut self, here: &mut HashSet<String>) -> String {
        loop {
            let s = if self.odd() {
                if self.r.bool() {
                    self.r.pick(names::KEYWORDS).to_string()
                } else {
                    self.odd_name(&["userID", "HTTPServer", "aB", "Ab", "ABc", "A_B", "aB2C", "x1y2", "ID", "_a", "a_", "_1", "_", "selfX", "SELF", "Type", "a__b", "value", "index", "seq", "v"])
                }
            } else {
                self.base()
            };
            if !RESERVED.contains(&s.as_str()) && here.insert(names::snake(&s)) {
                return s;
            }
        }
    }
    /// A way to write a number: a literal or a name that already stands for it.
    fn number(&mut self, v: i128) -> Val {
        if self.r.one_in(3) {
            let mut c: Vec<String> = self.consts.iter().filter(|(_, x)| **x == v).map(|(n, _)| n.clone()).collect();
            c.extend(self.items.iter().filter(|(_, x)| *x == v).map(|(n, _)| n.clone()));
            c.sort();
            if !c.is_empty() {
                return Val::Id(self.r.pick(&c).clone());
            }
            if v >= 0 && self.r.bool() {
                return Val::Id(self.konst(v));
            }
        }
        Val::N(Num::any(v, self.r))
    }
    fn konst(&mut self, v: i128) -> String {
        let n = self.const_name();
        let mut same: Vec<String> = self.consts.iter().filter(|(_, x)| **x == v).map(|(n, _)| n.clone()).collect();
        same.extend(self.items.iter().filter(|(_, x)| *x == v).map(|(n, _)| n.clone()));
        same.sort();
        let val = if !same.is_empty() && self.r.bool() { Val::Id(self.r.pick(&same).clone()) } else { Val::N(Num::any(v, self.r)) };
        self.defs.push(Def::Const(n.clone(), val));
        self.consts.insert(n.clone(), v);
        n
    }
    fn bound(&mut self) -> Option<Val> {
        if self.r.bool() {
            return None;
        }
        let v = match self.r.word_int() {
            Some(n) if self.r.one_in(8) => n as u32 as i128,
            _ => *self.r.pick(&[0i128, 1, 2, 3, 4, 5, 16, 255, 1024, 0x7fffffff, 0xffffffff]),
        };
        Some(self.number(v))
    }
    fn prim(&mut self) -> Ty {
        match self.r.below(13) {
            0 | 1 => Ty::Int(true),
            2 => Ty::Int(false),
            3 => Ty::Hyper(true),
            4 => Ty::Hyper(false),
            5 => Ty::Char(true),
            6 => Ty::Char(false),
            7 => Ty::Short(true),
            8 => Ty::Short(false),
            9 => Ty::Float,
            10 => Ty::Double,
            _ => Ty::Bool,
        }
    }
    /// A member. `me`: the structure being defined, when it may point to itself.
    fn decl(&mut self, name: String, me: Option<&str>) -> Decl {
        let len = |g: &mut Self, max: u64| {
            let n = if g.r.one_in(8) { *g.r.pick(&[0i128, 1, max as i128]) } else { g.r.below(max + 1) as i128 };
            g.number(n)
        };
        loop {
            return match self.r.below(18) {
                0 => {
                    let n = if self.r.one_in(6) { *self.r.pick(&[0i128, 31, 32, 30, 29]) } else { self.r.below(14) as i128 };
                    Decl::OpF(name, self.number(n))
                }
                1 => Decl::OpV(name, self.bound()),
                2 => Decl::Str(name, self.bound()),
                3 => Decl::T(self.prim(), name, Kind::Ptr),
                4 => {
                    let b = self.bound();
                    Decl::T(self.prim(), name, Kind::Var(b))
                }
                5 => {
                    let max = if self.r.one_in(5) { 32 } else { 6 };
                    let l = len(self, max);
                    Decl::T(self.prim(), name, Kind::Fixed(l))
                }
                6..=8 => Decl::T(self.prim(), name, Kind::Plain),
                9 if me.is_some() => {
                    let t = Ty::Id(me.unwrap().to_string());
                    if self.r.bool() {
                        Decl::T(t, name, Kind::Ptr)
                    } else {
                        let b = self.bound();
                        Decl::T(t, name, Kind::Var(b))
                    }
                }
                10 if !self.all.is_empty() => {
                    let t = self.r.pick(&self.all).clone();
                    let b = self.bound();
                    Decl::T(Ty::Id(t), name, Kind::Var(b))
                }
                _ if !self.ranked.is_empty() => {
                    // The latest ones more often, so that nesting gets deep.
                    let i = if self.r.bool() {
                        self.r.usize(self.ranked.len())
                    } else {
                        self.ranked.len() - 1 - self.r.usize(self.ranked.len().min(3))
                    };
                    let (t, c) = self.ranked[i].clone();
                    let k = match self.r.below(8) {
                        0 | 1 if !matches!(c, Cls::OpF | Cls::OpV) => Kind::Ptr,
                        2 | 3 if c != Cls::OpF => {
                            let b = self.bound();
                            Kind::Var(b)
                        }
                        4 if !matches!(c, Cls::OpF | Cls::OpV) => {
                            let l = len(self, 3);
                            Kind::Fixed(l)
                        }
                        _ => Kind::Plain,
                    };
                    Decl::T(Ty::Id(t), name, k)
                }
                _ => continue,
            };
        }
    }
    fn distinct_values(&mut self, n: usize, enumeration: bool) -> Vec<i128> {
        let mut s = HashSet::new();
        let mut v = vec![];
        let mut seq = if self.r.bool() { Some(self.r.below(4) as i128) } else { None };
        let mut tries = 0;
        while v.len() < n {
            tries += 1;
            let x = match seq.as_mut() {
                Some(k) => {
                    *k += if self.r.one_in(4) { 1 + self.r.below(5) as i128 } else { 1 };
                    *k - 1
                }
                None => {
                    if self.o.dense {
                        let m = *self.r.pick(&[8u64, 20, 60, 300]);
                        self.r.below(m) as i128
                    } else {
                        match self.r.below(4) {
                            0 => self.r.below(20) as i128,
                            1 => self.r.mag(31) as i128,
                            2 => *self.r.pick(&[i32::MAX as i128, 0, 1, 0x7ffffffe, 0x10000, 255, 256]),
                            _ => {
                                if enumeration && self.o.negative {
                                    *self.r.pick(&[-1i128, i32::MIN as i128, -2, -100, -(1 << 30)]) + self.r.below(2) as i128
                                } else {
                                    self.r.mag(20) as i128
                                }
                            }
                        }
                    }
                }
            };
            if self.o.negative && self.o.dense && enumeration && self.r.one_in(6) {
                let y = -(self.r.below(5) as i128);
                if s.insert(y) {
                    v.push(y);
                }
                continue;
            }
            if s.insert(x) {
                v.push(x);
            } else if tries > 200 {
                seq = Some(v.iter().max().copied().unwrap_or(0).min(i32::MAX as i128 - 1000) + 1);
                if let Some(k) = seq {
                    if s.contains(&k) {
                        s.insert(k);
                    }
                }
                tries = 0;
            }
        }
        v
    }
    fn enumeration(&mut self) {
        let name = self.type_name();
        let n = if self.r.one_in(8) { 12 + self.r.usize(40) } else { 1 + self.r.usize(6) };
        let vals = self.distinct_values(n, true);
        let mut here = HashSet::new();
        let mut items = vec![];
        let mut nums = vec![];
        for v in vals {
            let n = self.item_name(&mut here);
            let val = self.number(v);
            // A name defined by this very enumeration comes last, so it is never its own value.
            self.items.push((n.clone(), v));
            nums.push((n.clone(), v));
            items.push((n, val));
        }
        self.r.shuffle(&mut items);
        self.defs.push(Def::Enum(name.clone(), items));
        self.enums.push((name.clone(), nums));
        let i = self.enums.len() - 1;
        self.alias.push((name.clone(), Alias::Enum(i)));
        self.ranked.push((name, Cls::Enum));
    }
    fn structure(&mut self, name: String) {
        let n = if self.r.one_in(10) { 8 + self.r.usize(14) } else { 1 + self.r.usize(6) };
        let mut here = HashSet::new();
        let mut f = vec![];
        for _ in 0..n {
            let fname = self.field_name(&mut here);
            f.push(self.decl(fname, Some(&name.clone())));
        }
        self.defs.push(Def::Struct(name.clone(), f));
        self.ranked.push((name, Cls::Struct));
    }
    fn arm(&mut self) -> Decl {
        if self.r.one_in(4) {
            return Decl::Void;
        }
        let mut here = HashSet::new();
        let n = self.field_name(&mut here);
        self.decl(n, None)
    }
    fn union(&mut self, name: String) {
        let mut here = HashSet::new();
        let dname = self.field_name(&mut here);
        let mut default = self.r.one_in(3);
        let (cond, labels): (Ty, Vec<Val>) = match self.r.below(6) {
            0 => {
                let mut l = vec![Val::Id("TRUE".into()), Val::Id("FALSE".into())];
                self.r.shuffle(&mut l);
                if self.r.one_in(3) {
                    l.truncate(1);
                }
                let mut t = Ty::Bool;
                if self.r.bool() {
                    let a: Vec<String> = self.alias.iter().filter(|(_, a)| matches!(a, Alias::Bool)).map(|(n, _)| n.clone()).collect();
                    if !a.is_empty() {
                        t = Ty::Id(self.r.pick(&a).clone());
                    }
                }
                (t, l)
            }
            1 | 2 => {
                let mut signed = self.r.bool();
                let mut t = Ty::Int(signed);
                if self.r.one_in(3) {
                    let a: Vec<(String, bool)> =
                        self.alias.iter().filter_map(|(n, a)| if let Alias::Int(s) = a { Some((n.clone(), *s)) } else { None }).collect();
                    if !a.is_empty() {
                        let (n, s) = self.r.pick(&a).clone();
                        t = Ty::Id(n);
                        signed = s;
                    }
                }
                let n = 1 + self.r.usize(5);
                let mut vs = self.distinct_values(n, false);
                if !signed && !self.o.dense && self.r.one_in(3) {
                    let k = vs.len() - 1;
                    vs[k] = match self.r.below(3) {
                        0 => u32::MAX as i128 - self.r.below(2) as i128,
                        1 => (1 << 31) + self.r.below(3) as i128,
                        _ => (1 << 31) + self.r.mag(31) as i128,
                    };
                }
                let mut seen = HashSet::new();
                let l = vs
                    .into_iter()
                    .map(|v| {
                        let w = self.number(v);
                        match &w {
                            Val::Id(n) => {
                                let c = names::camel(n);
                                if c == "Default" || c.starts_with("Case") || !seen.insert(c) {
                                    return Val::N(Num::any(v, self.r));
                                }
                                w
                            }
                            _ => w,
                        }
                    })
                    .collect();
                (t, l)
            }
            _ => {
                if self.enums.is_empty() {
                    self.enumeration();
                }
                // Only enumerations without negative values can be switched on.
                let ok: Vec<(String, usize)> = self
                    .alias
                    .iter()
                    .filter_map(|(n, a)| match a {
                        Alias::Enum(i) if self.enums[*i].1.iter().any(|x| x.1 >= 0) => Some((n.clone(), *i)),
                        _ => None,
                    })
                    .collect();
                if ok.is_empty() {
                    (Ty::Int(true), vec![Val::N(Num::dec(0))])
                } else {
                    let (n, i) = self.r.pick(&ok).clone();
                    let mut l: Vec<Val> = self.enums[i].1.iter().filter(|x| x.1 >= 0).map(|x| Val::Id(x.0.clone())).collect();
                    self.r.shuffle(&mut l);
                    let k = 1 + self.r.usize(l.len().min(6));
                    if self.r.bool() {
                        l.truncate(k);
                    } else {
                        l.truncate(12);
                    }
                    if l.len() == self.enums[i].1.len() && self.r.bool() {
                        default = false;
                    }
                    (Ty::Id(n), l)
                }
            }
        };
        let mut cases: Vec<(Vec<Val>, Decl)> = vec![];
        for l in labels {
            if !cases.is_empty() && self.r.one_in(4) {
                cases.last_mut().unwrap().0.push(l);
            } else {
                let d = if self.r.one_in(12) {
                    let mut here = HashSet::new();
                    let n = self.field_name(&mut here);
                    let b = self.bound();
                    Decl::T(Ty::Id(name.clone()), n, Kind::Var(b))
                } else {
                    self.arm()
                };
                cases.push((vec![l], d));
            }
        }
        let default = if default { Some(self.arm()) } else { None };
        self.defs.push(Def::Union(name.clone(), UBody { cond: Decl::T(cond, dname, Kind::Plain), cases, default }));
        self.ranked.push((name, Cls::Union));
    }
    fn typedef(&mut self) {
        let name = self.type_name();
        let d = self.decl(name.clone(), None);
        let cls = match &d {
            Decl::OpF(..) => Cls::OpF,
            Decl::OpV(..) => Cls::OpV,
            Decl::T(Ty::Id(t), _, Kind::Plain) => {
                match self.ranked.iter().find(|x| &x.0 == t).map(|x| x.1) {
                    Some(Cls::OpF) => Cls::OpF,
                    Some(Cls::OpV) => Cls::OpV,
                    _ => Cls::Plain,
                }
            }
            _ => Cls::Plain,
        };
        match &d {
            Decl::T(Ty::Int(s), _, Kind::Plain) => self.alias.push((name.clone(), Alias::Int(*s))),
            Decl::T(Ty::Bool, _, Kind::Plain) => self.alias.push((name.clone(), Alias::Bool)),
            Decl::T(Ty::Id(t), _, Kind::Plain) => {
                if let Some((_, a)) = self.alias.iter().find(|x| &x.0 == t).cloned() {
                    self.alias.push((name.clone(), a));
                }
            }
            _ => {}
        }
        self.defs.push(Def::Typedef(d));
        self.ranked.push((name, cls));
    }
}

impl G<'_> {
    /// A long chain of typedefs.
    fn chain(&mut self) {
        self.typedef();
        for _ in 0..3 + self.r.usize(20) {
            let name = self.type_name();
            let (to, c) = self.ranked.last().unwrap().clone();
            self.defs.push(Def::Typedef(Decl::T(Ty::Id(to.clone()), name.clone(), Kind::Plain)));
            if let Some((_, a)) = self.alias.iter().find(|x| x.0 == to).cloned() {
                self.alias.push((name.clone(), a));
            }
            self.ranked.push((name, if c == Cls::OpF || c == Cls::OpV { c } else { Cls::Plain }));
        }
    }
}

pub fn file(r: &mut Rng, o: &Opts) -> Vec<Def> {
    let mut g = G {
        r,
        o: o.clone(),
        raw: HashSet::new(),
        types: HashSet::new(),
        consts: HashMap::new(),
        cidents: HashSet::new(),
        items: vec![],
        enums: vec![],
        alias: vec![],
        ranked: vec![],
        all: vec![],
        defs: vec![],
        prefix: String::new(),
    };
    if g.r.one_in(5) {
        let n = 2 + g.r.usize(10);
        let ws: Vec<&str> = (0..n).map(|_| *g.r.pick(WORDS)).collect();
        g.prefix = match g.r.below(3) {
            0 => ws.join("_") + "_",
            1 => (ws.join("_") + "_").to_uppercase(),
            _ => ws.concat(),
        };
    }
    for k in ["TRUE", "FALSE"] {
        g.raw.insert(k.to_string());
    }
    for _ in 0..o.consts {
        let v = match g.r.below(6) {
            0 => g.r.mag(64) as i128,
            1 => g.r.mag(32) as i128,
            2 => *g.r.pick(&[u32::MAX as i128, u32::MAX as i128 + 1, u64::MAX as i128, i32::MAX as i128, i32::MAX as i128 + 1]),
            _ => g.r.below(33) as i128,
        };
        g.konst(v);
    }
    if g.r.one_in(5) {
        // Long chains of names.
        let n = 3 + g.r.usize(20);
        let v = if o.dense || g.r.bool() { g.r.below(33) as i128 } else { g.r.mag(64) as i128 };
        let mut to = Val::N(Num::any(v, g.r));
        for _ in 0..n {
            let name = g.const_name();
            g.defs.push(Def::Const(name.clone(), to));
            g.consts.insert(name.clone(), v);
            to = Val::Id(name);
        }
    }
    // Names of structures and unions are known from the start, so that lists may run ahead.
    let mut plan: Vec<(u64, String)> = vec![];
    for _ in 0..o.types {
        let k = g.r.below(10);
        let n = if (2..=7).contains(&k) { g.type_name() } else { String::new() };
        if !n.is_empty() {
            g.all.push(n.clone());
        }
        plan.push((k, n));
    }
    for (k, n) in plan {
        match k {
            0 | 1 => g.enumeration(),
            2..=4 => g.structure(n),
            5..=7 => g.union(n),
            _ => {
                if g.r.one_in(3) {
                    // Integer and boolean aliases, for discriminants.
                    let name = g.type_name();
                    let (t, a) = match g.r.below(5) {
                        0 => (Ty::Bool, Alias::Bool),
                        n => (Ty::Int(n < 3), Alias::Int(n < 3)),
                    };
                    g.defs.push(Def::Typedef(Decl::T(t, name.clone(), Kind::Plain)));
                    g.alias.push((name.clone(), a));
                    g.ranked.push((name, Cls::Plain));
                } else if g.r.one_in(4) {
                    g.chain();
                } else {
                    g.typedef()
                }
            }
        }
    }
    if o.programs {
        let n = g.type_name();
        let p = Proc { res: Ty::Void, name: "CALL".into(), arg: Ty::Int(true), num: Val::N(Num::dec(1)) };
        g.defs.push(Def::Program(n, vec![("V1".into(), vec![p], Val::N(Num::dec(1)))], Val::N(Num::Hex("20000001".into()))));
    }
    let mut d = g.defs;
    if r.bool() {
        r.shuffle(&mut d);
    }
    d
}

// ---------------------------------------------------------------- every combination

/// Every kind of type in every kind of place, one part of it.
/// Whether a typedef names opaque data.
pub fn opaque_typedef(ds: &[Def]) -> bool {
    ds.iter().any(|d| matches!(d, Def::Typedef(Decl::OpF(..) | Decl::OpV(..))))
}

/// `opaque`: with typedefs of opaque data.
pub fn matrix(r: &mut Rng, part: usize, parts: usize, opaque: bool) -> Vec<Def> {
    let id = |s: &str| Ty::Id(s.to_string());
    let num = |v: i128| Val::N(Num::dec(v));
    let t = |ty: Ty, n: &str, k: Kind| Decl::T(ty, n.to_string(), k);
    let mut d: Vec<Def> = vec![
        Def::Enum("ed".into(), vec![("D_TWO".into(), num(2)), ("D_ZERO".into(), num(0)), ("D_ONE".into(), num(1))]),
        Def::Enum("eg".into(), vec![("G_FOUR".into(), num(4)), ("G_NINE".into(), num(9)), ("G_ONE".into(), num(1))]),
        Def::Struct("st".into(), vec![t(Ty::Int(true), "a", Kind::Plain), t(Ty::Hyper(false), "b", Kind::Plain)]),
        Def::Struct("sv".into(), vec![Decl::OpV("v".into(), None), Decl::Str("w".into(), Some(num(9)))]),
        Def::Union(
            "un".into(),
            UBody {
                cond: t(id("ed"), "d", Kind::Plain),
                cases: vec![
                    (vec![Val::Id("D_ZERO".into())], t(Ty::Int(true), "x", Kind::Plain)),
                    (vec![Val::Id("D_TWO".into())], Decl::Str("y".into(), None)),
                    (vec![Val::Id("D_ONE".into())], Decl::Void),
                ],
                default: None,
            },
        ),
    ];
    // Name, class.
    let mut bases: Vec<(Ty, String, Cls)> = vec![];
    let prims = [
        (Ty::Int(true), "i"),
        (Ty::Int(false), "ui"),
        (Ty::Hyper(true), "h"),
        (Ty::Hyper(false), "uh"),
        (Ty::Char(true), "c"),
        (Ty::Char(false), "uc"),
        (Ty::Short(true), "s"),
        (Ty::Short(false), "us"),
        (Ty::Float, "f"),
        (Ty::Double, "d"),
        (Ty::Bool, "b"),
    ];
    let mut tds: Vec<(Decl, Cls)> = vec![];
    for (ty, n) in &prims {
        bases.push((ty.clone(), n.to_string(), Cls::Plain));
        tds.push((t(ty.clone(), &format!("t_{n}"), Kind::Plain), Cls::Plain));
    }
    for n in ["ed", "eg", "st", "sv", "un"] {
        bases.push((id(n), n.to_string(), Cls::Struct));
        tds.push((t(id(n), &format!("t_{n}"), Kind::Plain), Cls::Plain));
    }
    let simple: Vec<(Ty, &str)> = vec![(Ty::Int(true), "i"), (Ty::Hyper(false), "uh"), (Ty::Bool, "b"), (id("eg"), "eg"), (id("st"), "st"), (id("un"), "un")];
    for (ty, n) in &simple {
        tds.push((t(ty.clone(), &format!("p_{n}"), Kind::Ptr), Cls::Plain));
        tds.push((t(ty.clone(), &format!("l_{n}"), Kind::Var(None)), Cls::Plain));
        tds.push((t(ty.clone(), &format!("lb_{n}"), Kind::Var(Some(num(3)))), Cls::Plain));
        tds.push((t(ty.clone(), &format!("f_{n}"), Kind::Fixed(num(3))), Cls::Plain));
    }
    tds.push((Decl::Str("str".into(), None), Cls::Plain));
    tds.push((Decl::Str("strb".into(), Some(num(8))), Cls::Plain));
    if opaque {
        tds.push((Decl::OpF("of".into(), num(5)), Cls::OpF));
        tds.push((Decl::OpV("ov".into(), None), Cls::OpV));
        tds.push((Decl::OpV("ovb".into(), Some(num(6))), Cls::OpV));
    }
    for (b, c) in [("of", Cls::OpF), ("ov", Cls::OpV), ("str", Cls::Plain), ("l_i", Cls::Plain), ("p_st", Cls::Plain), ("f_uh", Cls::Plain), ("t_eg", Cls::Plain), ("lb_st", Cls::Plain)] {
        if !opaque && c != Cls::Plain {
            continue;
        }
        tds.push((t(id(b), &format!("c_{b}"), Kind::Plain), c));
        tds.push((t(id(&format!("c_{b}")), &format!("cc_{b}"), Kind::Plain), c));
    }
    for b in ["l_i", "lb_st", "p_i", "p_un", "f_b", "f_st", "str"] {
        tds.push((t(id(b), &format!("vl_{b}"), Kind::Var(None)), Cls::Plain));
        tds.push((t(id(b), &format!("vf_{b}"), Kind::Fixed(num(2))), Cls::Plain));
        tds.push((t(id(b), &format!("vp_{b}"), Kind::Ptr), Cls::Plain));
    }
    for (x, c) in &tds {
        bases.push((id(x.name()), x.name().to_string(), *c));
    }
    // The declarations of this part.
    let mut decls: Vec<Decl> = vec![];
    let mut more: Vec<Decl> = vec![];
    let mut n = 0;
    for (i, (ty, bn, c)) in bases.iter().enumerate() {
        if i % parts != part % parts {
            continue;
        }
        let op = matches!(c, Cls::OpF | Cls::OpV);
        let kinds = [
            (Kind::Plain, true),
            (Kind::Ptr, !op),
            (Kind::Var(None), *c != Cls::OpF),
            (Kind::Var(Some(num(4))), *c != Cls::OpF),
            (Kind::Fixed(num(1 + r.below(3) as i128)), !op),
        ];
        for (k, ok) in kinds {
            if !ok {
                continue;
            }
            n += 1;
            decls.push(t(ty.clone(), &format!("m{n}"), k.clone()));
            let tn = format!("x{n}_{bn}");
            more.push(t(ty.clone(), &tn, k));
            decls.push(t(id(&tn), &format!("y{n}"), Kind::Plain));
        }
    }
    // The same at the end of a long chain of names.
    for (i, (ty, bn, c)) in bases.iter().enumerate() {
        if i % parts != part % parts {
            continue;
        }
        let depth = 2 + r.usize(9);
        let mut last = ty.clone();
        for k in 0..depth {
            let name = format!("z{k}_{i}_{bn}");
            more.push(t(last, &name, Kind::Plain));
            last = id(&name);
        }
        let op = matches!(c, Cls::OpF | Cls::OpV);
        let kinds = [(Kind::Plain, true), (Kind::Ptr, !op), (Kind::Var(None), *c != Cls::OpF), (Kind::Fixed(num(2)), !op)];
        for (k, ok) in kinds {
            if ok {
                n += 1;
                decls.push(t(last.clone(), &format!("m{n}"), k));
            }
        }
    }
    if part % 4 == 0 {
        for (i, b) in [None, Some(num(7)), Some(num(0x7fffffff))].into_iter().enumerate() {
            decls.push(Decl::Str(format!("str{i}"), b.clone()));
            decls.push(Decl::OpV(format!("ov{i}"), b));
        }
        for k in [0, 1, 2, 3, 4, 5, 8, 31, 32] {
            decls.push(Decl::OpF(format!("of{k}"), num(k)));
        }
    }
    r.shuffle(&mut decls);
    for (i, ch) in decls.chunks(6).enumerate() {
        d.push(Def::Struct(format!("s{i}"), ch.to_vec()));
    }
    r.shuffle(&mut decls);
    for (i, ch) in decls.chunks(6).enumerate() {
        let mut arms: Vec<Decl> = ch.to_vec();
        if i % 3 == 0 {
            arms.push(Decl::Void);
        }
        let default = if i % 4 == 1 { arms.pop() } else { None };
        let name = format!("u{i}");
        let u = match i % 4 {
            0 | 1 if arms.len() > 0 => {
                let mut at = r.below(3) as i128;
                let cases = arms
                    .into_iter()
                    .map(|a| {
                        let mut l = vec![num(at)];
                        at += 1 + r.below(2) as i128;
                        if r.one_in(4) {
                            l.push(num(at));
                            at += 1;
                        }
                        (l, a)
                    })
                    .collect();
                UBody { cond: t(Ty::Int(i % 8 < 4), "d", Kind::Plain), cases, default }
            }
            k => {
                let labels: &[&str] = match k {
                    2 => &["D_ONE", "D_ZERO", "D_TWO"],
                    _ => &["G_NINE", "G_ONE", "G_FOUR"],
                };
                arms.truncate(3);
                let cases = arms.into_iter().zip(labels).map(|(a, l)| (vec![Val::Id(l.to_string())], a)).collect::<Vec<_>>();
                if cases.is_empty() {
                    continue;
                }
                UBody { cond: t(id(if k == 2 { "ed" } else { "t_eg" }), "d", Kind::Plain), cases, default: None }
            }
        };
        d.push(Def::Union(name, u));
    }
    for (i, ch) in decls.chunks(2).enumerate() {
        // Every third pair decides on a boolean.
        if i % 3 != 0 {
            continue;
        }
        let cases = ch.iter().zip(["TRUE", "FALSE"]).map(|(a, l)| (vec![Val::Id(l.to_string())], a.clone())).collect();
        d.push(Def::Union(format!("b{i}"), UBody { cond: t(Ty::Bool, "d", Kind::Plain), cases, default: None }));
    }
    let mut v: Vec<Def> = tds.into_iter().map(|x| Def::Typedef(x.0)).collect();
    v.extend(more.into_iter().map(Def::Typedef));
    v.extend(d);
    if r.bool() {
        r.shuffle(&mut v);
    }
    v
}

/// Unions over every kind of discriminant, at the end of chains of names of every short length, with
/// labels at the edges of its range (small ones where `dense`), one or several for an arm, with and
/// without a default arm, for arms of several kinds.
pub fn discriminants(r: &mut Rng, dense: bool) -> Vec<Def> {
    let id = |s: &str| Ty::Id(s.to_string());
    let t = |ty: Ty, n: &str| Decl::T(ty, n.to_string(), Kind::Plain);
    let mut d: Vec<Def> = vec![];
    let mut named: Vec<(String, i128)> = vec![];
    // Names of numbers: constants, constants that name constants, and items.
    let span: Vec<i128> = if dense {
        vec![0, 1, 2, 3, 7, 31]
    } else {
        vec![0, 1, 2, 7, 255, 0x1_0000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff]
    };
    for (i, v) in span.iter().enumerate() {
        let n = format!("QC_{i}");
        d.push(Def::Const(n.clone(), Val::N(Num::any(*v, r))));
        let mut last = n;
        for k in 0..r.usize(4) {
            let x = format!("QN_{i}_{k}");
            d.push(Def::Const(x.clone(), Val::Id(last)));
            last = x;
        }
        named.push((last, *v));
    }
    let mut items: Vec<(String, i128)> = span.iter().filter(|v| **v <= i32::MAX as i128).enumerate().map(|(i, v)| (format!("QI_{i}"), *v)).collect();
    r.shuffle(&mut items);
    d.push(Def::Enum("qe".into(), items.iter().map(|(n, v)| (n.clone(), Val::N(Num::any(*v, r)))).collect()));
    let prefix = *r.pick(&["", "q_"]);
    let mut n = 0;
    for kind in 0..4 {
        let first = match kind {
            0 => Ty::Int(true),
            1 => Ty::Int(false),
            2 => id("qe"),
            _ => Ty::Bool,
        };
        let mut ty = first;
        for level in 0..4 {
            if level > 0 {
                let x = format!("q{kind}_{level}");
                d.push(Def::Typedef(t(ty, &x)));
                ty = id(&x);
            }
            for shape in 0..3 {
                n += 1;
                let mut labels: Vec<Val> = match kind {
                    0 | 1 => {
                        let top = if kind == 0 { i32::MAX as i128 } else { u32::MAX as i128 };
                        let mut l: Vec<(Option<String>, i128)> = span.iter().map(|v| (None, *v)).collect();
                        l.extend(named.iter().map(|(n, v)| (Some(n.clone()), *v)));
                        l.retain(|x| x.1 <= top);
                        r.shuffle(&mut l);
                        // Each number once.
                        let mut seen = HashSet::new();
                        l.retain(|x| seen.insert(x.1));
                        let most = if r.bool() { 5 } else { 12 };
                        // The greatest and the least ones stay.
                        l.sort_by_key(|x| (x.1 != top && x.1 != 0 && x.1 != i32::MAX as i128 + 1) as u8);
                        l.truncate(most);
                        r.shuffle(&mut l);
                        l.into_iter().map(|(n, v)| n.map_or_else(|| Val::N(Num::any(v, r)), Val::Id)).collect()
                    }
                    2 => {
                        let mut l: Vec<Val> = items.iter().map(|(n, _)| Val::Id(n.clone())).collect();
                        r.shuffle(&mut l);
                        if shape == 1 {
                            l.truncate(1 + r.usize(3));
                        }
                        l
                    }
                    _ => {
                        let mut l = vec![Val::Id("TRUE".into()), Val::Id("FALSE".into())];
                        r.shuffle(&mut l);
                        if shape == 1 {
                            l.truncate(1);
                        }
                        l
                    }
                };
                let arm = |r: &mut Rng, n: String| match r.below(6) {
                    0 => Decl::Void,
                    1 => t(Ty::Hyper(r.bool()), &n),
                    2 => Decl::Str(n, None),
                    3 => t(id("qe"), &n),
                    4 => Decl::T(Ty::Short(true), n, Kind::Ptr),
                    _ => Decl::T(Ty::Int(true), n, Kind::Var(None)),
                };
                let mut cases: Vec<(Vec<Val>, Decl)> = vec![];
                while let Some(l) = labels.pop() {
                    let mut l = vec![l];
                    while r.one_in(4) && !labels.is_empty() {
                        l.push(labels.pop().unwrap());
                    }
                    let a = arm(r, format!("{prefix}a{}", cases.len()));
                    cases.push((l, a));
                }
                let default = if shape == 2 || (shape == 1 && r.bool()) { Some(arm(r, format!("{prefix}rest"))) } else { None };
                let u = UBody { cond: t(ty.clone(), &format!("{prefix}d")), cases, default };
                d.push(Def::Union(format!("qu{n}"), u));
            }
        }
    }
    if r.bool() {
        r.shuffle(&mut d);
    }
    d
}

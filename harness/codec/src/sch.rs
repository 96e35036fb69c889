//! A dynamic model of XDR-encodable types: schema, value, independent reference encoder and
//! decoder (written from RFC 4506), and an implementation of serde's traits that drives the
//! real codec through every entry point of its data model.
use mon::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Serialize};
use serde_xdr::opaque;
use serde_xdr::primitive::signed32;
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MapKind {
    List,
    BTree,
    Hash,
}

/// Conversions used with `signed32`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rule {
    All,
    NonNeg,
    Sparse,
    /// The conversion does not keep the number: decoding n yields the item numbered 2n+1.
    Shift,
}
pub const RULES: [Rule; 4] = [Rule::All, Rule::NonNeg, Rule::Sparse, Rule::Shift];
pub const SPARSE: [i32; 9] = [i32::MIN, -70000, -1, 0, 1, 7, 255, 65536, i32::MAX];

impl Rule {
    /// What the conversion yields for a number, as the number the item then carries.
    pub fn conv(self, n: i32) -> Option<i32> {
        match self {
            Rule::All => Some(n),
            Rule::NonNeg => (n >= 0).then_some(n),
            Rule::Sparse => SPARSE.contains(&n).then_some(n),
            Rule::Shift => Some(n.wrapping_mul(2).wrapping_add(1)),
        }
    }
}

macro_rules! rule_ty {
    ($($n:ident $r:expr;)*) => {$(
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n(pub i32);
        impl AsRef<i32> for $n { fn as_ref(&self) -> &i32 { &self.0 } }
        impl TryFrom<i32> for $n {
            type Error = String;
            fn try_from(n: i32) -> Result<Self, String> { $r.conv(n).map($n).ok_or_else(|| "no".to_string()) }
        }
    )*};
}
rule_ty! { RAll Rule::All; RNonNeg Rule::NonNeg; RSparse Rule::Sparse; RShift Rule::Shift; }

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(Sch),
    Tup(Vec<Sch>),
    Rec(Vec<Sch>),
}

impl Var {
    pub fn members(&self) -> Vec<&Sch> {
        match self {
            Var::Unit => vec![],
            Var::New(s) => vec![s],
            Var::Tup(v) | Var::Rec(v) => v.iter().collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Sch {
    Unit,
    UnitStruct,
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
    Char,
    Str,
    Bytes,
    OpF(usize),
    OpV,
    OpW,
    S32(Rule),
    Opt(Box<Sch>),
    Seq(Box<Sch>),
    BSet(Box<Sch>),
    Arr(Box<Sch>, usize),
    Tup(Vec<Sch>),
    Map(MapKind, Box<Sch>, Box<Sch>),
    Struct(Vec<Sch>),
    TupStruct(Vec<Sch>),
    Newtype(Box<Sch>),
    Enum(Vec<(u32, Var)>),
    Lazy(fn() -> Sch),
    /// User code that fails (or panics) when it is encoded or, after a word, decoded.
    Bomb { panics: bool, before: bool },
}

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum Val {
    Unit,
    Bool(bool),
    I(i64),
    U(u64),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Variant(usize, Vec<Val>),
}

pub static FIELDS: [&str; 64] = [
    "f0", "f1", "type", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16",
    "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32",
    "f33", "f34", "f35", "f36", "f37", "f38", "f39", "f40", "f41", "f42", "f43", "f44", "f45", "f46", "f47", "f48",
    "f49", "f50", "f51", "f52", "f53", "f54", "f55", "f56", "f57", "f58", "f59", "f60", "f61", "f62", "f63",
];

thread_local! {
    pub static BOMB_ID: Cell<u64> = const { Cell::new(0) };
    static NAMES: Cell<u64> = const { Cell::new(0) };
    static WAY: Cell<u64> = const { Cell::new(0) };
    pub static ATTEMPTS: Cell<u64> = const { Cell::new(0) };
    static ROOT: RefCell<Option<Sch>> = const { RefCell::new(None) };
}

pub fn bomb_msg() -> String {
    let id = BOMB_ID.with(|b| b.get());
    // Some messages are long, and some are not tidy.
    let long = match id % 16 {
        0 => 5000,
        1 => 70_000,
        2 | 3 => 300,
        4 => 1000,
        _ => 0,
    };
    // Any byte of it may lie within a character.
    let script = ["untidy\n\t \u{0}text 値 ", "値", "é", "\u{1F4A3}"][(id / 128 % 4) as usize];
    let fill: String = script.chars().cycle().take(long).collect();
    let shift = &"...."[..(id / 512 % 4) as usize];
    format!("boom-{id:016x}: user \"refusal\" {{}} %s \u{1F4A3}{shift}{fill}|{}", ["", " ", "\n", "\r\n ", "\0", ".", "\u{feff}", ": "][(id / 16 % 8) as usize])
}

// ------------------------------------------------------------------ generation

pub fn gen_sch(r: &mut Rng, depth: u32) -> Sch {
    if depth == 0 || r.one_in(4) {
        return gen_leaf(r);
    }
    let d = depth - 1;
    match r.below(15) {
        0 | 1 => Sch::Opt(gen_sch(r, d).into()),
        2 | 3 => Sch::Seq(gen_nonzero(r, d).into()),
        4 => {
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33]);
            Sch::Arr(gen_sch(r, d.min(2)).into(), n)
        }
        5 => Sch::Tup(gen_many(r, d, 6)),
        6 => Sch::Map(MapKind::List, gen_nonzero(r, d.min(1)).into(), gen_sch(r, d).into()),
        7 | 8 => Sch::Struct(gen_many(r, d, 7)),
        9 => Sch::TupStruct(gen_many(r, d, 5)),
        10 => Sch::Newtype(gen_sch(r, d).into()),
        11 if r.one_in(3) => {
            // Wide: more members than any small-array shortcut expects.
            let n = 12 + r.usize(50);
            let v = (0..n).map(|_| gen_leaf(r)).collect();
            match r.below(3) {
                0 => Sch::Struct(v),
                1 => Sch::Tup(v),
                _ => Sch::TupStruct(v),
            }
        }
        _ => gen_enum(r, d),
    }
}

pub fn gen_many(r: &mut Rng, d: u32, max: u64) -> Vec<Sch> {
    let n = r.below(max + 1);
    (0..n).map(|_| gen_sch(r, d)).collect()
}

pub fn gen_nonzero(r: &mut Rng, d: u32) -> Sch {
    loop {
        let s = gen_sch(r, d);
        if min_size(&s, 0) > 0 {
            return s;
        }
    }
}

pub fn gen_enum(r: &mut Rng, d: u32) -> Sch {
    let n = 1 + r.below(6);
    let sparse = r.one_in(3);
    let mut used = vec![];
    let mut v = vec![];
    for i in 0..n {
        let idx = if sparse { r.mag(31) as u32 } else { i as u32 };
        if used.contains(&idx) {
            continue;
        }
        used.push(idx);
        let var = match r.below(4) {
            0 => Var::Unit,
            1 => Var::New(gen_sch(r, d)),
            2 => Var::Tup(gen_many(r, d, 4)),
            _ => Var::Rec(gen_many(r, d, 4)),
        };
        v.push((idx, var));
    }
    Sch::Enum(v)
}

pub fn gen_leaf(r: &mut Rng) -> Sch {
    match r.below(22) {
        0 => Sch::Unit,
        1 => Sch::UnitStruct,
        2 => Sch::Bool,
        3 => Sch::I8,
        4 => Sch::U8,
        5 => Sch::I16,
        6 => Sch::U16,
        7 => Sch::I32,
        8 => Sch::U32,
        9 => Sch::I64,
        10 => Sch::U64,
        11 => Sch::F32,
        12 => Sch::F64,
        13 => Sch::Char,
        14 | 15 => Sch::Str,
        16 => Sch::Bytes,
        17 | 18 => Sch::OpF(if r.one_in(6) && !cfg!(miri) { *r.pick(&BIG_N) } else { r.usize(41) }),
        19 => Sch::OpV,
        20 => Sch::OpW,
        _ => Sch::S32(*r.pick(&RULES)),
    }
}

/// Fewest bytes an encoding of the type can have.
pub fn min_size(s: &Sch, depth: u32) -> usize {
    if depth > 40 {
        return 4;
    }
    let d = depth + 1;
    match s {
        Sch::Unit | Sch::UnitStruct => 0,
        Sch::I64 | Sch::U64 | Sch::F64 => 8,
        Sch::OpF(n) => n.div_ceil(4) * 4,
        Sch::Arr(e, n) => min_size(e, d) * n,
        Sch::Tup(v) | Sch::Struct(v) | Sch::TupStruct(v) => v.iter().map(|x| min_size(x, d)).sum(),
        Sch::Newtype(e) => min_size(e, d),
        Sch::Enum(v) => {
            4 + v.iter().map(|(_, x)| x.members().iter().map(|m| min_size(m, d)).sum()).min().unwrap_or(0)
        }
        Sch::Lazy(f) => min_size(&f(), d),
        _ => 4,
    }
}

/// Nesting depth of containers.
pub fn levels(s: &Sch, depth: u32) -> u64 {
    if depth > 12 {
        return 0;
    }
    let d = depth + 1;
    match s {
        Sch::Opt(e) | Sch::Arr(e, _) | Sch::Newtype(e) | Sch::Seq(e) | Sch::BSet(e) => 1 + levels(e, d),
        Sch::Map(_, k, v) => 1 + levels(k, d) + levels(v, d),
        Sch::Tup(v) | Sch::Struct(v) | Sch::TupStruct(v) => 1 + v.iter().map(|x| levels(x, d)).sum::<u64>(),
        Sch::Enum(v) => 1 + v.iter().flat_map(|(_, x)| x.members()).map(|m| levels(m, d)).sum::<u64>(),
        Sch::Lazy(f) => levels(&f(), d),
        Sch::Str | Sch::Bytes | Sch::OpF(_) | Sch::OpV | Sch::OpW => 1,
        _ => 0,
    }
}

const TAILS: [&str; 20] = [
    "\r\n", "\n", "\r", " ", "  ", "\t", "\0", "\0\0\0", "\u{feff}", "\u{85}", "\u{2028}", "\u{fffd}", "\u{a0}", "\\", "\"", "/", "e\u{301}",
    "\u{1f468}\u{200d}", "%", ";",
];

pub fn gen_string(r: &mut Rng, n: usize) -> String {
    let mode = r.below(4);
    let mut s = String::new();
    if r.one_in(40) {
        // Text that occurs in the code.
        if let Some(t) = r.word_text().filter(|t| t.len() <= n) {
            s = t;
        }
    }
    while s.len() < n {
        let c = match (mode, r.below(4)) {
            (0, _) => (0x20 + r.below(95)) as u8 as char,
            (1, 0) | (2, _) => gen_char(r),
            (1, _) => (r.below(128)) as u8 as char,
            (_, 0) => 'é',
            (_, 1) => '\u{20AC}',
            (_, 2) => '\u{1F600}',
            _ => '\0',
        };
        s.push(c);
    }
    if n > 0 && r.one_in(6) {
        // Ends that some code tidies up.
        let t = *r.pick(&TAILS);
        if r.bool() {
            let mut cut = n.saturating_sub(t.len());
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s.truncate(cut);
            s.push_str(t);
        } else if t.len() <= n {
            s.insert_str(0, t);
        }
        let mut cut = s.len().min(n);
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        while s.len() < n {
            s.insert(0, 'z');
        }
    }
    // Characters of several bytes may overshoot: every length is still reached over the runs.
    if s.len() > n {
        s.pop();
        while s.len() < n {
            s.push('z');
        }
    }
    s
}

pub fn gen_char(r: &mut Rng) -> char {
    loop {
        let v = match r.below(6) {
            0 => *r.pick(&[0u32, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xfeff]),
            _ => r.mag(21) as u32,
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

pub fn gen_len(r: &mut Rng, fuel: &mut i64) -> usize {
    let n = match r.below(12) {
        0 | 1 => 0,
        2 | 3 => 1,
        4..=8 => r.usize(8),
        9 => r.usize(40),
        10 => match r.word_size(2000) {
            Some(n) if r.one_in(4) => n,
            _ => 30 + r.usize(40),
        },
        _ => *r.pick(&[3usize, 4, 5, 127, 128, 129, 255, 256, 257, 300]),
    };
    let n = n.min((*fuel).max(0) as usize);
    *fuel -= n as i64;
    n
}

fn int(r: &mut Rng, bits: u32) -> i64 {
    let v = r.mag(bits);
    let sh = 64 - bits;
    ((v << sh) as i64) >> sh
}

pub fn gen_val(r: &mut Rng, s: &Sch, fuel: &mut i64) -> Val {
    *fuel -= 1;
    match s {
        Sch::Unit | Sch::UnitStruct => Val::Unit,
        Sch::Bool => Val::Bool(r.bool()),
        Sch::I8 => Val::I(int(r, 8)),
        Sch::I16 => Val::I(int(r, 16)),
        Sch::I32 => Val::I(int(r, 32)),
        Sch::I64 => Val::I(int(r, 64)),
        Sch::U8 => Val::U(r.mag(8)),
        Sch::U16 => Val::U(r.mag(16)),
        Sch::U32 => Val::U(r.mag(32)),
        Sch::U64 => Val::U(r.mag(64)),
        Sch::F32 => Val::F32(match r.below(4) {
            3 => r.mag(32) as u32,
            0 => *r.pick(&[
                0u32, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0001, 0x7f80_0001,
                0xffff_ffff, 1, 0x8000_0001, 0x7f7f_ffff, 0x0080_0000,
            ]),
            1 => (r.range(-1000, 1000) as f32 / 8.0).to_bits(),
            _ => r.next() as u32,
        }),
        Sch::F64 => Val::F64(match r.below(4) {
            3 => r.mag(64),
            0 => *r.pick(&[
                0u64, 1 << 63, 0x3ff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0xfff8 << 48) | 1,
                (0x7ff0 << 48) | 1, u64::MAX, 1, (1 << 63) | 1, 0x7fef_ffff_ffff_ffff,
            ]),
            1 => (r.range(-1000, 1000) as f64 / 8.0).to_bits(),
            _ => r.next(),
        }),
        Sch::Char => Val::Char(gen_char(r)),
        Sch::Str => {
            let n = gen_len(r, fuel);
            Val::Str(gen_string(r, n))
        }
        Sch::Bytes | Sch::OpV | Sch::OpW => {
            let n = gen_len(r, fuel);
            Val::Bytes(r.bytes(n))
        }
        Sch::OpF(n) => Val::Bytes(r.bytes(*n)),
        Sch::S32(rule) => loop {
            let n = match r.below(3) {
                0 => *r.pick(&SPARSE),
                _ => int(r, 32) as i32,
            };
            // Only items whose number decodes back to themselves are values of the type.
            if rule.conv(n) == Some(n) || (*rule == Rule::Shift) {
                break Val::I(n as i64);
            }
        },
        Sch::Opt(e) => {
            if *fuel <= 0 || r.one_in(3) {
                Val::None
            } else {
                Val::Some(gen_val(r, e, fuel).into())
            }
        }
        Sch::Seq(e) => {
            let n = gen_len(r, fuel);
            let n = if levels(e, 0) > 2 { n.min(6) } else { n };
            Val::List((0..n).map(|_| gen_val(r, e, fuel)).collect())
        }
        Sch::BSet(e) => {
            let n = gen_len(r, fuel);
            let mut v: Vec<Val> = (0..n).map(|_| gen_val(r, e, fuel)).collect();
            v.sort();
            v.dedup();
            Val::List(v)
        }
        Sch::Arr(e, n) => Val::List((0..*n).map(|_| gen_val(r, e, fuel)).collect()),
        Sch::Tup(v) | Sch::Struct(v) | Sch::TupStruct(v) => Val::List(v.iter().map(|x| gen_val(r, x, fuel)).collect()),
        Sch::Map(kind, k, v) => {
            let n = gen_len(r, fuel).min(if levels(v, 0) > 2 { 5 } else { 60 });
            let n = if *kind == MapKind::Hash { n.min(1) } else { n };
            let m = (0..n).map(|_| (gen_val(r, k, fuel), gen_val(r, v, fuel))).collect();
            canon(s, Val::Map(m))
        }
        Sch::Newtype(e) => Val::List(vec![gen_val(r, e, fuel)]),
        Sch::Enum(v) => {
            let i = r.usize(v.len());
            Val::Variant(i, v[i].1.members().into_iter().map(|m| gen_val(r, m, fuel)).collect())
        }
        Sch::Lazy(f) => gen_val(r, &f(), fuel),
        Sch::Bomb { .. } => Val::Unit,
    }
}

/// The value a collection that orders or merges its entries holds after decoding.
pub fn canon(s: &Sch, v: Val) -> Val {
    match (s, v) {
        (Sch::Map(kind, ks, vs), Val::Map(m)) => {
            let m: Vec<(Val, Val)> = m.into_iter().map(|(k, v)| (canon(ks, k), canon(vs, v))).collect();
            if *kind == MapKind::List {
                Val::Map(m)
            } else {
                let b: std::collections::BTreeMap<Val, Val> = m.into_iter().collect();
                Val::Map(b.into_iter().collect())
            }
        }
        (Sch::BSet(e), Val::List(l)) => {
            let b: std::collections::BTreeSet<Val> = l.into_iter().map(|x| canon(e, x)).collect();
            Val::List(b.into_iter().collect())
        }
        (Sch::Opt(e), Val::Some(x)) => Val::Some(canon(e, *x).into()),
        (Sch::Seq(e) | Sch::Arr(e, _), Val::List(l)) => Val::List(l.into_iter().map(|x| canon(e, x)).collect()),
        (Sch::Tup(t) | Sch::Struct(t) | Sch::TupStruct(t), Val::List(l)) => {
            Val::List(t.iter().zip(l).map(|(s, x)| canon(s, x)).collect())
        }
        (Sch::Newtype(e), Val::List(mut l)) => Val::List(vec![canon(e, l.remove(0))]),
        (Sch::Enum(t), Val::Variant(i, l)) => {
            Val::Variant(i, t[i].1.members().into_iter().zip(l).map(|(s, x)| canon(s, x)).collect())
        }
        (Sch::Lazy(f), v) => canon(&f(), v),
        // Decoding n yields what the conversion gives for it.
        (Sch::S32(rule), Val::I(n)) => Val::I(rule.conv(n as i32).map(|x| x as i64).unwrap_or(n)),
        (_, v) => v,
    }
}

// ------------------------------------------------------------------ reference encoder

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    Count,
    StrLen,
    StrData,
    Pad,
    Flag,
    Bool,
    Disc,
    Small(u32, bool),
    Char,
    Num,
    Opaque,
}

#[derive(Default)]
pub struct Enc {
    pub out: Vec<u8>,
    /// (offset, length, what it is)
    pub map: Vec<(usize, usize, Role)>,
}

impl Enc {
    fn w32(&mut self, v: u32, role: Role) {
        self.map.push((self.out.len(), 4, role));
        for i in (0..4).rev() {
            self.out.push((v >> (8 * i)) as u8);
        }
    }
    fn w64(&mut self, v: u64) {
        self.map.push((self.out.len(), 8, Role::Num));
        for i in (0..8).rev() {
            self.out.push((v >> (8 * i)) as u8);
        }
    }
    fn raw(&mut self, b: &[u8], role: Role) {
        if !b.is_empty() {
            self.map.push((self.out.len(), b.len(), role));
        }
        self.out.extend_from_slice(b);
        let mut n = 0;
        while (b.len() + n) % 4 != 0 {
            self.out.push(0);
            n += 1;
        }
        if n > 0 {
            self.map.push((self.out.len() - n, n, Role::Pad));
        }
    }
    pub fn put(&mut self, s: &Sch, v: &Val) {
        match (s, v) {
            (Sch::Unit | Sch::UnitStruct, _) => {}
            (Sch::Bool, Val::Bool(b)) => self.w32(if *b { 1 } else { 0 }, Role::Bool),
            (Sch::I8, Val::I(n)) => self.w32(*n as i32 as u32, Role::Small(8, true)),
            (Sch::I16, Val::I(n)) => self.w32(*n as i32 as u32, Role::Small(16, true)),
            (Sch::U8, Val::U(n)) => self.w32(*n as u32, Role::Small(8, false)),
            (Sch::U16, Val::U(n)) => self.w32(*n as u32, Role::Small(16, false)),
            (Sch::I32 | Sch::S32(_), Val::I(n)) => self.w32(*n as i32 as u32, Role::Num),
            (Sch::U32, Val::U(n)) => self.w32(*n as u32, Role::Num),
            (Sch::I64, Val::I(n)) => self.w64(*n as u64),
            (Sch::U64, Val::U(n)) => self.w64(*n),
            (Sch::F32, Val::F32(n)) => self.w32(*n, Role::Num),
            (Sch::F64, Val::F64(n)) => self.w64(*n),
            (Sch::Char, Val::Char(c)) => self.w32(*c as u32, Role::Char),
            (Sch::Str, Val::Str(t)) => {
                self.w32(t.len() as u32, Role::StrLen);
                self.raw(t.as_bytes(), Role::StrData);
            }
            (Sch::Bytes | Sch::OpV | Sch::OpW, Val::Bytes(b)) => {
                self.w32(b.len() as u32, Role::StrLen);
                self.raw(b, Role::Opaque);
            }
            (Sch::OpF(_), Val::Bytes(b)) => self.raw(b, Role::Opaque),
            (Sch::Opt(_), Val::None) => self.w32(0, Role::Flag),
            (Sch::Opt(e), Val::Some(x)) => {
                self.w32(1, Role::Flag);
                self.put(e, x);
            }
            (Sch::Seq(e) | Sch::BSet(e), Val::List(l)) => {
                self.w32(l.len() as u32, Role::Count);
                l.iter().for_each(|x| self.put(e, x));
            }
            (Sch::Arr(e, _), Val::List(l)) => l.iter().for_each(|x| self.put(e, x)),
            (Sch::Tup(t) | Sch::Struct(t) | Sch::TupStruct(t), Val::List(l)) => {
                t.iter().zip(l).for_each(|(s, x)| self.put(s, x))
            }
            (Sch::Map(_, ks, vs), Val::Map(m)) => {
                self.w32(m.len() as u32, Role::Count);
                for (k, v) in m {
                    self.put(ks, k);
                    self.put(vs, v);
                }
            }
            (Sch::Newtype(e), Val::List(l)) => self.put(e, &l[0]),
            (Sch::Enum(t), Val::Variant(i, l)) => {
                self.w32(t[*i].0, Role::Disc);
                t[*i].1.members().into_iter().zip(l).for_each(|(s, x)| self.put(s, x));
            }
            (Sch::Lazy(f), v) => self.put(&f(), v),
            (Sch::Bomb { before, .. }, _) => {
                if !before {
                    self.w32(0xb0b0b0b0, Role::Num)
                }
            }
            _ => panic!("harness: value does not fit its schema: {s:?} {v:?}"),
        }
    }
}

pub fn ref_enc(s: &Sch, v: &Val) -> Enc {
    let mut e = Enc::default();
    e.put(s, v);
    e
}

// ------------------------------------------------------------------ reference decoder

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rej {
    Short,
    Range,
    Flag,
    Disc,
    Char,
    Utf8,
    Conv,
    /// Too many elements of no size: not decided.
    TooBig,
}

pub struct Dec<'a> {
    b: &'a [u8],
    pub pos: usize,
    pub dirty_pad: bool,
    fuel: u64,
}

impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Rej> {
        if self.b.len() - self.pos < n {
            return Err(Rej::Short);
        }
        self.pos += n;
        Ok(&self.b[self.pos - n..self.pos])
    }
    fn u32(&mut self) -> Result<u32, Rej> {
        Ok(self.take(4)?.iter().fold(0, |a, x| (a << 8) | *x as u32))
    }
    fn u64(&mut self) -> Result<u64, Rej> {
        Ok(self.take(8)?.iter().fold(0, |a, x| (a << 8) | *x as u64))
    }
    fn padded(&mut self, n: usize) -> Result<&'a [u8], Rej> {
        let d = self.take(n)?;
        let pad = self.take((4 - n % 4) % 4)?;
        if pad.iter().any(|x| *x != 0) {
            self.dirty_pad = true;
        }
        Ok(d)
    }
    fn step(&mut self) -> Result<(), Rej> {
        self.fuel = self.fuel.checked_sub(1).ok_or(Rej::TooBig)?;
        Ok(())
    }
    pub fn get(&mut self, s: &Sch) -> Result<Val, Rej> {
        self.step()?;
        Ok(match s {
            Sch::Unit | Sch::UnitStruct => Val::Unit,
            Sch::Bool => match self.u32()? {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err(Rej::Flag),
            },
            Sch::I8 => {
                let v = self.u32()? as i32;
                if !(-128..=127).contains(&v) {
                    return Err(Rej::Range);
                }
                Val::I(v as i64)
            }
            Sch::I16 => {
                let v = self.u32()? as i32;
                if !(-32768..=32767).contains(&v) {
                    return Err(Rej::Range);
                }
                Val::I(v as i64)
            }
            Sch::U8 => {
                let v = self.u32()?;
                if v > 255 {
                    return Err(Rej::Range);
                }
                Val::U(v as u64)
            }
            Sch::U16 => {
                let v = self.u32()?;
                if v > 65535 {
                    return Err(Rej::Range);
                }
                Val::U(v as u64)
            }
            Sch::I32 => Val::I(self.u32()? as i32 as i64),
            Sch::U32 => Val::U(self.u32()? as u64),
            Sch::I64 => Val::I(self.u64()? as i64),
            Sch::U64 => Val::U(self.u64()?),
            Sch::F32 => Val::F32(self.u32()?),
            Sch::F64 => Val::F64(self.u64()?),
            Sch::Char => Val::Char(char::from_u32(self.u32()?).ok_or(Rej::Char)?),
            Sch::Str => {
                let n = self.u32()? as usize;
                let d = self.padded(n)?;
                Val::Str(String::from_utf8(d.to_vec()).map_err(|_| Rej::Utf8)?)
            }
            Sch::Bytes | Sch::OpV | Sch::OpW => {
                let n = self.u32()? as usize;
                Val::Bytes(self.padded(n)?.to_vec())
            }
            Sch::OpF(n) => Val::Bytes(self.padded(*n)?.to_vec()),
            Sch::S32(rule) => {
                let n = self.u32()? as i32;
                Val::I(rule.conv(n).ok_or(Rej::Conv)? as i64)
            }
            Sch::Opt(e) => match self.u32()? {
                0 => Val::None,
                1 => Val::Some(self.get(e)?.into()),
                _ => return Err(Rej::Flag),
            },
            Sch::Seq(e) | Sch::BSet(e) => {
                let n = self.u32()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.get(e)?);
                }
                Val::List(l)
            }
            Sch::Arr(e, n) => {
                let mut l = vec![];
                for _ in 0..*n {
                    l.push(self.get(e)?);
                }
                Val::List(l)
            }
            Sch::Tup(t) | Sch::Struct(t) | Sch::TupStruct(t) => {
                let mut l = vec![];
                for s in t {
                    l.push(self.get(s)?);
                }
                Val::List(l)
            }
            Sch::Map(_, ks, vs) => {
                let n = self.u32()?;
                let mut l = vec![];
                for _ in 0..n {
                    let k = self.get(ks)?;
                    let v = self.get(vs)?;
                    l.push((k, v));
                }
                Val::Map(l)
            }
            Sch::Newtype(e) => Val::List(vec![self.get(e)?]),
            Sch::Enum(t) => {
                let d = self.u32()?;
                let i = t.iter().position(|(x, _)| *x == d && d < 0x8000_0000).ok_or(Rej::Disc)?;
                let mut l = vec![];
                for m in t[i].1.members() {
                    l.push(self.get(m)?);
                }
                Val::Variant(i, l)
            }
            Sch::Lazy(f) => self.get(&f())?,
            Sch::Bomb { .. } => return Err(Rej::Conv),
        })
    }
}

pub struct Verdict {
    pub res: Result<Val, Rej>,
    /// Bytes left over after the value.
    pub rest: usize,
    pub dirty_pad: bool,
}

pub fn ref_dec(s: &Sch, b: &[u8]) -> Verdict {
    let mut d = Dec { b, pos: 0, dirty_pad: false, fuel: 2_000_000 };
    let res = d.get(s).map(|v| canon_noconv(s, v));
    Verdict { res, rest: b.len() - d.pos, dirty_pad: d.dirty_pad }
}

/// How many values the reference decoder looks at.
pub fn ref_dec_steps(s: &Sch, b: &[u8]) -> u64 {
    let mut d = Dec { b, pos: 0, dirty_pad: false, fuel: 2_000_000 };
    let _ = d.get(s);
    2_000_000 - d.fuel
}

/// As `canon`, for values that are already converted.
fn canon_noconv(s: &Sch, v: Val) -> Val {
    match (s, v) {
        (Sch::S32(_), v) => v,
        (Sch::Map(kind, ks, vs), Val::Map(m)) => {
            let m: Vec<(Val, Val)> = m.into_iter().map(|(k, v)| (canon_noconv(ks, k), canon_noconv(vs, v))).collect();
            if *kind == MapKind::List {
                Val::Map(m)
            } else {
                let b: std::collections::BTreeMap<Val, Val> = m.into_iter().collect();
                Val::Map(b.into_iter().collect())
            }
        }
        (Sch::BSet(e), Val::List(l)) => {
            let b: std::collections::BTreeSet<Val> = l.into_iter().map(|x| canon_noconv(e, x)).collect();
            Val::List(b.into_iter().collect())
        }
        (Sch::Opt(e), Val::Some(x)) => Val::Some(canon_noconv(e, *x).into()),
        (Sch::Seq(e) | Sch::Arr(e, _), Val::List(l)) => Val::List(l.into_iter().map(|x| canon_noconv(e, x)).collect()),
        (Sch::Tup(t) | Sch::Struct(t) | Sch::TupStruct(t), Val::List(l)) => {
            Val::List(t.iter().zip(l).map(|(s, x)| canon_noconv(s, x)).collect())
        }
        (Sch::Newtype(e), Val::List(mut l)) => Val::List(vec![canon_noconv(e, l.remove(0))]),
        (Sch::Enum(t), Val::Variant(i, l)) => {
            Val::Variant(i, t[i].1.members().into_iter().zip(l).map(|(s, x)| canon_noconv(s, x)).collect())
        }
        (Sch::Lazy(f), v) => canon_noconv(&f(), v),
        (_, v) => v,
    }
}

// ------------------------------------------------------------------ serde: encoding

pub struct SV<'a>(pub &'a Sch, pub &'a Val);

/// Text that is only known piece by piece, as it is written.
struct Shown<'a>(&'a str);
impl fmt::Display for Shown<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut rest = self.0;
        let mut n = 1;
        while !rest.is_empty() {
            let at = rest.char_indices().nth(n).map_or(rest.len(), |x| x.0);
            f.write_str(&rest[..at])?;
            rest = &rest[at..];
            n = n * 2 % 1001;
        }
        Ok(())
    }
}

impl Serialize for SV<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Sch::Unit, _) => s.serialize_unit(),
            (Sch::UnitStruct, _) => s.serialize_unit_struct(called("U")),
            (Sch::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Sch::I8, Val::I(n)) => s.serialize_i8(*n as i8),
            (Sch::I16, Val::I(n)) => s.serialize_i16(*n as i16),
            (Sch::I32, Val::I(n)) => s.serialize_i32(*n as i32),
            (Sch::I64, Val::I(n)) => s.serialize_i64(*n),
            (Sch::U8, Val::U(n)) => s.serialize_u8(*n as u8),
            (Sch::U16, Val::U(n)) => s.serialize_u16(*n as u16),
            (Sch::U32, Val::U(n)) => s.serialize_u32(*n as u32),
            (Sch::U64, Val::U(n)) => s.serialize_u64(*n),
            (Sch::F32, Val::F32(n)) => s.serialize_f32(f32::from_bits(*n)),
            (Sch::F64, Val::F64(n)) => s.serialize_f64(f64::from_bits(*n)),
            (Sch::Char, Val::Char(c)) => s.serialize_char(*c),
            (Sch::Str, Val::Str(t)) => match t.bytes().fold(t.len(), |a, b| a + b as usize) % 5 {
                0 => s.collect_str(&Shown(t)),
                1 => s.collect_str(&format_args!("{t}")),
                _ => s.serialize_str(t),
            },
            (Sch::Bytes, Val::Bytes(b)) => s.serialize_bytes(b),
            (Sch::OpF(_), Val::Bytes(b)) => opaque::fixed::serialize(b, s),
            (Sch::OpV, Val::Bytes(b)) => opaque::variable::serialize(b, s),
            (Sch::OpW, Val::Bytes(b)) => opaque::VariableArray { data: b.clone() }.serialize(s),
            (Sch::S32(r), Val::I(n)) => {
                let n = *n as i32;
                match r {
                    Rule::All => signed32::serialize(&RAll(n), s),
                    Rule::NonNeg => signed32::serialize(&RNonNeg(n), s),
                    Rule::Sparse => signed32::serialize(&RSparse(n), s),
                    Rule::Shift => signed32::serialize(&RShift(n), s),
                }
            }
            (Sch::Opt(_), Val::None) => s.serialize_none(),
            (Sch::Opt(e), Val::Some(x)) => s.serialize_some(&SV(e, x)),
            (Sch::Seq(e), Val::List(l)) if l.len() % 7 == 3 => s.collect_seq(l.iter().map(|x| SV(e, x))),
            (Sch::Map(_, ks, vs), Val::Map(m)) if m.len() % 7 == 3 => s.collect_map(m.iter().map(|(k, v)| (SV(ks, k), SV(vs, v)))),
            (Sch::Seq(e) | Sch::BSet(e), Val::List(l)) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(&SV(e, x))?;
                }
                q.end()
            }
            (Sch::Arr(e, n), Val::List(l)) => {
                let mut q = s.serialize_tuple(*n)?;
                for x in l {
                    q.serialize_element(&SV(e, x))?;
                }
                q.end()
            }
            (Sch::Tup(t), Val::List(l)) => {
                let mut q = s.serialize_tuple(t.len())?;
                for (e, x) in t.iter().zip(l) {
                    q.serialize_element(&SV(e, x))?;
                }
                q.end()
            }
            (Sch::Struct(t), Val::List(l)) => {
                let mut q = s.serialize_struct(called("S"), t.len())?;
                let names = members(t.len());
                for (i, (e, x)) in t.iter().zip(l).enumerate() {
                    q.serialize_field(names[i], &SV(e, x))?;
                }
                q.end()
            }
            (Sch::TupStruct(t), Val::List(l)) => {
                let mut q = s.serialize_tuple_struct(called("T"), t.len())?;
                for (e, x) in t.iter().zip(l) {
                    q.serialize_field(&SV(e, x))?;
                }
                q.end()
            }
            (Sch::Map(_, ks, vs), Val::Map(m)) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&SV(ks, k), &SV(vs, v))?;
                    } else {
                        q.serialize_key(&SV(ks, k))?;
                        q.serialize_value(&SV(vs, v))?;
                    }
                }
                q.end()
            }
            (Sch::Newtype(e), Val::List(l)) => s.serialize_newtype_struct(called("N"), &SV(e, &l[0])),
            (Sch::Enum(t), Val::Variant(i, l)) => {
                let (idx, var) = &t[*i];
                let (name, of) = (called(FIELDS[*i]), called("E"));
                match var {
                    Var::Unit => s.serialize_unit_variant(of, *idx, name),
                    Var::New(e) => s.serialize_newtype_variant(of, *idx, name, &SV(e, &l[0])),
                    Var::Tup(t) => {
                        let mut q = s.serialize_tuple_variant(of, *idx, name, t.len())?;
                        for (e, x) in t.iter().zip(l) {
                            q.serialize_field(&SV(e, x))?;
                        }
                        q.end()
                    }
                    Var::Rec(t) => {
                        let mut q = s.serialize_struct_variant(of, *idx, name, t.len())?;
                        let names = members(t.len());
                        for (i, (e, x)) in t.iter().zip(l).enumerate() {
                            q.serialize_field(names[i], &SV(e, x))?;
                        }
                        q.end()
                    }
                }
            }
            (Sch::Lazy(f), v) => SV(&f(), v).serialize(s),
            (Sch::Bomb { panics, before: _ }, _) => {
                if *panics {
                    panic!("{}", bomb_msg());
                }
                Err(ser::Error::custom(bomb_msg()))
            }
            (s, v) => panic!("harness: value does not fit its schema: {s:?} {v:?}"),
        }
    }
}

// ------------------------------------------------------------------ serde: decoding

pub const BIG_N: [usize; 12] = [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4099];
pub const HUGE_N: [usize; 24] = [
    200, 320, 384, 500, 511, 512, 513, 640, 768, 1023, 1024, 1025, 2047, 2048, 2050, 4095, 4096, 8192, 16384, 16385, 32769, 65535, 65536,
    65537,
];

macro_rules! opf {
    ($d:expr, $n:expr, $($k:literal)*) => {
        match $n {
            $($k => opaque::fixed::deserialize::<$k, _>($d).map(|a| a.to_vec()),)*
            n => panic!("harness: opaque length {n}"),
        }
    };
}

fn de_opf<'de, D: Deserializer<'de>>(n: usize, d: D) -> Result<Vec<u8>, D::Error> {
    opf!(d, n, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37
        38 39 40 63 64 65 100 127 128 129 255 256 257 1000 4099
        200 320 384 500 511 512 513 640 768 1023 1024 1025 2047 2048 2050 4095 4096 8192 16384 16385 32769 65535 65536 65537)
}

pub struct Seed<'a>(pub &'a Sch);

/// Names are not sent: types and members may be called anything.
fn pool() -> &'static [&'static str] {
    static P: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut l: Vec<&'static str> = vec![
            "", "0", "1", "Option", "Some", "None", "Vec", "String", "str", "u8", "u32", "i32", "Bytes", "ByteBuf", "Opaque", "VariableArray",
            "Array", "Fixed", "Value", "value", "data", "len", "length", "size", "Duration", "SystemTime", "Range", "Result", "Ok", "Err", "Void",
            "()", "Unit", "Padding", "padding", "Box", "Wrapper", "XdrIndexer", "XdrUnion", "typé", "名前", "a b", "$serde_json::private::RawValue",
            "$__serde_private", "__xdr", "_", "r#type", "Enum", "discriminant", "index", "variant", "Default", "default", "bool", "true", "TRUE",
        ];
        for t in &mon::dict::dict().texts {
            if !t.is_empty() && t.len() < 40 && l.len() < 600 {
                l.push(Box::leak(t.clone().into_boxed_str()));
            }
        }
        while l.len() < 200 {
            l.extend(FIELDS);
        }
        l
    })
}
fn called(usual: &'static str) -> &'static str {
    NAMES.with(|w| {
        let n = w.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        w.set(n);
        if n >> 62 == 0 { pool()[(n >> 33) as usize % pool().len()] } else { usual }
    })
}
fn members(n: usize) -> &'static [&'static str] {
    let k = called("").len() * 37;
    if k == 0 || n > 64 { &FIELDS[..n] } else { &pool()[k % (pool().len() - n)..][..n] }
}
fn quick(v: &Val, depth: u32) -> u64 {
    let list = |l: &[Val], k: u64| l.iter().take(3).fold(k + l.len() as u64, |h, x| if depth == 0 { h } else { h.wrapping_mul(31) ^ quick(x, depth - 1) });
    match v {
        Val::I(n) => *n as u64,
        Val::U(n) | Val::F64(n) => *n,
        Val::F32(n) => *n as u64,
        Val::Str(t) => t.len() as u64,
        Val::Bytes(b) => b.len() as u64,
        Val::Char(c) => *c as u64,
        Val::Some(x) if depth > 0 => quick(x, depth - 1) ^ 0x5a,
        Val::List(l) => list(l, 7),
        Val::Variant(i, l) => list(l, *i as u64),
        Val::Map(m) => m.iter().take(2).fold(m.len() as u64, |h, (k, _)| if depth == 0 { h } else { h.wrapping_mul(31) ^ quick(k, depth - 1) }),
        _ => 3,
    }
}

/// Which of the ways of asking for the same thing comes next.
fn way() -> u64 {
    WAY.with(|w| {
        w.set(w.get() + 1);
        w.get()
    })
}

struct TextV;
impl<'de> Visitor<'de> for TextV {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("text")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        Ok(v.to_string())
    }
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
        Ok(v)
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Ok(())
    }
}

struct OptV<'a>(&'a Sch);
impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Seed(self.0).deserialize(d)?.into()))
    }
}

struct SeqV<'a>(&'a Sch);
impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut l = vec![];
        while let Some(x) = a.next_element_seed(Seed(self.0))? {
            l.push(x);
        }
        Ok(l)
    }
}

struct MapV<'a>(&'a Sch, &'a Sch);
impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Vec<(Val, Val)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut l = vec![];
        if min_size(self.0, 0) % 8 == 0 {
            while let Some(x) = a.next_entry_seed(Seed(self.0), Seed(self.1))? {
                l.push(x);
            }
        } else {
            while let Some(k) = a.next_key_seed(Seed(self.0))? {
                let v = a.next_value_seed(Seed(self.1))?;
                l.push((k, v));
            }
        }
        Ok(l)
    }
}

/// A fixed number of members.
struct TupV<'a>(Vec<&'a Sch>);
impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Val>, A::Error> {
        let mut l = vec![];
        for (i, s) in self.0.iter().enumerate() {
            match a.next_element_seed(Seed(s))? {
                Some(x) => l.push(x),
                None => return Err(de::Error::invalid_length(i, &"more members")),
            }
        }
        Ok(l)
    }
}

struct NewV<'a>(&'a Sch);
impl<'de> Visitor<'de> for NewV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        a.next_element_seed(Seed(self.0))?.ok_or_else(|| de::Error::invalid_length(0, &"one"))
    }
}

struct IdxSeed;
impl<'de> DeserializeSeed<'de> for IdxSeed {
    type Value = u64;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> {
        d.deserialize_identifier(IdxV)
    }
}
struct IdxV;
impl<'de> Visitor<'de> for IdxV {
    type Value = u64;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u64, E> {
        Ok(v)
    }
}

struct EnumV<'a>(&'a [(u32, Var)]);
impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (idx, va) = a.variant_seed(IdxSeed)?;
        let i = self
            .0
            .iter()
            .position(|(x, _)| *x as u64 == idx)
            .ok_or_else(|| de::Error::invalid_value(de::Unexpected::Unsigned(idx), &"variant index"))?;
        let l = match &self.0[i].1 {
            Var::Unit => {
                va.unit_variant()?;
                vec![]
            }
            Var::New(s) => vec![va.newtype_variant_seed(Seed(s))?],
            Var::Tup(t) => va.tuple_variant(t.len(), TupV(t.iter().collect()))?,
            Var::Rec(t) => va.struct_variant(members(t.len()), TupV(t.iter().collect()))?,
        };
        Ok(Val::Variant(i, l))
    }
}

impl<'de> DeserializeSeed<'de> for Seed<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        ATTEMPTS.with(|a| a.set(a.get() + 1));
        Ok(match self.0 {
            Sch::Unit => {
                d.deserialize_unit(UnitV)?;
                Val::Unit
            }
            Sch::UnitStruct => {
                d.deserialize_unit_struct(called("U"), UnitV)?;
                Val::Unit
            }
            Sch::Bool => Val::Bool(bool::deserialize(d)?),
            Sch::I8 => Val::I(i8::deserialize(d)? as i64),
            Sch::I16 => Val::I(i16::deserialize(d)? as i64),
            Sch::I32 => Val::I(i32::deserialize(d)? as i64),
            Sch::I64 => Val::I(i64::deserialize(d)?),
            Sch::U8 => Val::U(u8::deserialize(d)? as u64),
            Sch::U16 => Val::U(u16::deserialize(d)? as u64),
            Sch::U32 => Val::U(u32::deserialize(d)? as u64),
            Sch::U64 => Val::U(u64::deserialize(d)?),
            Sch::F32 => Val::F32(f32::deserialize(d)?.to_bits()),
            Sch::F64 => Val::F64(f64::deserialize(d)?.to_bits()),
            Sch::Char => Val::Char(char::deserialize(d)?),
            Sch::Str => Val::Str(match way() % 3 {
                0 => d.deserialize_str(TextV)?,
                _ => String::deserialize(d)?,
            }),
            Sch::Bytes => Val::Bytes(match way() % 2 {
                0 => d.deserialize_bytes(BytesV)?,
                _ => d.deserialize_byte_buf(BytesV)?,
            }),
            Sch::OpF(n) => Val::Bytes(de_opf(*n, d)?),
            Sch::OpV => Val::Bytes(opaque::variable::deserialize(d)?),
            Sch::OpW => Val::Bytes(opaque::VariableArray::deserialize(d)?.data),
            Sch::S32(r) => Val::I(match r {
                Rule::All => signed32::deserialize::<RAll, _>(d)?.0,
                Rule::NonNeg => signed32::deserialize::<RNonNeg, _>(d)?.0,
                Rule::Sparse => signed32::deserialize::<RSparse, _>(d)?.0,
                Rule::Shift => signed32::deserialize::<RShift, _>(d)?.0,
            } as i64),
            Sch::Opt(e) => d.deserialize_option(OptV(e))?,
            Sch::Seq(e) | Sch::BSet(e) => Val::List(d.deserialize_seq(SeqV(e))?),
            Sch::Arr(e, n) => Val::List(d.deserialize_tuple(*n, TupV(vec![&**e; *n]))?),
            Sch::Tup(t) => Val::List(d.deserialize_tuple(t.len(), TupV(t.iter().collect()))?),
            Sch::Struct(t) => Val::List(d.deserialize_struct(called("S"), members(t.len()), TupV(t.iter().collect()))?),
            Sch::TupStruct(t) => Val::List(d.deserialize_tuple_struct(called("T"), t.len(), TupV(t.iter().collect()))?),
            Sch::Map(_, k, v) => Val::Map(d.deserialize_map(MapV(k, v))?),
            Sch::Newtype(e) => Val::List(vec![d.deserialize_newtype_struct(called("N"), NewV(e))?]),
            Sch::Enum(t) => d.deserialize_enum(called("E"), members(t.len()), EnumV(t))?,
            Sch::Lazy(f) => Seed(&f()).deserialize(d)?,
            Sch::Bomb { panics, before } => {
                if !before {
                    u32::deserialize(d)?;
                }
                if *panics {
                    panic!("{}", bomb_msg());
                }
                return Err(de::Error::custom(bomb_msg()));
            }
        })
    }
}

/// Decodes whatever schema is installed on this thread.
pub struct Dyn(pub Val);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = ROOT.with(|r| r.borrow_mut().take()).expect("harness: schema installed");
        let r = Seed(&s).deserialize(d).map(Dyn);
        ROOT.with(|x| *x.borrow_mut() = Some(s));
        r
    }
}

pub fn real_enc(s: &Sch, v: &Val) -> Result<Vec<u8>, serde_xdr::error::Error> {
    NAMES.with(|w| w.set(quick(v, 4).wrapping_mul(0x9e37_79b9_7f4a_7c15)));
    serde_xdr::to_bytes(&SV(s, v))
}

pub fn real_dec(s: &Sch, b: &[u8]) -> Result<Val, serde_xdr::error::Error> {
    ROOT.with(|r| *r.borrow_mut() = Some(s.clone()));
    WAY.with(|w| w.set(b.len() as u64 / 4));
    NAMES.with(|w| w.set(b.iter().rev().take(64).fold(b.len() as u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))));
    serde_xdr::from_bytes::<Dyn>(b).map(|d| d.0)
}

pub fn kinds(s: &Sch, f: &mut dyn FnMut(&'static str)) {
    match s {
        Sch::Unit => f("void"),
        Sch::UnitStruct => f("unit struct"),
        Sch::Bool => f("bool"),
        Sch::I8 | Sch::U8 | Sch::I16 | Sch::U16 => f("small integer"),
        Sch::I32 | Sch::U32 => f("32-bit integer"),
        Sch::I64 | Sch::U64 => f("64-bit integer"),
        Sch::F32 | Sch::F64 => f("float"),
        Sch::Char => f("char"),
        Sch::Str => f("string"),
        Sch::Bytes => f("byte string"),
        Sch::OpF(_) => f("fixed opaque"),
        Sch::OpV => f("variable opaque"),
        Sch::OpW => f("opaque wrapper"),
        Sch::S32(_) => f("signed32"),
        Sch::Opt(e) => {
            f("optional");
            kinds(e, f)
        }
        Sch::Seq(e) | Sch::BSet(e) => {
            f("list");
            kinds(e, f)
        }
        Sch::Arr(e, _) => {
            f("fixed array");
            kinds(e, f)
        }
        Sch::Tup(v) => {
            f("tuple");
            v.iter().for_each(|x| kinds(x, f))
        }
        Sch::Struct(v) => {
            f("struct");
            v.iter().for_each(|x| kinds(x, f))
        }
        Sch::TupStruct(v) => {
            f("tuple struct");
            v.iter().for_each(|x| kinds(x, f))
        }
        Sch::Map(_, k, v) => {
            f("map");
            kinds(k, f);
            kinds(v, f)
        }
        Sch::Newtype(e) => {
            f("newtype");
            kinds(e, f)
        }
        Sch::Enum(v) => {
            for (_, x) in v {
                f(match x {
                    Var::Unit => "unit variant",
                    Var::New(_) => "newtype variant",
                    Var::Tup(_) => "tuple variant",
                    Var::Rec(_) => "struct variant",
                });
                x.members().into_iter().for_each(|m| kinds(m, f));
            }
        }
        Sch::Lazy(_) => f("recursive"),
        Sch::Bomb { .. } => f("failing user code"),
    }
}

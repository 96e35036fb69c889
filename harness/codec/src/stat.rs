//! Ordinary Rust types with derived serde implementations, mirrored as schemas, so that the
//! same oracles also watch the code paths that real users take.
use crate::sch::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_xdr::error::Error;
use serde_xdr::opaque::{self, VariableArray};
use serde_xdr::primitive::signed32;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};
use std::num::Wrapping;
use std::time::Duration;

pub trait Mirror: Sized {
    fn sch() -> Sch;
    fn val(&self) -> Val;
    fn of(v: &Val) -> Self;
}

/// Mirrors a field of type `T` that is converted by a serde attribute.
pub trait Mir<T> {
    fn sch() -> Sch;
    fn val(t: &T) -> Val;
    fn of(v: &Val) -> T;
}
/// No attribute.
pub struct D;
impl<T: Mirror> Mir<T> for D {
    fn sch() -> Sch {
        T::sch()
    }
    fn val(t: &T) -> Val {
        t.val()
    }
    fn of(v: &Val) -> T {
        T::of(v)
    }
}
/// `#[serde(with = "opaque::fixed")]`
pub struct Of;
impl<const N: usize> Mir<[u8; N]> for Of {
    fn sch() -> Sch {
        Sch::OpF(N)
    }
    fn val(t: &[u8; N]) -> Val {
        Val::Bytes(t.to_vec())
    }
    fn of(v: &Val) -> [u8; N] {
        match v {
            Val::Bytes(b) => b.clone().try_into().unwrap(),
            _ => unreachable!(),
        }
    }
}
/// `#[serde(with = "opaque::variable")]`
pub struct Ov;
impl Mir<Vec<u8>> for Ov {
    fn sch() -> Sch {
        Sch::OpV
    }
    fn val(t: &Vec<u8>) -> Val {
        Val::Bytes(t.clone())
    }
    fn of(v: &Val) -> Vec<u8> {
        match v {
            Val::Bytes(b) => b.clone(),
            _ => unreachable!(),
        }
    }
}
/// `#[serde(with = "signed32")]`
pub struct S3;
macro_rules! s3 {
    ($($t:ident $r:expr;)*) => {$(
        impl Mir<$t> for S3 {
            fn sch() -> Sch { Sch::S32($r) }
            fn val(t: &$t) -> Val { Val::I(t.0 as i64) }
            fn of(v: &Val) -> $t { match v { Val::I(n) => $t(*n as i32), _ => unreachable!() } }
        }
    )*};
}
s3! { RAll Rule::All; RNonNeg Rule::NonNeg; RSparse Rule::Sparse; RShift Rule::Shift; }

macro_rules! ints {
    ($($t:ty, $s:ident, $v:ident;)*) => {$(
        impl Mirror for $t {
            fn sch() -> Sch { Sch::$s }
            fn val(&self) -> Val { Val::$v(*self as _) }
            fn of(v: &Val) -> Self { match v { Val::$v(n) => *n as $t, _ => unreachable!() } }
        }
    )*};
}
ints! { i8, I8, I; i16, I16, I; i32, I32, I; i64, I64, I; u8, U8, U; u16, U16, U; u32, U32, U; u64, U64, U;
    usize, U64, U; isize, I64, I; }

macro_rules! simple {
    ($($t:ty, $s:expr, |$a:ident| $to:expr, $p:pat => $from:expr;)*) => {$(
        impl Mirror for $t {
            fn sch() -> Sch { $s }
            fn val(&self) -> Val { let $a = self; $to }
            #[allow(unreachable_patterns)]
            fn of(v: &Val) -> Self { match v { $p => $from, _ => unreachable!() } }
        }
    )*};
}
simple! {
    (), Sch::Unit, |_a| Val::Unit, _ => ();
    bool, Sch::Bool, |a| Val::Bool(*a), Val::Bool(b) => *b;
    f32, Sch::F32, |a| Val::F32(a.to_bits()), Val::F32(n) => f32::from_bits(*n);
    f64, Sch::F64, |a| Val::F64(a.to_bits()), Val::F64(n) => f64::from_bits(*n);
    char, Sch::Char, |a| Val::Char(*a), Val::Char(c) => *c;
    String, Sch::Str, |a| Val::Str(a.clone()), Val::Str(s) => s.clone();
    Box<str>, Sch::Str, |a| Val::Str(a.to_string()), Val::Str(s) => s.clone().into();
    Cow<'static, str>, Sch::Str, |a| Val::Str(a.to_string()), Val::Str(s) => Cow::Owned(s.clone());
    std::path::PathBuf, Sch::Str, |a| Val::Str(a.to_str().unwrap().to_string()), Val::Str(s) => s.into();
    VariableArray, Sch::OpW, |a| Val::Bytes(a.data.clone()), Val::Bytes(b) => VariableArray { data: b.clone() };
    std::marker::PhantomData<u8>, Sch::UnitStruct, |_a| Val::Unit, _ => std::marker::PhantomData;
}

macro_rules! lists {
    ($($c:ident)*) => {$(
        impl<T: Mirror> Mirror for $c<T> {
            fn sch() -> Sch { Sch::Seq(T::sch().into()) }
            fn val(&self) -> Val { Val::List(self.iter().map(|x| x.val()).collect()) }
            fn of(v: &Val) -> Self { match v { Val::List(l) => l.iter().map(T::of).collect(), _ => unreachable!() } }
        }
    )*};
}
lists! { Vec VecDeque LinkedList }

impl<T: Mirror> Mirror for Box<[T]> {
    fn sch() -> Sch {
        Sch::Seq(T::sch().into())
    }
    fn val(&self) -> Val {
        Val::List(self.iter().map(|x| x.val()).collect())
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::List(l) => l.iter().map(T::of).collect(),
            _ => unreachable!(),
        }
    }
}
impl<T: Mirror + Ord> Mirror for BTreeSet<T> {
    fn sch() -> Sch {
        Sch::BSet(T::sch().into())
    }
    fn val(&self) -> Val {
        Val::List(self.iter().map(|x| x.val()).collect())
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::List(l) => l.iter().map(T::of).collect(),
            _ => unreachable!(),
        }
    }
}
impl<K: Mirror + Ord, V: Mirror> Mirror for BTreeMap<K, V> {
    fn sch() -> Sch {
        Sch::Map(MapKind::BTree, K::sch().into(), V::sch().into())
    }
    fn val(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.val(), v.val())).collect())
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::Map(l) => l.iter().map(|(k, v)| (K::of(k), V::of(v))).collect(),
            _ => unreachable!(),
        }
    }
}
impl<K: Mirror + std::hash::Hash + Eq, V: Mirror> Mirror for HashMap<K, V> {
    fn sch() -> Sch {
        Sch::Map(MapKind::Hash, K::sch().into(), V::sch().into())
    }
    fn val(&self) -> Val {
        let b: BTreeMap<Val, Val> = self.iter().map(|(k, v)| (k.val(), v.val())).collect();
        Val::Map(b.into_iter().collect())
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::Map(l) => l.iter().map(|(k, v)| (K::of(k), V::of(v))).collect(),
            _ => unreachable!(),
        }
    }
}
impl<T: Mirror> Mirror for Option<T> {
    fn sch() -> Sch {
        Sch::Opt(T::sch().into())
    }
    fn val(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => Val::Some(x.val().into()),
        }
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::None => None,
            Val::Some(x) => Some(T::of(x)),
            _ => unreachable!(),
        }
    }
}
impl<T: Mirror> Mirror for Box<T> {
    fn sch() -> Sch {
        T::sch()
    }
    fn val(&self) -> Val {
        (**self).val()
    }
    fn of(v: &Val) -> Self {
        Box::new(T::of(v))
    }
}
impl<T: Mirror> Mirror for Wrapping<T> {
    fn sch() -> Sch {
        T::sch()
    }
    fn val(&self) -> Val {
        self.0.val()
    }
    fn of(v: &Val) -> Self {
        Wrapping(T::of(v))
    }
}
impl<T: Mirror, E: Mirror> Mirror for Result<T, E> {
    fn sch() -> Sch {
        Sch::Enum(vec![(0, Var::New(T::sch())), (1, Var::New(E::sch()))])
    }
    fn val(&self) -> Val {
        match self {
            Ok(x) => Val::Variant(0, vec![x.val()]),
            Err(x) => Val::Variant(1, vec![x.val()]),
        }
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::Variant(0, l) => Ok(T::of(&l[0])),
            Val::Variant(1, l) => Err(E::of(&l[0])),
            _ => unreachable!(),
        }
    }
}
impl<T: Mirror> Mirror for std::ops::Range<T> {
    fn sch() -> Sch {
        Sch::Struct(vec![T::sch(), T::sch()])
    }
    fn val(&self) -> Val {
        Val::List(vec![self.start.val(), self.end.val()])
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::List(l) => T::of(&l[0])..T::of(&l[1]),
            _ => unreachable!(),
        }
    }
}
impl<T: Mirror, const N: usize> Mirror for [T; N] {
    fn sch() -> Sch {
        Sch::Arr(T::sch().into(), N)
    }
    fn val(&self) -> Val {
        Val::List(self.iter().map(|x| x.val()).collect())
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::List(l) => std::array::from_fn(|i| T::of(&l[i])),
            _ => unreachable!(),
        }
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => {$(
        impl<$($t: Mirror),+> Mirror for ($($t,)+) {
            fn sch() -> Sch { Sch::Tup(vec![$($t::sch()),+]) }
            fn val(&self) -> Val { Val::List(vec![$(self.$i.val()),+]) }
            fn of(v: &Val) -> Self { match v { Val::List(l) => ($($t::of(&l[$i]),)+), _ => unreachable!() } }
        }
    )*};
}
tuples! { (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11) }

macro_rules! st {
    ($(#[$sm:meta])* $n:ident { $($(#[$m:meta])* $f:ident: $t:ty => $k:ty),* $(,)? }) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        $(#[$sm])*
        pub struct $n { $($(#[$m])* $f: $t),* }
        impl Mirror for $n {
            fn sch() -> Sch { Sch::Struct(vec![$(<$k as Mir<$t>>::sch()),*]) }
            fn val(&self) -> Val { Val::List(vec![$(<$k as Mir<$t>>::val(&self.$f)),*]) }
            fn of(v: &Val) -> Self {
                match v {
                    Val::List(l) => { let mut _it = l.iter(); $n { $($f: <$k as Mir<$t>>::of(_it.next().unwrap())),* } }
                    _ => unreachable!(),
                }
            }
        }
    };
}
macro_rules! tst {
    ($n:ident ( $({$(#[$m:meta])*} $i:tt: $t:ty => $k:ty),* )) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        pub struct $n ($($(#[$m])* $t),*);
        impl Mirror for $n {
            fn sch() -> Sch { Sch::TupStruct(vec![$(<$k as Mir<$t>>::sch()),*]) }
            fn val(&self) -> Val { Val::List(vec![$(<$k as Mir<$t>>::val(&self.$i)),*]) }
            fn of(v: &Val) -> Self {
                match v { Val::List(l) => $n($(<$k as Mir<$t>>::of(&l[$i])),*), _ => unreachable!() }
            }
        }
    };
}

st! { Empty {} }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UnitS;
impl Mirror for UnitS {
    fn sch() -> Sch {
        Sch::UnitStruct
    }
    fn val(&self) -> Val {
        Val::Unit
    }
    fn of(_: &Val) -> Self {
        UnitS
    }
}
st! { Prims { a: bool => D, b: i8 => D, c: u8 => D, d: i16 => D, e: u16 => D, f: i32 => D, g: u32 => D, h: i64 => D,
    i: u64 => D, j: f32 => D, k: f64 => D, l: char => D, m: String => D, n: () => D, o: u8 => D } }
st! { Opaques {
    #[serde(with = "opaque::fixed")] a: [u8; 3] => Of,
    b: u8 => D,
    #[serde(with = "opaque::variable")] c: Vec<u8> => Ov,
    d: u16 => D,
    #[serde(with = "opaque::fixed")] e: [u8; 4] => Of,
    f: Option<VariableArray> => D,
    #[serde(with = "opaque::fixed")] g: [u8; 0] => Of,
    h: Vec<VariableArray> => D,
    #[serde(with = "opaque::fixed")] i: [u8; 32] => Of,
    j: [VariableArray; 2] => D,
    k: String => D,
} }
st! { OF1 { #[serde(with = "opaque::fixed")] a: [u8; 1] => Of } }
st! { OF5 { #[serde(with = "opaque::fixed")] a: [u8; 5] => Of } }
st! { OpaqueNest { a: Option<OF1> => D, b: Vec<OF5> => D, c: [OF1; 3] => D, d: BTreeMap<u8, OF5> => D, e: u8 => D } }
st! { Signed {
    #[serde(with = "signed32")] a: RAll => S3,
    b: u8 => D,
    #[serde(with = "signed32")] c: RNonNeg => S3,
    #[serde(with = "signed32")] d: RSparse => S3,
    e: String => D,
    #[serde(with = "signed32")] f: RShift => S3,
} }
tst! { SignedT ( {#[serde(with = "signed32")]} 0: RSparse => S3, {#[serde(with = "opaque::variable")]} 1: Vec<u8> => Ov, {} 2: i8 => D ) }
tst! { Pair ( {} 0: String => D, {} 1: Option<u64> => D ) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct New(Vec<String>);
impl Mirror for New {
    fn sch() -> Sch {
        Sch::Newtype(<Vec<String> as Mirror>::sch().into())
    }
    fn val(&self) -> Val {
        Val::List(vec![self.0.val()])
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::List(l) => New(Mirror::of(&l[0])),
            _ => unreachable!(),
        }
    }
}
/// A single field that is converted by an attribute.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NewOp(#[serde(with = "opaque::fixed")] [u8; 7]);
impl Mirror for NewOp {
    fn sch() -> Sch {
        Sch::OpF(7)
    }
    fn val(&self) -> Val {
        <Of as Mir<[u8; 7]>>::val(&self.0)
    }
    fn of(v: &Val) -> Self {
        NewOp(<Of as Mir<[u8; 7]>>::of(v))
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Transparent {
    inner: i64,
}
impl Mirror for Transparent {
    fn sch() -> Sch {
        Sch::I64
    }
    fn val(&self) -> Val {
        self.inner.val()
    }
    fn of(v: &Val) -> Self {
        Transparent { inner: i64::of(v) }
    }
}
/// Skipped fields are not part of the encoding.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Skips {
    #[serde(skip)]
    #[allow(dead_code)]
    x: u32,
    a: u32,
    #[serde(skip)]
    #[allow(dead_code)]
    y: Vec<u8>,
    #[serde(rename = "other", alias = "more")]
    b: String,
    #[serde(default)]
    c: i16,
}
impl Mirror for Skips {
    fn sch() -> Sch {
        Sch::Struct(vec![Sch::U32, Sch::Str, Sch::I16])
    }
    fn val(&self) -> Val {
        Val::List(vec![self.a.val(), self.b.val(), self.c.val()])
    }
    fn of(v: &Val) -> Self {
        match v {
            Val::List(l) => {
                Skips { x: 9, a: u32::of(&l[0]), y: vec![1], b: String::of(&l[1]), c: i16::of(&l[2]) }
            }
            _ => unreachable!(),
        }
    }
}
/// Converted through another type.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(from = "(u8, String)", into = "(u8, String)")]
pub struct Via {
    a: String,
    b: u8,
}
impl From<(u8, String)> for Via {
    fn from(t: (u8, String)) -> Self {
        Via { a: t.1, b: t.0 }
    }
}
impl From<Via> for (u8, String) {
    fn from(t: Via) -> Self {
        (t.b, t.a)
    }
}
impl Mirror for Via {
    fn sch() -> Sch {
        <(u8, String) as Mirror>::sch()
    }
    fn val(&self) -> Val {
        (self.b, self.a.clone()).val()
    }
    fn of(v: &Val) -> Self {
        <(u8, String)>::of(v).into()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kinds {
    U0,
    N1(u8),
    T2(i16, String, bool),
    S3 { a: u64, b: Option<char>, c: Vec<u8> },
    T4(),
    S5 {},
    N6(Box<Kinds2>),
    O7(#[serde(with = "opaque::variable")] Vec<u8>),
    O8(#[serde(with = "opaque::fixed")] [u8; 6], u8),
    N9((u8, i8)),
    N10(Vec<String>),
    S11 {
        #[serde(with = "signed32")]
        a: RSparse,
        #[serde(with = "opaque::fixed")]
        b: [u8; 2],
    },
    U12,
}
impl Mirror for Kinds {
    fn sch() -> Sch {
        let v = vec![
            Var::Unit,
            Var::New(Sch::U8),
            Var::Tup(vec![Sch::I16, Sch::Str, Sch::Bool]),
            Var::Rec(vec![Sch::U64, Sch::Opt(Sch::Char.into()), Sch::Seq(Sch::U8.into())]),
            Var::Tup(vec![]),
            Var::Rec(vec![]),
            Var::New(Kinds2::sch()),
            Var::New(Sch::OpV),
            Var::Tup(vec![Sch::OpF(6), Sch::U8]),
            Var::New(Sch::Tup(vec![Sch::U8, Sch::I8])),
            Var::New(Sch::Seq(Sch::Str.into())),
            Var::Rec(vec![Sch::S32(Rule::Sparse), Sch::OpF(2)]),
            Var::Unit,
        ];
        Sch::Enum(v.into_iter().enumerate().map(|(i, v)| (i as u32, v)).collect())
    }
    fn val(&self) -> Val {
        match self {
            Kinds::U0 => Val::Variant(0, vec![]),
            Kinds::N1(a) => Val::Variant(1, vec![a.val()]),
            Kinds::T2(a, b, c) => Val::Variant(2, vec![a.val(), b.val(), c.val()]),
            Kinds::S3 { a, b, c } => Val::Variant(3, vec![a.val(), b.val(), c.val()]),
            Kinds::T4() => Val::Variant(4, vec![]),
            Kinds::S5 {} => Val::Variant(5, vec![]),
            Kinds::N6(a) => Val::Variant(6, vec![a.val()]),
            Kinds::O7(a) => Val::Variant(7, vec![Ov::val(a)]),
            Kinds::O8(a, b) => Val::Variant(8, vec![Of::val(a), b.val()]),
            Kinds::N9(a) => Val::Variant(9, vec![a.val()]),
            Kinds::N10(a) => Val::Variant(10, vec![a.val()]),
            Kinds::S11 { a, b } => Val::Variant(11, vec![S3::val(a), Of::val(b)]),
            Kinds::U12 => Val::Variant(12, vec![]),
        }
    }
    fn of(v: &Val) -> Self {
        let Val::Variant(i, l) = v else { unreachable!() };
        match i {
            0 => Kinds::U0,
            1 => Kinds::N1(u8::of(&l[0])),
            2 => Kinds::T2(i16::of(&l[0]), String::of(&l[1]), bool::of(&l[2])),
            3 => Kinds::S3 { a: u64::of(&l[0]), b: Mirror::of(&l[1]), c: Mirror::of(&l[2]) },
            4 => Kinds::T4(),
            5 => Kinds::S5 {},
            6 => Kinds::N6(Mirror::of(&l[0])),
            7 => Kinds::O7(Ov::of(&l[0])),
            8 => Kinds::O8(Of::of(&l[0]), u8::of(&l[1])),
            9 => Kinds::N9(Mirror::of(&l[0])),
            10 => Kinds::N10(Mirror::of(&l[0])),
            11 => Kinds::S11 { a: S3::of(&l[0]), b: Of::of(&l[1]) },
            _ => Kinds::U12,
        }
    }
}

/// Renamed and partly skipped variants: serde numbers what is left.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kinds2 {
    #[serde(rename = "zero")]
    A,
    B(Option<Box<Kinds2>>),
    C { v: [u16; 2] },
}
fn kinds2() -> Sch {
    Kinds2::sch()
}
impl Mirror for Kinds2 {
    fn sch() -> Sch {
        Sch::Enum(vec![
            (0, Var::Unit),
            (1, Var::New(Sch::Opt(Sch::Lazy(kinds2).into()))),
            (2, Var::Rec(vec![Sch::Arr(Sch::U16.into(), 2)])),
        ])
    }
    fn val(&self) -> Val {
        match self {
            Kinds2::A => Val::Variant(0, vec![]),
            Kinds2::B(x) => Val::Variant(1, vec![x.val()]),
            Kinds2::C { v } => Val::Variant(2, vec![v.val()]),
        }
    }
    fn of(v: &Val) -> Self {
        let Val::Variant(i, l) = v else { unreachable!() };
        match i {
            0 => Kinds2::A,
            1 => Kinds2::B(Mirror::of(&l[0])),
            _ => Kinds2::C { v: Mirror::of(&l[0]) },
        }
    }
}

/// The linked list of RFC 4506 section 4.19.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    value: u32,
    next: Option<Box<Node>>,
}
fn node() -> Sch {
    Node::sch()
}
impl Mirror for Node {
    fn sch() -> Sch {
        Sch::Struct(vec![Sch::U32, Sch::Opt(Sch::Lazy(node).into())])
    }
    fn val(&self) -> Val {
        Val::List(vec![self.value.val(), self.next.val()])
    }
    fn of(v: &Val) -> Self {
        let Val::List(l) = v else { unreachable!() };
        Node { value: u32::of(&l[0]), next: Mirror::of(&l[1]) }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    name: String,
    kids: Vec<Tree>,
}
fn tree() -> Sch {
    Tree::sch()
}
impl Mirror for Tree {
    fn sch() -> Sch {
        Sch::Struct(vec![Sch::Str, Sch::Seq(Sch::Lazy(tree).into())])
    }
    fn val(&self) -> Val {
        Val::List(vec![self.name.val(), self.kids.val()])
    }
    fn of(v: &Val) -> Self {
        let Val::List(l) = v else { unreachable!() };
        Tree { name: String::of(&l[0]), kids: Mirror::of(&l[1]) }
    }
}
impl Mirror for Duration {
    // serde refuses a nanosecond part that overflows the seconds; otherwise it carries over.
    fn sch() -> Sch {
        Sch::Struct(vec![Sch::U64, Sch::U32])
    }
    fn val(&self) -> Val {
        Val::List(vec![self.as_secs().val(), self.subsec_nanos().val()])
    }
    fn of(v: &Val) -> Self {
        let Val::List(l) = v else { unreachable!() };
        Duration::new(u64::of(&l[0]), u32::of(&l[1]) % 1_000_000_000)
    }
}

st! { Wide { a0: u8 => D, a1: u16 => D, a2: u32 => D, a3: u64 => D, a4: i8 => D, a5: i16 => D, a6: i32 => D, a7: i64 => D,
    a8: bool => D, a9: char => D, a10: f32 => D, a11: f64 => D, a12: String => D, a13: Option<u8> => D, a14: Vec<u8> => D,
    a15: [u8; 3] => D, a16: (u8, u8) => D, a17: u8 => D, a18: u8 => D, a19: u8 => D, a20: u8 => D, a21: i64 => D } }
st! { Mix { a: Vec<Kinds> => D, b: BTreeMap<String, Vec<Pair>> => D, c: Option<Option<Option<u8>>> => D,
    d: Result<Opaques, String> => D, e: [Option<Signed>; 2] => D, f: New => D, g: Empty => D, h: u32 => D } }

pub struct StaticTy {
    pub name: &'static str,
    pub sch: Sch,
    pub enc: fn(&Val) -> Result<Vec<u8>, Error>,
    pub dec: fn(&[u8]) -> Result<Val, Error>,
}

fn enc<T: Mirror + Serialize>(v: &Val) -> Result<Vec<u8>, Error> {
    serde_xdr::to_bytes(&T::of(v))
}
fn dec<T: Mirror + DeserializeOwned>(b: &[u8]) -> Result<Val, Error> {
    serde_xdr::from_bytes::<T>(b).map(|t| t.val())
}

/// Allocation-neutral: decodes and drops.
macro_rules! tys {
    ($($t:ty),* $(,)?) => {
        vec![$(StaticTy { name: stringify!($t), sch: <$t as Mirror>::sch(), enc: enc::<$t>, dec: dec::<$t> }),*]
    };
}

pub fn all() -> Vec<StaticTy> {
    tys![
        (), bool, i8, i16, i32, i64, u8, u16, u32, u64, usize, isize, f32, f64, char, String, Box<str>,
        Cow<'static, str>, std::path::PathBuf, VariableArray, std::marker::PhantomData<u8>,
        Vec<u8>, Vec<i8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<bool>, Vec<char>, Vec<String>, Vec<Vec<String>>, Vec<Option<u64>>,
        VecDeque<i16>, LinkedList<u8>, Box<[u32]>, BTreeSet<i32>, BTreeSet<String>,
        BTreeMap<u32, String>, BTreeMap<String, BTreeMap<i8, u64>>, BTreeMap<(u8, String), Vec<u8>>, HashMap<u32, u8>,
        HashMap<String, Vec<u16>>, Option<()>, Option<u8>, Option<Option<bool>>, Option<String>, Option<Vec<u8>>,
        Box<u64>, Wrapping<i16>, Result<u8, String>, Result<(), ()>, std::ops::Range<u8>,
        [u8; 0], [u8; 1], [u8; 5], [u64; 3], [String; 2], [[u16; 2]; 3], [Option<u8>; 4], [(u8, bool); 32], [(); 3],
        (u8,), (u8, String), (u8, String, bool), (i64, (u8, ()), [u8; 2], Option<char>),
        (u8, u16, u32, u64, i8, i16, i32, i64, bool, char, f32, String),
        Empty, UnitS, Prims, Opaques, OF1, OpaqueNest, Signed, SignedT, Pair, New, NewOp, Transparent, Skips, Via,
        Kinds, Kinds2, Node, Tree, Wide, Mix, Vec<Kinds>, Option<Box<Kinds>>, Vec<Opaques>, Vec<NewOp>, Vec<Signed>,
    ]
}

//! C07, C08 and C09.
use crate::gen_::*;
use crate::props::{gen_val_some, short, with_bomb};
use crate::sch::*;
use mon::{catch, hash, hexs, Ctx, Rng};
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStructVariant, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use serde_xdr::error::Error;
use serde_xdr::opaque;
use std::collections::BTreeMap;

#[derive(Serialize)]
enum InEnum<'a, T> {
    New(&'a T),
    Tup(u8, &'a T),
    Rec { a: u8, b: &'a T },
}
#[derive(Serialize)]
struct InStruct<'a, T> {
    a: String,
    b: &'a T,
    c: u8,
}
#[derive(Serialize)]
struct InNew<'a, T>(&'a T);

type Res = Result<Vec<u8>, Error>;

thread_local! {
    static FAR: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Something of another length each time, to put other things behind.
fn far() -> String {
    const N: [usize; 12] = [5, 60, 250, 1020, 1100, 4090, 4100, 8200, 17_000, 33_000, 65_530, 70_000];
    let i = FAR.with(|f| f.replace(f.get() + 1));
    "f".repeat(N[i % N.len()])
}

/// Encodes `t` alone and inside one larger value of every kind.
fn contexts<T: Serialize>(t: &T) -> Vec<(&'static str, Res)> {
    let x = serde_xdr::to_bytes;
    vec![
        ("alone", x(t)),
        ("optional", serde_xdr::to_bytes(&Some(t))),
        ("boxed", serde_xdr::to_bytes(&Box::new(t))),
        ("list", serde_xdr::to_bytes(&vec![t])),
        ("array", serde_xdr::to_bytes(&[t])),
        ("tuple", serde_xdr::to_bytes(&(1u8, t, "x"))),
        ("struct", serde_xdr::to_bytes(&InStruct { a: "q".into(), b: t, c: 1 })),
        ("newtype", serde_xdr::to_bytes(&InNew(t))),
        ("newtype variant", serde_xdr::to_bytes(&InEnum::New(t))),
        ("tuple variant", serde_xdr::to_bytes(&InEnum::Tup(1, t))),
        ("struct variant", serde_xdr::to_bytes(&InEnum::Rec { a: 1, b: t })),
        ("map value", serde_xdr::to_bytes(&BTreeMap::from([(1u8, t)]))),
        ("map key", serde_xdr::to_bytes(&KeyMap(t))),
        ("far", serde_xdr::to_bytes(&(far(), t, 5u8))),
        ("deep", serde_xdr::to_bytes(&vec![Some((1u8, [InEnum::New(&InStruct { a: "".into(), b: t, c: 1 })]))])),
    ]
}
struct KeyMap<'a, T>(&'a T);
impl<T: Serialize> Serialize for KeyMap<'_, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(self.0, &1u8)?;
        m.end()
    }
}

struct NoLenSeq(u64);
impl Serialize for NoLenSeq {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        for i in 0..self.0 {
            q.serialize_element(&(i as u32))?;
        }
        q.end()
    }
}
struct NoLenMap(u64);
impl Serialize for NoLenMap {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(None)?;
        for i in 0..self.0 {
            q.serialize_entry(&(i as u32), &(i as u32))?;
        }
        q.end()
    }
}
/// `collect_seq` over an iterator that cannot tell its length.
struct Filtered(Vec<u32>);
impl Serialize for Filtered {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().filter(|x| *x % 2 == 0))
    }
}
struct FilteredMap(Vec<u32>);
impl Serialize for FilteredMap {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().filter(|x| *x % 2 == 0).map(|x| (x, x)))
    }
}
struct LongSeq(usize);
impl Serialize for LongSeq {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(self.0))?;
        q.serialize_element(&1u8)?;
        q.end()
    }
}
struct LongMap(usize);
impl Serialize for LongMap {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_map(Some(self.0))?;
        q.serialize_entry(&1u8, &2u8)?;
        q.end()
    }
}
struct Variant(u32, u64);
impl Serialize for Variant {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.1 {
            0 => s.serialize_unit_variant("E", self.0, "v"),
            1 => s.serialize_newtype_variant("E", self.0, "v", &1u8),
            2 => {
                let mut q = s.serialize_tuple_variant("E", self.0, "v", 1)?;
                q.serialize_field(&1u8)?;
                q.end()
            }
            _ => {
                let mut q = s.serialize_struct_variant("E", self.0, "v", 1)?;
                q.serialize_field("a", &1u8)?;
                q.end()
            }
        }
    }
}

fn all_refused<T: Serialize>(c: &mut Ctx, what: &str, desc: String, t: &T) {
    c.note(|| desc.clone());
    for (ctx, r) in contexts(t) {
        c.eval();
        c.distinct(hash(desc.as_bytes()) ^ hash(ctx.as_bytes()));
        match r {
            Err(_) => c.count(what),
            Ok(b) => return c.violation(&format!("{desc} ({ctx}) is not refused but encoded as {}", hexs(&b))),
        }
    }
}

#[derive(Debug, Deserialize)]
#[serde(untagged)]
#[allow(dead_code)]
enum Untagged {
    A(u32),
    B(String),
    C(()),
    D { x: bool },
}
#[derive(Debug, Deserialize)]
#[serde(tag = "t")]
#[allow(dead_code)]
enum Tagged {
    A { x: u32 },
    B,
}
#[derive(Debug)]
#[allow(dead_code)]
struct Any;
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_bool<E>(self, _: bool) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_i64<E>(self, _: i64) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_u64<E>(self, _: u64) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_f64<E>(self, _: f64) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_str<E>(self, _: &str) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_bytes<E>(self, _: &[u8]) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_unit<E>(self) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_none<E>(self) -> Result<Any, E> {
                Ok(Any)
            }
            fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
                d.deserialize_any(self)
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                while a.next_element::<Any>()?.is_some() {}
                Ok(Any)
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                while a.next_entry::<Any, Any>()?.is_some() {}
                Ok(Any)
            }
        }
        d.deserialize_any(V)
    }
}

fn must_not_decode<T: DeserializeOwned>(c: &mut Ctx, what: &'static str, name: &str, b: &[u8]) {
    c.note(|| format!("{name} from {}", hexs(b)));
    c.eval();
    c.distinct(hash(name.as_bytes()) ^ hash(b));
    match catch(|| serde_xdr::from_bytes::<T>(b).is_ok()) {
        Ok(false) => c.count(what),
        Ok(true) => c.violation(&format!("{name} is decoded from {} without self-describing data", hexs(b))),
        Err(m) => c.violation(&format!("decoding {name} from {} panicked: {m}", hexs(b))),
    }
    // The same behind other data.
    let mut long = ref_enc(&Sch::Str, &Val::Str(far())).out;
    long.extend_from_slice(b);
    c.eval();
    match catch(|| serde_xdr::from_bytes::<(String, T)>(&long).is_ok()) {
        Ok(false) => c.count(what),
        Ok(true) => c.violation(&format!("{name} is decoded from {} without self-describing data, after {} bytes", hexs(b), long.len() - b.len())),
        Err(m) => c.violation(&format!("decoding {name} from {} after {} bytes panicked: {m}", hexs(b), long.len() - b.len())),
    }
}

pub fn c07(c: &mut Ctx) {
    let shard = c.shard;
    // Lengths of 2^32 and more, with the data really there.
    if shard < 2 && !cfg!(miri) {
        c.cases(1, 1, |c, r| {
            let n = (1usize << 32) + if r.bool() { 0 } else { r.usize(1000) };
            let data = vec![0u8; n];
            c.note(|| format!("{n} bytes of data"));
            c.eval();
            let (what, res) = if shard == 0 {
                if r.bool() {
                    ("text", serde_xdr::to_bytes(&(1u8, std::str::from_utf8(&data[..]).unwrap())))
                } else {
                    ("byte string", serde_xdr::to_bytes(&(1u8, crate::big::Raw(&data))))
                }
            } else {
                struct O<'a>(&'a Vec<u8>);
                impl Serialize for O<'_> {
                    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                        opaque::variable::serialize(self.0, s)
                    }
                }
                ("variable opaque", serde_xdr::to_bytes(&(1u8, O(&data))))
            };
            match res {
                Err(_) => c.count("refused a length over 32 bits"),
                Ok(b) => c.violation(&format!("{what} of {n} bytes is not refused but encoded as {} bytes", b.len())),
            }
            c.distinct(n as u64);
        });
    }
    c.cases(1500, 40_000, |c, r| {
        let n = r.below(6);
        all_refused(c, "refused an unknown length", format!("sequence of unknown length with {n} elements"), &NoLenSeq(n));
        all_refused(c, "refused an unknown length", format!("map of unknown length with {n} entries"), &NoLenMap(n));
        let l: Vec<u32> = (0..1 + n).map(|_| r.next() as u32).collect();
        // (An iterator that happens to be empty of candidates knows its length.)
        all_refused(c, "refused an unknown length", format!("collected sequence over {l:?}"), &Filtered(l.clone()));
        all_refused(c, "refused an unknown length", format!("collected map over {l:?}"), &FilteredMap(l));
        let big = match r.below(3) {
            0 => 1usize << 32,
            1 => (1usize << (32 + r.below(32))) + r.usize(5),
            _ => usize::MAX - r.usize(5),
        };
        all_refused(c, "refused a length over 32 bits", format!("sequence of {big} elements"), &LongSeq(big));
        all_refused(c, "refused a length over 32 bits", format!("map of {big} entries"), &LongMap(big));
        let w = r.next();
        all_refused(c, "refused 128 bits", format!("i128 {w}"), &(w as i64 as i128));
        all_refused(c, "refused 128 bits", format!("u128 {w}"), &(w as u128));
        let idx = 0x8000_0000u32 | r.mag(31) as u32;
        let k = r.below(4);
        all_refused(c, "refused a variant index", format!("variant {idx} of kind {k}"), &Variant(idx, k));

        let b = noise(r);
        let e = "refused self-describing";
        must_not_decode::<IgnoredAny>(c, e, "IgnoredAny", &b);
        must_not_decode::<Any>(c, e, "a type that asks for any value", &b);
        must_not_decode::<Untagged>(c, e, "an untagged enum", &b);
        must_not_decode::<Tagged>(c, e, "an internally tagged enum", &b);
        must_not_decode::<i128>(c, "refused 128 bits", "i128", &b);
        must_not_decode::<u128>(c, "refused 128 bits", "u128", &b);
        must_not_decode::<(u32, IgnoredAny)>(c, e, "a tuple with IgnoredAny", &[&[0, 0, 0, 1][..], &b].concat());
        must_not_decode::<Vec<Any>>(c, e, "a list of any values", &[&[0, 0, 0, 1][..], &b].concat());
        must_not_decode::<Option<Untagged>>(c, e, "an optional untagged enum", &[&[0, 0, 0, 1][..], &b].concat());
        must_not_decode::<BTreeMap<u8, Box<Untagged>>>(c, e, "a map of untagged enums", &[&[0, 0, 0, 1, 0, 0, 0, 7][..], &b].concat());
    });
    c.cases(30_000, 1_000_000, |c, r| {
        // Failing user code at a random depth, after and before other data.
        let d = r.below(3) as u32;
        let s = gen_sch(r, d);
        let s = with_bomb(r, s, false);
        let s = match r.below(5) {
            0 => Sch::Seq(s.into()),
            1 => Sch::Map(MapKind::List, Sch::U8.into(), s.into()),
            2 => Sch::Map(MapKind::List, s.into(), Sch::U8.into()),
            3 => Sch::Struct(vec![gen_leaf(r), s, gen_leaf(r)]),
            _ => s,
        };
        let v = gen_val_some(r, &s);
        let id = r.next();
        BOMB_ID.with(|b| b.set(id));
        let msg = bomb_msg();
        let says = |e: &Error| match e {
            Error::Custom(m) => m.contains(&msg),
            e => e.to_string().contains(&msg),
        };
        c.note(|| format!("{s:?} value {}", short(&v)));
        c.eval();
        match real_enc(&s, &v) {
            Err(e) if says(&e) => c.count("propagated an encoding error"),
            o => return c.violation(&format!("user code failed with {msg:?}, but encoding gave {}\n{s:?}\nvalue {}", short(&o), short(&v))),
        }
        let mut b = ref_enc(&s, &v).out;
        if r.bool() {
            let n = r.usize(20);
            b.extend_from_slice(&r.bytes(n));
        }
        c.eval();
        c.distinct(hash(format!("{s:?}").as_bytes()) ^ hash(&b));
        match real_dec(&s, &b) {
            Err(e) if says(&e) => c.count("propagated a decoding error"),
            o => return c.violation(&format!("user code failed with {msg:?}, but decoding gave {}\n{s:?}\nbytes {}", short(&o), hexs(&b))),
        }
        c.sample(|| format!("{s:?} fails with {msg}"));
    });
}

// ------------------------------------------------------------------ C08

struct Fixed<'a, T>(&'a T);
impl<T: Serialize + AsRef<[u8]>> Serialize for Fixed<'_, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        opaque::fixed::serialize(self.0, s)
    }
}
struct Variable<'a, T>(&'a T);
impl<T: Serialize + AsRef<[u8]>> Serialize for Variable<'_, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        opaque::variable::serialize(self.0, s)
    }
}

pub fn c08(c: &mut Ctx) {
    crate::big::opaque(c);
    c08_some(c, if c.thorough { 150_000 } else { 4000 });
}

pub fn c08_some(c: &mut Ctx, n: u64) {
    c.cases(n, n, |c, r| {
        let len = match r.below(8) {
            0 if !cfg!(miri) => *r.pick(&BIG_N),
            1 if !cfg!(miri) => *r.pick(&HUGE_N),
            2 if !cfg!(miri) => match r.word_size(1 << 18) {
                Some(n) => n,
                None => 65530 + r.usize(12),
            },
            _ => r.usize(41),
        };
        let data = r.bytes(len);
        let pad = vec![0u8; (4 - len % 4) % 4];
        let word = (len as u32).to_be_bytes().to_vec();
        let fixed = [data.clone(), pad.clone()].concat();
        let var = [word, data.clone(), pad].concat();
        let keep = data.clone();

        let mut list: Vec<(String, Res, &Vec<u8>)> = vec![
            ("fixed Vec".into(), serde_xdr::to_bytes(&Fixed(&data)), &fixed),
            ("variable Vec".into(), serde_xdr::to_bytes(&Variable(&data)), &var),
            ("variable slice".into(), serde_xdr::to_bytes(&Variable(&&data[..])), &var),
            ("fixed slice".into(), serde_xdr::to_bytes(&Fixed(&&data[..])), &fixed),
            ("fixed Box".into(), serde_xdr::to_bytes(&Fixed(&data.clone().into_boxed_slice())), &fixed),
            ("wrapper".into(), serde_xdr::to_bytes(&opaque::VariableArray { data: data.clone() }), &var),
            ("byte string".into(), serde_xdr::to_bytes(&crate::big::Raw(&data)), &var),
        ];
        if let Ok(s) = String::from_utf8(data.clone()) {
            list.push(("fixed String".into(), serde_xdr::to_bytes(&Fixed(&s)), &fixed));
            list.push(("variable String".into(), serde_xdr::to_bytes(&Variable(&s)), &var));
        }
        if let Ok(a) = <[u8; 7]>::try_from(&data[..]) {
            list.push(("fixed [u8; 7]".into(), serde_xdr::to_bytes(&Fixed(&a)), &fixed));
            list.push(("variable [u8; 7]".into(), serde_xdr::to_bytes(&Variable(&a)), &var));
        }
        for (k, got, want) in list {
            c.note(|| format!("{k} of {}", hexs(&data)));
            c.eval();
            match got {
                Ok(b) if b == *want => {
                    c.count(if k.starts_with("fixed") {
                        "fixed"
                    } else if k == "wrapper" {
                        "wrapper"
                    } else if k == "byte string" {
                        "same as byte string"
                    } else {
                        "variable"
                    });
                    c.distinct(hash(k.as_bytes()) ^ hash(&b));
                }
                Ok(b) => {
                    return c.violation(&format!("{k} of {len} bytes is encoded wrongly\ngot  {}\nwant {}", hexs(&b), hexs(want)));
                }
                Err(e) => return c.violation(&format!("{k} of {} is refused: {e:?}", hexs(&data))),
            }
        }
        if keep != data {
            return c.violation(&format!("the caller's bytes were changed from {} to {}", hexs(&keep), hexs(&data)));
        }
        // Decoding, alone and inside a larger value, with a following field.
        let forms: Vec<Sch> = if len <= 40 || BIG_N.contains(&len) || HUGE_N.contains(&len) {
            vec![Sch::OpF(len), Sch::OpV, Sch::OpW]
        } else {
            vec![Sch::OpV, Sch::OpW]
        };
        for f in forms {
            let inner = Val::Bytes(data.clone());
            let k = r.usize(3);
            let fol = gen_leaf(r);
            let pre = gen_leaf(r);
            let fv = gen_val_some(r, &fol);
            let pv = gen_val_some(r, &pre);
            let idx = r.mag(31) as u32;
            let all: Vec<(Sch, Val)> = vec![
                (f.clone(), inner.clone()),
                (Sch::Opt(f.clone().into()), Val::Some(inner.clone().into())),
                (Sch::Newtype(f.clone().into()), Val::List(vec![inner.clone()])),
                (Sch::Enum(vec![(idx, Var::New(f.clone()))]), Val::Variant(0, vec![inner.clone()])),
                (Sch::Enum(vec![(idx, Var::Rec(vec![f.clone()]))]), Val::Variant(0, vec![inner.clone()])),
                (Sch::Enum(vec![(idx, Var::Tup(vec![f.clone()]))]), Val::Variant(0, vec![inner.clone()])),
                (Sch::Tup(vec![f.clone(), f.clone()]), Val::List(vec![inner.clone(); 2])),
                (Sch::Arr(f.clone().into(), k), Val::List(vec![inner.clone(); k])),
                (Sch::Map(MapKind::List, Sch::U8.into(), f.clone().into()), Val::Map(vec![(Val::U(1), inner.clone()); k])),
            ];
            let mut all = all;
            if min_size(&f, 0) > 0 {
                all.push((Sch::Seq(f.clone().into()), Val::List(vec![inner.clone(); k])));
            }
            for (s, v) in all {
                let s = Sch::Struct(vec![pre.clone(), s, fol.clone()]);
                let v = Val::List(vec![pv.clone(), v, fv.clone()]);
                let want = ref_enc(&s, &v).out;
                c.note(|| format!("{s:?} value {}", short(&v)));
                c.eval();
                c.distinct(hash(format!("{s:?}").as_bytes()) ^ hash(&want));
                match real_enc(&s, &v) {
                    Ok(b) if b == want => {}
                    o => return c.violation(&format!("encoded wrongly\n{s:?}\nvalue {}\ngot  {}\nwant {}", short(&v), short(&o.map(|b| hexs(&b))), hexs(&want))),
                }
                let back = real_dec(&s, &want);
                // What the padding of the data holds makes no difference.
                let pad = (4 - len % 4) % 4;
                if let (Sch::Struct(f), true) = (&s, pad > 0 && matches!(back, Ok(_))) {
                    let at = ref_enc(&f[0], &pv).out.len();
                    if matches!(f[1], Sch::OpF(_) | Sch::OpV | Sch::OpW | Sch::Newtype(_) | Sch::Opt(_)) {
                        let end = want.len() - ref_enc(&f[2], &fv).out.len();
                        if end - pad >= at {
                            let mut dirty = want.clone();
                            for x in &mut dirty[end - pad..end] {
                                *x = r.below(256) as u8;
                            }
                            c.eval();
                            match real_dec(&s, &dirty) {
                                Ok(w) if w == canon(&s, v.clone()) => c.count("with padding other than zero"),
                                o => return c.violation(&format!("decoded wrongly\n{s:?}\nbytes {}\ngot  {}\nwant {}", hexs(&dirty), short(&o), short(&v))),
                            }
                        }
                    }
                }
                match back {
                    Ok(w) if w == canon(&s, v.clone()) => c.count("inside a larger value"),
                    o => return c.violation(&format!("decoded wrongly\n{s:?}\nbytes {}\ngot  {}\nwant {}", hexs(&want), short(&o), short(&v))),
                }
            }
        }
        c.sample(|| format!("{len} bytes {}", hexs(&data)));
    });
}

// ------------------------------------------------------------------ C09

pub fn c09(c: &mut Ctx) {
    crate::sweep::words(c, crate::sweep::What::Signed32);
    c.cases(200_000, 8_000_000, |c, r| {
        let rule = *r.pick(&RULES);
        let n: i32 = match r.below(4) {
            0 => *r.pick(&SPARSE),
            1 => r.range(-300, 300) as i32,
            _ => {
                let m = r.mag(32) as u32 as i32;
                if r.bool() { m.wrapping_neg() } else { m }
            }
        };
        if n < 0 {
            c.count("negative");
        }
        let f = Sch::S32(rule);
        // Encoding: the number the item carries, whatever the conversion back would say.
        let (pre, fol) = (gen_leaf(r), gen_leaf(r));
        let (pv, fv) = (gen_val_some(r, &pre), gen_val_some(r, &fol));
        let word = (n as u32).to_be_bytes();
        let wrap = |s: &Sch, v: Val, k: u64, r: &mut Rng| -> (Sch, Val) {
            let s = s.clone();
            match k {
                0 => (s, v),
                1 => (Sch::Opt(s.into()), Val::Some(v.into())),
                2 => (Sch::Seq(s.into()), Val::List(vec![v; 1])),
                3 => (Sch::Struct(vec![pre.clone(), s, fol.clone()]), Val::List(vec![pv.clone(), v, fv.clone()])),
                4 => (Sch::Enum(vec![(r.below(9) as u32, Var::New(s))]), Val::Variant(0, vec![v])),
                5 => (Sch::Enum(vec![(r.below(9) as u32, Var::Rec(vec![pre.clone(), s]))]), Val::Variant(0, vec![pv.clone(), v])),
                6 => (Sch::Map(MapKind::List, s.into(), pre.clone().into()), Val::Map(vec![(v, pv.clone())])),
                7 => (Sch::Map(MapKind::List, pre.clone().into(), s.into()), Val::Map(vec![(pv.clone(), v)])),
                8 => (Sch::TupStruct(vec![s, fol.clone()]), Val::List(vec![v, fv.clone()])),
                _ => (Sch::Arr(s.into(), 1), Val::List(vec![v])),
            }
        };
        let k = r.below(10);
        let (s, v) = wrap(&f, Val::I(n as i64), k, r);
        c.note(|| format!("{rule:?} number {n} in {s:?}"));
        c.eval();
        if k > 0 {
            c.count("inside a larger value");
        }
        let want = ref_enc(&s, &v).out;
        c.distinct(hash(format!("{s:?}").as_bytes()) ^ n as u64);
        match real_enc(&s, &v) {
            Ok(b) if b == want => c.count("encoded"),
            o => return c.violation(&format!("number {n} is not encoded as {}\n{s:?}\ngot  {}\nwant {}", hexs(&word), short(&o.map(|b| hexs(&b))), hexs(&want))),
        }
        c.eval();
        let got = real_dec(&s, &want);
        match rule.conv(n) {
            Some(_) => {
                let expect = canon(&s, v);
                match got {
                    Ok(w) if w == expect => c.count("decoded"),
                    o => return c.violation(&format!("number {n} is not decoded as the conversion {rule:?} says\n{s:?}\nbytes {}\ngot  {}\nwant {}", hexs(&want), short(&o), short(&expect))),
                }
            }
            None => match got {
                Err(e) => {
                    let m = format!("{e}");
                    let num = n.to_string();
                    let named = m.split(|ch: char| !ch.is_ascii_digit() && ch != '-').any(|t| t == num);
                    if !named {
                        return c.violation(&format!("the error for the refused number {n} does not name it: {m}\n{s:?}"));
                    }
                    c.count("refused by the conversion");
                }
                Ok(w) => return c.violation(&format!("number {n}, which the conversion refuses, is decoded as {}\n{s:?}", short(&w))),
            },
        }
        c.sample(|| format!("{rule:?} number {n} in {s:?}: {}", hexs(&want)));
    });
}

//! Sizes that only matter when they are large: past 2^8, 2^16, 2^24, 2^31 and next to 2^32.
use crate::alloc;
use mon::{Ctx, Rng};
use serde::de::{self, Deserializer, Visitor};
use serde::ser::{SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};
use std::fmt;

pub struct Raw<'a>(pub &'a [u8]);
impl Serialize for Raw<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

/// Compares decoded bytes with what was sent without keeping a copy.
pub struct Seen(pub usize, pub u64);
fn digest(b: &[u8]) -> u64 {
    // Cheap on zeros, exact on length and on sampled positions.
    let mut h = b.len() as u64;
    let step = (b.len() / 4096).max(1);
    let mut i = 0;
    while i < b.len() {
        h = h.rotate_left(5) ^ (b[i] as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(i as u64);
        i += step;
    }
    if let Some(x) = b.last() {
        h = h.rotate_left(5) ^ *x as u64;
    }
    h
}
struct SeenV;
impl<'de> Visitor<'de> for SeenV {
    type Value = Seen;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Seen, E> {
        Ok(Seen(v.len(), digest(v)))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Seen, E> {
        Ok(Seen(v.len(), digest(v.as_bytes())))
    }
}
impl<'de> Deserialize<'de> for Seen {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_bytes(SeenV)
    }
}
pub struct SeenStr(pub Seen);
impl<'de> Deserialize<'de> for SeenStr {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_str(SeenV).map(SeenStr)
    }
}

fn sizes(shard: u64, thorough: bool) -> Vec<usize> {
    // One group of sizes per worker.
    match shard {
        0 => vec![(1 << 31) + 5],
        1 => vec![(1 << 31) - 1],
        2 => vec![(1 << 24) + 1, (1 << 24) - 1, 1 << 24],
        3 if thorough => vec![(1usize << 32) - 1],
        3 => vec![(1 << 28) + 3],
        _ => vec![65533, 65534, 65535, 65536, 65537, 65539, 131071, 131072, 1_000_003],
    }
}

fn lists(shard: u64) -> Vec<usize> {
    match shard {
        2 => vec![(1 << 24) + 1],
        4 => vec![255, 256, 65535, 65536, 65537, 200_001],
        5 => vec![(1 << 20) - 1, (1 << 20) + 1, (1 << 22) + 3],
        6 => vec![1023, 1025, 4095, 4097, 16383, 16385, 131_071, 131_073, 1_000_001],
        _ => vec![255, 65537],
    }
}

pub fn encode(c: &mut Ctx) {
    let (shard, thorough) = (c.shard, c.thorough);
    if cfg!(miri) {
        return;
    }
    c.cases(1, 1, |c, r| {
        for n in sizes(shard, thorough) {
            let mut data = vec![0u8; n];
            for _ in 0..64 {
                let i = r.usize(n);
                data[i] = 1 + r.below(127) as u8;
            }
            *data.last_mut().unwrap() = b'z';
            c.note(|| format!("{n} bytes"));
            c.eval();
            let text = r.bool();
            let got = if text {
                serde_xdr::to_bytes(&std::str::from_utf8(&data).unwrap())
            } else {
                serde_xdr::to_bytes(&Raw(&data))
            };
            let pad = (4 - n % 4) % 4;
            match got {
                Ok(b) => {
                    if b.len() != 4 + n + pad
                        || b[..4] != (n as u32).to_be_bytes()
                        || b[4..4 + n] != data[..]
                        || b[4 + n..].iter().any(|x| *x != 0)
                    {
                        return c.violation(&format!("{n} bytes (text: {text}) are not encoded as their length, themselves and {pad} zeros: got {} bytes, starting {:?}", b.len(), &b[..b.len().min(8)]));
                    }
                    c.distinct(n as u64);
                    c.max("largest encoding", b.len() as u64);
                }
                Err(e) => return c.violation(&format!("encoding {n} bytes (text: {text}) failed: {e:?}")),
            }
        }
        // Long lists.
        for n in lists(shard) {
            let l: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            c.eval();
            let want: Vec<u8> =
                (n as u32).to_be_bytes().into_iter().chain(l.iter().flat_map(|x| (*x as u32).to_be_bytes())).collect();
            match serde_xdr::to_bytes(&l) {
                Ok(b) if b == want => c.distinct(n as u64 + 7),
                o => return c.violation(&format!("a list of {n} numbers is encoded as {:?}", o.map(|b| b[..8].to_vec()))),
            }
        }
        if shard == 7 {
            units_of(c, if thorough { (1 << 31) + 3 } else { (1 << 24) + 3 });
        }
    });
}

/// A list of many elements that occupy nothing.
struct Units(usize);
impl Serialize for Units {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(self.0))?;
        for _ in 0..self.0 {
            q.serialize_element(&())?;
        }
        q.end()
    }
}

fn units_of(c: &mut Ctx, n: usize) {
    c.eval();
    let (r, peak) = alloc::peak(|| serde_xdr::to_bytes(&Units(n)));
    match r {
        Ok(b) if b == (n as u32).to_be_bytes() => {
            if peak > 4096 {
                c.violation(&format!("encoding 4 bytes (a list of {n} empty elements) held {peak} bytes"));
            }
            c.distinct(n as u64 + 1);
        }
        o => c.violation(&format!("a list of {n} empty elements is encoded as {:?}", o.map(|b| b.len()))),
    }
}

pub fn units(c: &mut Ctx) {
    c.cases(1, 1, |c, r| {
        let n = (1 << 22) + r.usize(100);
        units_of(c, n);
    });
}

pub fn roundtrip(c: &mut Ctx) {
    let (shard, thorough) = (c.shard, c.thorough);
    c.cases(1, 1, |c, r| {
        for n in sizes(shard, thorough) {
            let mut data = vec![0u8; n];
            for _ in 0..64 {
                let i = r.usize(n);
                data[i] = 1 + r.below(127) as u8;
            }
            *data.last_mut().unwrap() = b'z';
            let want = digest(&data);
            c.note(|| format!("{n} bytes"));
            c.eval();
            let enc = serde_xdr::to_bytes(&Raw(&data));
            drop(data);
            let b = match enc {
                Ok(b) => b,
                Err(e) => return c.violation(&format!("encoding {n} bytes failed: {e:?}")),
            };
            let got = if r.bool() {
                serde_xdr::from_bytes::<Seen>(&b)
            } else {
                serde_xdr::from_bytes::<SeenStr>(&b).map(|s| s.0)
            };
            match got {
                Ok(s) if s.0 == n && s.1 == want => {
                    c.distinct(n as u64);
                    c.max("largest decoded", n as u64);
                }
                Ok(s) => return c.violation(&format!("{n} bytes decode as {} bytes or with other content", s.0)),
                Err(e) => return c.violation(&format!("decoding the encoding of {n} bytes failed: {e:?}")),
            }
        }
        for n in lists(shard) {
            let l: Vec<i16> = (0..n).map(|i| (i % 40001) as i16).collect();
            let m: std::collections::BTreeMap<u32, bool> = (0..n as u32).map(|i| (i, i % 3 == 0)).collect();
            c.eval();
            let x = serde_xdr::to_bytes(&(&l, &m)).and_then(|b| serde_xdr::from_bytes::<(Vec<i16>, std::collections::BTreeMap<u32, bool>)>(&b));
            match x {
                Ok((a, b)) if a == l && b == m => c.distinct(n as u64 + 7),
                Ok(_) => return c.violation(&format!("a list and a map of {n} entries decode as others")),
                Err(e) => return c.violation(&format!("a list and a map of {n} entries do not decode: {e:?}")),
            }
        }
        // Lists of what occupies nothing, longer than anything that is present.
        let n = match shard {
            0 => 1 << 24,
            1 => 5001,
            2 => 65537,
            _ => r.mag(20) as usize,
        };
        c.eval();
        c.note(|| format!("lists of {n} void elements"));
        let v = (vec![(); n], vec![[0u64; 0]; n.min(99_999)], 7u8);
        match serde_xdr::to_bytes(&v).and_then(|b| serde_xdr::from_bytes::<(Vec<()>, Vec<[u64; 0]>, u8)>(&b)) {
            Ok(w) if w == v => c.count("lists of void elements"),
            o => return c.violation(&format!("lists of {n} void elements decode as {:?}", o.map(|w| (w.0.len(), w.1.len(), w.2)))),
        }
    });
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub enum Deep {
    End(u8),
    Opt(Option<Box<Deep>>),
    List(Vec<Deep>),
    Pair(Box<Deep>, bool),
    Rec { a: i8, b: Box<Deep> },
    New(Box<DeepNew>),
    Map(std::collections::BTreeMap<u16, Deep>),
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct DeepNew(Box<DeepStruct>);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct DeepStruct {
    a: Option<Option<(Box<Deep>, u8)>>,
}

/// Values nested as deeply as memory allows, of types that contain themselves; with each container alone and all mixed.
pub fn deep(c: &mut Ctx) {
    if cfg!(miri) {
        return;
    }
    let thorough = c.thorough;
    c.cases(8, 60, |c, r| {
        let depth = match r.below(4) {
            0 => 100 + r.usize(1000),
            1 => 1000 + r.usize(4000),
            2 => 5000 + r.usize(10_000),
            _ if thorough => 100_000,
            _ => 20_000,
        };
        let only = if r.one_in(4) { None } else { Some(1 + r.below(6)) };
        c.note(|| format!("{depth} levels, {only:?}"));
        let plan: Vec<(u64, u32)> = (0..depth).map(|_| (only.unwrap_or(1 + r.below(6)), r.next() as u32)).collect();
        let run = move || -> Result<u64, String> {
            // Inside out; what stands before and behind the inner value.
            let mut v = Deep::End(9);
            let (mut before, mut behind): (Vec<Vec<u32>>, Vec<u32>) = (vec![vec![0, 9]], vec![]);
            for (k, x) in &plan {
                let b = Box::new(v);
                let (small, flag, key) = (*x as i8, x % 2 == 1, *x as u16);
                v = match k {
                    1 => {
                        before.push(vec![1, 1]);
                        Deep::Opt(Some(b))
                    }
                    2 => {
                        before.push(vec![2, 1]);
                        Deep::List(vec![*b])
                    }
                    3 => {
                        before.push(vec![3]);
                        behind.push(flag as u32);
                        Deep::Pair(b, flag)
                    }
                    4 => {
                        before.push(vec![4, small as i32 as u32]);
                        Deep::Rec { a: small, b }
                    }
                    5 => {
                        before.push(vec![5, 1, 1]);
                        behind.push(key as u8 as u32);
                        Deep::New(Box::new(DeepNew(Box::new(DeepStruct { a: Some(Some((b, key as u8))) }))))
                    }
                    _ => {
                        before.push(vec![6, 1, key as u32]);
                        Deep::Map([(key, *b)].into())
                    }
                };
            }
            let want: Vec<u8> = before.into_iter().rev().flatten().chain(behind).flat_map(u32::to_be_bytes).collect();
            let got = serde_xdr::to_bytes(&v).map_err(|e| format!("encoding failed: {e:?}"))?;
            if got != want {
                return Err(format!("encoded wrongly, {} bytes instead of {}", got.len(), want.len()));
            }
            let w: Deep = serde_xdr::from_bytes(&want).map_err(|e| format!("decoding failed: {e:?}"))?;
            // Not compared by recursion: by what it encodes to, which was right above.
            let again = serde_xdr::to_bytes(&w).map_err(|e| format!("encoding again failed: {e:?}"))?;
            if again != want {
                return Err("decoded as another value".into());
            }
            Ok(crate::big::digest(&want))
        };
        c.eval();
        let t = std::thread::Builder::new().stack_size(3 << 30).spawn(run).map(|h| h.join());
        match t {
            Ok(Ok(Ok(h))) => {
                c.count("nested thousands deep");
                c.distinct(h);
                c.max("deepest", depth as u64);
            }
            Ok(Ok(Err(m))) => c.violation(&format!("a value of {depth} levels ({only:?}): {m}")),
            Ok(Err(_)) => c.violation(&format!("a value of {depth} levels ({only:?}): panicked")),
            Err(e) => c.inconclusive(&format!("no thread: {e}")),
        }
    });
}

/// Long opaque data through the helpers, with something before and behind it.
pub fn opaque(c: &mut Ctx) {
    use serde_xdr::opaque::{self, VariableArray};
    #[derive(Serialize, Deserialize)]
    struct S {
        a: u8,
        #[serde(with = "opaque::variable")]
        b: Vec<u8>,
        c: Option<VariableArray>,
        d: u64,
    }
    struct F<'a>(&'a [u8]);
    impl Serialize for F<'_> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            opaque::fixed::serialize(&self.0, s)
        }
    }
    if cfg!(miri) {
        return;
    }
    let (shard, thorough) = (c.shard, c.thorough);
    c.cases(1, 1, |c, r| {
        let sizes: &[usize] = match shard {
            0 => &[(1 << 24) + 1, (1 << 24) - 1],
            1 => &[(1 << 22) + 2, 1 << 22, (1 << 23) + 3],
            2 => &[(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 3],
            3 if thorough => &[(1 << 30) + 1],
            3 => &[(1 << 26) + 1],
            4 => &[65533, 65535, 65536, 65537, 131071, 131073],
            5 => &[262_143, 262_145, 524_289, 1_000_001],
            6 => &[1023, 1025, 4095, 4097, 8191, 8193, 16383, 16386, 32767, 32769],
            _ => &[(1 << 25) + 3],
        };
        for &n in sizes {
            let k = r.next() | 1;
            let data: Vec<u8> = (0..n as u64).map(|i| (i.wrapping_mul(k) >> 7) as u8).collect();
            let pad = (4 - n % 4) % 4;
            let mut form = (n as u32).to_be_bytes().to_vec();
            form.extend_from_slice(&data);
            form.resize(4 + n + pad, 0);
            c.note(|| format!("{n} bytes of opaque data"));
            c.eval();
            match serde_xdr::to_bytes(&F(&data)) {
                Ok(b) if b == form[4..] => {}
                o => return c.violation(&format!("the fixed form of {n} bytes is wrong: {:?}", o.map(|b| b.len()))),
            }
            let s = S { a: 7, b: data, c: Some(VariableArray { data: vec![1; 5] }), d: 9 };
            let mut want = vec![0, 0, 0, 7];
            want.extend_from_slice(&form);
            drop(form);
            want.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 5, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9]);
            match serde_xdr::to_bytes(&s) {
                Ok(b) if b == want => {}
                o => return c.violation(&format!("a structure with {n} bytes of opaque data is encoded wrongly: {:?}", o.map(|b| b.len()))),
            }
            match serde_xdr::from_bytes::<S>(&want) {
                Ok(t) if t.a == 7 && t.b == s.b && t.c == s.c && t.d == 9 => {}
                Ok(t) => return c.violation(&format!("{n} bytes of opaque data decode as {} or as others", t.b.len())),
                Err(e) => return c.violation(&format!("{n} bytes of opaque data do not decode: {e:?}")),
            }
            // The same bytes as wrapped data, second.
            let w = S { a: 7, b: vec![], c: Some(VariableArray { data: s.b }), d: 9 };
            match serde_xdr::to_bytes(&w).and_then(|b| serde_xdr::from_bytes::<S>(&b)) {
                Ok(t) if t.b.is_empty() && t.c == w.c && t.d == 9 => {
                    c.count("long opaque data");
                    c.distinct(n as u64);
                }
                o => return c.violation(&format!("{n} bytes of wrapped opaque data do not come back: {:?}", o.err())),
            }
            c.max("longest opaque data", n as u64);
        }
    });
}

fn zeros(n: usize) -> Option<Vec<u8>> {
    let layout = std::alloc::Layout::array::<u8>(n).ok()?;
    // Safety: the layout is not empty, and the vector frees what it was allocated with.
    unsafe {
        let p = std::alloc::alloc_zeroed(layout);
        if p.is_null() { None } else { Some(Vec::from_raw_parts(p, n, n)) }
    }
}

/// Very long rests, and very long values cut short.
pub fn ends(c: &mut Ctx) {
    use serde_xdr::error::Error;
    let (shard, thorough) = (c.shard, c.thorough);
    c.cases(1, 1, |c, r| {
        let rests: Vec<usize> = match shard {
            0 => vec![1 << 32, (1 << 32) + 4],
            1 => vec![(1 << 31) - 4, 1 << 31, (1 << 31) + 1],
            2 => vec![(1 << 24) - 1, 1 << 24, (1 << 24) + 1],
            3 => vec![65535, 65536, 65537, 1 << 20],
            4 => vec![(1 << 32) - 1, (1 << 32) + 65536],
            5 if thorough => vec![(1 << 33) + 12],
            _ => (0..40).map(|_| 1 + r.mag(26) as usize).collect(),
        };
        for k in rests {
            // Zeros that are never touched occupy no memory.
            let Some(b) = zeros(k + 8) else { return c.count("no room for a long rest") };
            c.note(|| format!("{k} bytes behind a value"));
            let list: Vec<(&str, Result<(), Error>)> = vec![
                ("u64", serde_xdr::from_bytes::<u64>(&b).map(|_| ())),
                ("(i32, f32)", serde_xdr::from_bytes::<(i32, f32)>(&b).map(|_| ())),
                ("(String, Vec<u8>)", serde_xdr::from_bytes::<(String, Vec<u8>)>(&b).map(|_| ())),
                ("[Option<u64>; 2]", serde_xdr::from_bytes::<[Option<u64>; 2]>(&b).map(|_| ())),
                ("Result<u8, ()>", serde_xdr::from_bytes::<Result<u8, ()>>(&b).map(|_| ())),
            ];
            for (t, o) in list {
                c.eval();
                match o {
                    Err(Error::TrailingData(n)) if n == k => c.count("long rest refused"),
                    o => return c.violation(&format!("{k} trailing bytes not reported as TrailingData({k}) but {o:?}\n{t} from zeros")),
                }
            }
            match serde_xdr::from_bytes::<()>(&b[..k]) {
                Err(Error::TrailingData(n)) if n == k => {}
                o => return c.violation(&format!("{k} trailing bytes not reported as TrailingData({k}) but {o:?}\nvoid from zeros")),
            }
            c.distinct(k as u64);
        }
        // Cut short: text, a list, opaque data.
        let n = match shard {
            0 => (1 << 24) + 1,
            1 => 65537,
            2 => 300_001,
            _ => 1 + r.usize(400_000),
        };
        let text = serde_xdr::to_bytes(&"x".repeat(n)).unwrap_or_default();
        let list = serde_xdr::to_bytes(&vec![3u16; n / 4]).unwrap_or_default();
        for _ in 0..40 {
            for (t, whole) in [("text", &text), ("numbers", &list)] {
                let cut = if r.bool() { 1 + r.usize(12) } else { 1 + r.mag(24) as usize % whole.len() };
                let cut = cut.min(whole.len());
                let b = &whole[..whole.len() - cut];
                c.eval();
                c.note(|| format!("{t}, {} of {}", b.len(), whole.len()));
                let list: Vec<Result<(), Error>> = match t {
                    "text" => vec![
                        serde_xdr::from_bytes::<SeenStr>(b).map(|_| ()),
                        serde_xdr::from_bytes::<Seen>(b).map(|_| ()),
                        serde_xdr::from_bytes::<serde_xdr::opaque::VariableArray>(b).map(|_| ()),
                    ],
                    _ => vec![serde_xdr::from_bytes::<Vec<u16>>(b).map(|_| ())],
                };
                for o in list {
                    match o {
                        Err(Error::NotEnoughData(m)) if m > 0 && m <= cut => c.count("long value cut short refused"),
                        o => return c.violation(&format!("{t}: {} of {} bytes not reported as NotEnoughData(1..={cut}) but {o:?}", b.len(), whole.len())),
                    }
                }
            }
        }
    });
}

/// Large data around and below deep nesting: no level may keep a copy of what lies below it,
/// of what came before it or of what is still to come.
pub fn nested(c: &mut Ctx) {
    use crate::sch::{MapKind, Sch, Val, Var};
    c.cases(24, 1500, |c, r| {
        let large = |r: &mut Rng| -> (Sch, Val) {
            let n = *r.pick(&[40_000usize, 100_001, 250_002]);
            match r.below(3) {
                0 => (Sch::Bytes, Val::Bytes(vec![7; n])),
                1 => (Sch::OpV, Val::Bytes(vec![9; n])),
                _ => (Sch::Str, Val::Str("x".repeat(n))),
            }
        };
        let (mut s, mut v) = large(r);
        let depth = *r.pick(&[30usize, 60, 120]);
        let only = if r.bool() { Some(r.below(12)) } else { None };
        let side = r.usize(depth);
        for i in 0..depth {
            (s, v) = match only.unwrap_or(r.below(12)) {
                0 | 1 => (Sch::Opt(s.into()), Val::Some(v.into())),
                2 => (Sch::Newtype(s.into()), Val::List(vec![v])),
                3 => (Sch::Tup(vec![s]), Val::List(vec![v])),
                4 => (Sch::Struct(vec![Sch::U8, s]), Val::List(vec![Val::U(3), v])),
                5 => (Sch::TupStruct(vec![s, Sch::Bool]), Val::List(vec![v, Val::Bool(true)])),
                6 => (Sch::Enum(vec![(4, Var::New(s))]), Val::Variant(0, vec![v])),
                7 => (Sch::Enum(vec![(2, Var::Tup(vec![Sch::I16, s]))]), Val::Variant(0, vec![Val::I(-3), v])),
                8 => (Sch::Enum(vec![(9, Var::Rec(vec![s, Sch::U32]))]), Val::Variant(0, vec![v, Val::U(8)])),
                9 => (Sch::Arr(s.into(), 1), Val::List(vec![v])),
                10 => (Sch::Map(MapKind::List, Sch::U32.into(), s.into()), Val::Map(vec![(Val::U(1), v)])),
                _ => (Sch::Seq(s.into()), Val::List(vec![v])),
            };
            if i == side {
                let (a, b) = large(r);
                (s, v) = if r.bool() { (Sch::Tup(vec![a, s]), Val::List(vec![b, v])) } else { (Sch::Tup(vec![s, a]), Val::List(vec![v, b])) };
            }
        }
        let (a, b) = large(r);
        (s, v) = if r.bool() { (Sch::Tup(vec![a, s]), Val::List(vec![b, v])) } else { (Sch::Tup(vec![s, a]), Val::List(vec![v, b])) };
        c.note(|| format!("depth {depth}, {only:?}"));
        let (out, peak) = alloc::peak(|| crate::sch::real_enc(&s, &v));
        let Ok(out) = out else { return c.violation(&format!("encoding large data {depth} levels deep failed: {:?}", out.err())) };
        c.eval();
        c.distinct(depth as u64 * 31 + out.len() as u64);
        c.max("largest peak of nested encoding, percent of the encoding", 100 * peak / out.len() as u64);
        if peak > 8 * out.len() as u64 + (64 << 10) {
            return c.violation(&format!("encoding {} bytes, {depth} levels deep, held {peak} bytes at once\ntype {s:?}", out.len()));
        }
        let (back, peak) = alloc::peak(|| crate::sch::real_dec(&s, &out));
        c.count("deep nesting around large data");
        match back {
            Err(e) => c.violation(&format!("decoding {} bytes, {depth} levels deep, failed: {e:?}\ntype {s:?}", out.len())),
            Ok(w) if w != v => c.violation(&format!("decoding {} bytes, {depth} levels deep, gave another value\ntype {s:?}", out.len())),
            Ok(_) => {
                c.max("largest peak of nested decoding, percent of the data", 100 * peak / out.len() as u64);
                if peak > 8 * out.len() as u64 + (64 << 10) + depth as u64 * 4096 {
                    c.violation(&format!("decoding {} bytes, {depth} levels deep, held {peak} bytes at once\ntype {s:?}", out.len()));
                }
            }
        }
    });
}

/// Long values whose bytes end where a word, their data or their padding begins or ends, and long
/// lists that are cut short or announce more than there is.
pub fn hostile(c: &mut Ctx) {
    use serde_xdr::opaque::VariableArray;
    if cfg!(miri) {
        return;
    }
    c.cases(250, 8000, |c, r| {
        let n = match r.below(4) {
            0 => r.word_size(1 << 20).unwrap_or(70_000),
            1 => r.mag(20) as usize,
            _ => ((1usize << (8 + r.below(13))) + r.usize(9)).saturating_sub(4),
        };
        let mut b = (n as u32).to_be_bytes().to_vec();
        b.extend((0..n).map(|i| b'a' + (i % 23) as u8));
        b.resize(4 + n + (4 - n % 4) % 4, 0);
        let end = b.len();
        let announced = *r.pick(&[n as u32, n as u32, n as u32 + 1, (n as u32).wrapping_sub(1), u32::MAX, 1 << 31, n as u32 + 4, n as u32 * 4]);
        b[..4].copy_from_slice(&announced.to_be_bytes());
        if r.one_in(4) && n > 0 {
            let at = 4 + r.usize(n);
            b[at] = 0xff;
        }
        b.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 2]);
        let ends = [4 + n, 4 + n + 1, 4 + n + 2, 3 + n, n + 2, n, 4, 5, 3, end, end + 1, end + 4, end + 7, end + 8, end - 1];
        for e in ends {
            let x = &b[..e.min(b.len())];
            c.eval();
            c.note(|| format!("{e} bytes of a value of {n} bytes that announces {announced}"));
            c.distinct((n as u64) << 40 ^ (announced as u64) << 8 ^ e as u64);
            let l: [bool; 8] = [
                serde_xdr::from_bytes::<SeenStr>(x).is_ok(),
                serde_xdr::from_bytes::<Seen>(x).is_ok(),
                serde_xdr::from_bytes::<String>(x).is_ok(),
                serde_xdr::from_bytes::<VariableArray>(x).is_ok(),
                serde_xdr::from_bytes::<Vec<u64>>(x).is_ok(),
                serde_xdr::from_bytes::<(Vec<u16>, u8)>(x).is_ok(),
                serde_xdr::from_bytes::<(String, Option<u32>)>(x).is_ok(),
                serde_xdr::from_bytes::<std::collections::BTreeMap<i8, String>>(x).is_ok(),
            ];
            c.count(if l.iter().any(|x| *x) { "returned a value" } else { "returned an error" });
            c.count("long values cut short");
        }
    });
}

/// Processor time of this thread, in nanoseconds.
fn cpu() -> u64 {
    unsafe extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // Safety: on this target a timespec is two 64-bit numbers; 3 is the clock of the calling thread.
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// What 16 times the data may cost at most, in multiples of the smaller cost, once it is past `TIME`.
const GROWTH: u64 = 100;
const TIME: u64 = 250_000_000;

fn grows<T: Serialize + serde::de::DeserializeOwned>(c: &mut Ctx, what: &str, make: impl Fn(usize) -> T, n: usize) {
    let mut spent = [[0u64; 2]; 2];
    for (i, n) in [n, 16 * n].into_iter().enumerate() {
        let v = make(n);
        let Ok(b) = serde_xdr::to_bytes(&v) else {
            return c.count("scale: not encoded");
        };
        c.eval();
        c.distinct(mon::hash(what.as_bytes()) ^ b.len() as u64);
        c.note(|| format!("{what}: {n}"));
        for d in 0..2 {
            let mut least = u64::MAX;
            for _ in 0..4 {
                let t = cpu();
                let ok = if d == 0 { serde_xdr::to_bytes(&v).is_ok() } else { serde_xdr::from_bytes::<T>(&b).is_ok() };
                least = least.min(cpu() - t);
                std::hint::black_box(ok);
                // The small size is measured as well as can be; the large one only while it is suspect.
                if i == 1 && least < TIME {
                    break;
                }
            }
            spent[i][d] = least;
        }
    }
    for (d, how) in ["encoding", "decoding"].into_iter().enumerate() {
        let (small, large) = (spent[0][d], spent[1][d]);
        c.max("scale: slowest, ms", large / 1_000_000);
        if large > TIME && large > GROWTH * small.max(20_000) {
            return c.violation(&format!(
                "{how} 16 times as much ({what}: {n} and {}) took {} times as long: {} and {} microseconds",
                16 * n, large / small.max(1), small / 1000, large / 1000
            ));
        }
    }
    c.count("growth measured");
}

/// Work in proportion to the data: the time that 16 times as much takes.
pub fn scaling(c: &mut Ctx) {
    use serde_xdr::opaque::{self, VariableArray};
    use std::collections::BTreeMap;
    #[derive(Serialize, Deserialize)]
    struct O {
        #[serde(with = "opaque::variable")]
        a: Vec<u8>,
        #[serde(with = "opaque::fixed")]
        b: [u8; 7],
    }
    #[derive(Serialize, Deserialize)]
    enum E {
        A,
        B(u32),
        C { x: bool, y: String },
    }
    #[derive(Serialize, Deserialize)]
    struct S(u8, (i64, bool), [i16; 3], char);
    if cfg!(miri) {
        return;
    }
    let shard = c.shard;
    c.cases(1, 4, |c, r| {
        let n = 8000 + r.usize(3000);
        let z = r.usize(4);
        match shard {
            0 => {
                grows(c, "a list of strings", |n| (0..n).map(|i| "abcde"[..(i + z) % 6].to_string()).collect::<Vec<_>>(), n);
                grows(c, "one string", |n| "abc\u{e9}\u{20ac}".repeat(10 * n), n);
            }
            1 => {
                grows(c, "a list of lists", |n| (0..n).map(|i| vec![i as u32; (i + z) % 4]).collect::<Vec<_>>(), n);
                grows(c, "a list of numbers", |n| (0..20 * n as u64).collect::<Vec<_>>(), n);
            }
            2 => {
                grows(c, "opaque members", |n| (0..n).map(|i| O { a: vec![1; (i + z) % 9], b: [3; 7] }).collect::<Vec<_>>(), n);
                grows(c, "wrapped opaque data", |n| (0..n).map(|i| VariableArray { data: vec![1; (i + z) % 9] }).collect::<Vec<_>>(), n);
            }
            3 => {
                grows(c, "one opaque", |n| VariableArray { data: vec![7; 100 * n + z] }, n);
                grows(c, "a map of strings", |n| (0..n as u32).map(|i| (i, i.to_string())).collect::<BTreeMap<_, _>>(), n);
            }
            4 => {
                grows(c, "a map with strings for keys", |n| (0..n as u32).map(|i| (i.to_string(), i % 3 == 0)).collect::<BTreeMap<_, _>>(), n);
                grows(c, "a list of options", |n| (0..4 * n as u64).map(|i| (i % 3 == 0).then_some(i)).collect::<Vec<_>>(), n);
            }
            5 => {
                let e = |i: usize| match i % 3 {
                    0 => E::A,
                    1 => E::B(i as u32),
                    _ => E::C { x: true, y: "yy".into() },
                };
                grows(c, "a list of variants", move |n| (0..n).map(e).collect::<Vec<_>>(), n);
            }
            6 => {
                grows(c, "a list of structures", |n| (0..n).map(|i| S(1, (i as i64, true), [1; 3], 'x')).collect::<Vec<_>>(), n);
                grows(c, "a list of characters and units", |n| (0..4 * n).map(|_| ('y', ())).collect::<Vec<_>>(), n);
            }
            _ => {
                let deep = |n: usize| (0..n).fold(Deep::End(1), |v, i| if i % 2 == 0 { Deep::Opt(Some(Box::new(v))) } else { Deep::List(vec![v]) });
                let done = std::thread::scope(|s| {
                    let t = std::thread::Builder::new().stack_size(3 << 30);
                    t.spawn_scoped(s, || grows(&mut *c, "levels", deep, n / 8)).map(|h| h.join().is_ok())
                });
                match done {
                    Ok(true) => {}
                    Ok(false) => c.violation("values of some thousand levels: panicked"),
                    Err(e) => c.inconclusive(&format!("no thread: {e}")),
                }
            }
        }
    });
}

//! Every number of some ranges, and an even sample of all others, through the kinds that occupy one
//! or two words.
use mon::{dict::dict, Ctx};
use serde::{Deserialize, Serialize};
use serde_xdr::primitive::signed32;
use serde_xdr::{from_bytes, to_bytes};

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Bytes,
    Back,
    Accept,
    Survive,
    Signed32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Num(i32);
impl AsRef<i32> for Num {
    fn as_ref(&self) -> &i32 {
        &self.0
    }
}
impl TryFrom<i32> for Num {
    type Error = String;
    fn try_from(n: i32) -> Result<Self, String> {
        if n % 1021 == 7 { Err("no".into()) } else { Ok(Num(n)) }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct S(#[serde(with = "signed32")] Num);

#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum Three {
    A,
    B(u32),
    C { a: u8 },
}

const CHUNK: u64 = 4096;

/// Ranges of 32-bit numbers: start and length.
fn ranges(full: bool) -> Vec<(u32, u64)> {
    if full {
        return vec![(0, 1 << 32)];
    }
    let mut v = vec![];
    let mut around = |n: u32, k: u32| v.push((n.wrapping_sub(k), 2 * k as u64));
    for n in [0, 1 << 24, 1 << 31, (1u32 << 24).wrapping_neg()] {
        around(n, 70_000);
    }
    for k in 17..32 {
        around(1 << k, 2048);
        around((1u32 << k).wrapping_neg(), 2048);
        around((1u32 << k) | (1 << (k - 1)), 2048);
    }
    for n in &dict().ints {
        around(*n as u32, 4096);
        around((*n as u32).wrapping_neg(), 2048);
    }
    // Where characters and floats change.
    for n in [0xd7ff, 0x11_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x3f80_0000, 0x0080_0000] {
        around(n, 2048);
    }
    v
}

pub fn words(c: &mut Ctx, what: What) {
    if cfg!(miri) {
        return;
    }
    let full = c.thorough && what == What::Signed32;
    // One chunk of numbers per case, every eighth of them here.
    let chunks: Vec<(u32, u64)> = ranges(full)
        .into_iter()
        .flat_map(|(a, n)| (0..n.div_ceil(CHUNK)).map(move |i| (a.wrapping_add((i * CHUNK) as u32), CHUNK.min(n - i * CHUNK))))
        .collect();
    let (shard, of) = (c.shard, c.nshards);
    let mine: Vec<(u32, u64)> = chunks.into_iter().enumerate().filter(|(i, _)| *i as u64 % of == shard).map(|x| x.1).collect();
    let n = mine.len() as u64;
    c.cases(n, n, |c, _| {
        let (a, n) = mine[c.nth() as usize];
        for i in 0..n {
            if !word(c, what, a.wrapping_add(i as u32)) {
                return;
            }
        }
        c.distinct(0x5eed << 32 | a as u64);
    });
    // The rest, evenly.
    c.cases(32, 2048, |c, r| {
        let stride = (1u64 << 32) / (32 * of * CHUNK);
        for i in 0..CHUNK {
            let n = (c.nth() % 32) * of * CHUNK + shard * CHUNK + i;
            if !word(c, what, (n * stride + r.below(stride)) as u32) {
                return;
            }
        }
        c.distinct(0x5eee << 32 | c.nth());
    });
    c.count("every number of the swept ranges");
    if matches!(what, What::Bytes | What::Back) {
        c.cases(1, 1, |c, r| {
            for k in 0..64 {
                for d in 0..600u64 {
                    for n in [(1u64 << k).wrapping_add(d).wrapping_sub(300), (1u64 << k).wrapping_add(d).wrapping_sub(300).wrapping_neg()] {
                        if !long(c, what, n) {
                            return;
                        }
                    }
                }
            }
            for n in &dict().ints {
                for d in 0..200u64 {
                    if !long(c, what, n.wrapping_add(d).wrapping_sub(100)) || !long(c, what, n.wrapping_neg().wrapping_add(d)) {
                        return;
                    }
                }
            }
            for _ in 0..100_000 {
                let n = r.next();
                if !long(c, what, n) {
                    return;
                }
            }
        });
    }
}

fn bad(c: &mut Ctx, kind: &str, n: u64, got: String) -> bool {
    c.violation(&format!("the {kind} of number {n} ({n:#x}): {got}"));
    false
}

macro_rules! bytes {
    ($c:expr, $n:expr, $want:expr; $($k:literal $v:expr),*) => {$(
        match to_bytes(&$v) {
            Ok(b) if b[..] == $want[..] => {}
            o => return bad($c, $k, $n as u64, format!("encoded as {o:?} instead of {:?}", $want)),
        }
    )*};
}
macro_rules! back {
    ($c:expr, $n:expr; $($k:literal $t:ty: $v:expr),*) => {$(
        match to_bytes(&$v).and_then(|b| from_bytes::<$t>(&b)) {
            Ok(w) if w == $v => {}
            o => return bad($c, $k, $n as u64, format!("decoded as {o:?}")),
        }
    )*};
}

fn long(c: &mut Ctx, what: What, n: u64) -> bool {
    c.eval();
    c.note(|| format!("{n}"));
    match what {
        What::Bytes => {
            bytes!(c, n, n.to_be_bytes(); "u64" n, "i64" n as i64, "f64" f64::from_bits(n));
        }
        _ => {
            back!(c, n; "u64" u64: n, "i64" i64: n as i64);
            match to_bytes(&f64::from_bits(n)).and_then(|b| from_bytes::<f64>(&b)) {
                Ok(x) if x.to_bits() == n => {}
                o => return bad(c, "f64", n, format!("decoded as {o:?}")),
            }
        }
    }
    true
}

fn word(c: &mut Ctx, what: What, n: u32) -> bool {
    c.eval();
    c.note(|| format!("{n}"));
    let be = n.to_be_bytes();
    match what {
        What::Bytes => {
            bytes!(c, n, be; "u32" n, "i32" n as i32, "f32" f32::from_bits(n));
            bytes!(c, n, (n as i16 as i32).to_be_bytes(); "i16" n as i16);
            bytes!(c, n, (n as u16 as u32).to_be_bytes(); "u16" n as u16);
            bytes!(c, n, (n as i8 as i32).to_be_bytes(); "i8" n as i8);
            bytes!(c, n, (n as u8 as u32).to_be_bytes(); "u8" n as u8);
            if let Some(x) = char::from_u32(n) {
                bytes!(c, n, be; "character" x);
            }
        }
        What::Back => {
            back!(c, n; "u32" u32: n, "i32" i32: n as i32, "i16" i16: n as i16, "u16" u16: n as u16, "i8" i8: n as i8, "u8" u8: n as u8,
                "optional" Option<u32>: Some(n), "variant" Three: Three::B(n));
            match to_bytes(&f32::from_bits(n)).and_then(|b| from_bytes::<f32>(&b)) {
                Ok(x) if x.to_bits() == n => {}
                o => return bad(c, "f32", n as u64, format!("decoded as {o:?}")),
            }
            if let Some(x) = char::from_u32(n) {
                back!(c, n; "character" char: x);
            }
        }
        What::Accept | What::Survive => {
            let s = n as i32;
            macro_rules! takes {
                ($($k:literal $t:ty: $want:expr),*) => {$({
                    let got = from_bytes::<$t>(&be).ok();
                    if what == What::Accept && got != $want {
                        return bad(c, $k, n as u64, format!("decoded as {got:?} instead of {:?}", $want));
                    }
                })*};
            }
            takes!("u32" u32: Some(n), "i32" i32: Some(s), "u16" u16: u16::try_from(n).ok(), "i16" i16: i16::try_from(s).ok(),
                "u8" u8: u8::try_from(n).ok(), "i8" i8: i8::try_from(s).ok(), "character" char: char::from_u32(n),
                "boolean" bool: [false, true].get(n as usize).copied(),
                "optional void" Option<()>: [None, Some(())].get(n as usize).copied(),
                "empty text" String: (n == 0).then(String::new),
                "empty list" Vec<u8>: (n == 0).then(Vec::<u8>::new),
                "result" Result<(), ()>: [Ok(()), Err(())].get(n as usize).copied(),
                "discriminant" Three: (n == 0).then_some(Three::A));
        }
        What::Signed32 => {
            let s = n as i32;
            bytes!(c, n, be; "signed32" S(Num(s)));
            let got = from_bytes::<S>(&be);
            match Num::try_from(s) {
                Ok(x) if !got.as_ref().is_ok_and(|g| *g == S(x)) => return bad(c, "signed32", n as u64, format!("decoded as {got:?}")),
                Err(_) if !got.as_ref().is_err_and(|e| e.to_string().contains(&s.to_string())) => {
                    return bad(c, "refused signed32", n as u64, format!("decoded as {got:?}"));
                }
                _ => {}
            }
        }
    }
    true
}

//! Targets (a type with its oracle) and hostile byte strings.
use crate::sch::*;
use crate::stat::{self, StaticTy};
use mon::Rng;
use serde_xdr::error::Error;
use std::borrow::Cow;
use std::sync::OnceLock;

pub fn statics() -> &'static [StaticTy] {
    static S: OnceLock<Vec<StaticTy>> = OnceLock::new();
    S.get_or_init(stat::all)
}

#[derive(Clone)]
pub struct Target {
    pub sch: Cow<'static, Sch>,
    pub st: Option<&'static StaticTy>,
}

impl Target {
    pub fn dynamic(s: Sch) -> Target {
        Target { sch: Cow::Owned(s), st: None }
    }
    pub fn stat(t: &'static StaticTy) -> Target {
        Target { sch: Cow::Borrowed(&t.sch), st: Some(t) }
    }
    pub fn enc(&self, v: &Val) -> Result<Vec<u8>, Error> {
        match self.st {
            Some(t) => (t.enc)(v),
            None => real_enc(&self.sch, v),
        }
    }
    pub fn dec(&self, b: &[u8]) -> Result<Val, Error> {
        match self.st {
            Some(t) => (t.dec)(b),
            None => real_dec(&self.sch, b),
        }
    }
    /// Decodes a copy at the same place in memory as the last time, or at another one: where the
    /// bytes lie, and what lay there before, decides nothing.
    pub fn dec_at(&self, b: &[u8]) -> Result<Val, Error> {
        thread_local!(static PLACE: std::cell::RefCell<(usize, Vec<u8>)> = const { std::cell::RefCell::new((0, vec![])) });
        let (turn, mut buf) = PLACE.with(|p| std::mem::take(&mut *p.borrow_mut()));
        // Mostly the same place, now and then off by one, two, three, ...
        let k = if turn % 2 == 0 { 0 } else { turn / 2 % 8 };
        buf.clear();
        buf.reserve(b.len() + 8 + if cfg!(miri) { 0 } else { 4096 });
        buf.resize(k, 0xaa);
        buf.extend_from_slice(b);
        let r = self.dec(&buf[k..]);
        if buf[k..] != *b {
            panic!("the argument changed");
        }
        PLACE.with(|p| *p.borrow_mut() = (turn + 1, buf));
        r
    }
    pub fn name(&self) -> String {
        match self.st {
            Some(t) => format!("Rust type {}", t.name),
            None => format!("type {:?}", self.sch),
        }
    }
}

pub fn gen_target(r: &mut Rng) -> Target {
    if cfg!(miri) {
        // Miri is slow: small types.
        return match r.below(3) {
            0 => Target::stat(r.pick(statics())),
            1 => Target::dynamic(gen_leaf(r)),
            _ => Target::dynamic(gen_sch(r, 2)),
        };
    }
    match r.below(10) {
        0..=3 => Target::stat(r.pick(statics())),
        4 => Target::dynamic(gen_leaf(r)),
        5 => {
            // Deep nesting.
            let n = 10 + r.usize(60);
            let mut s = gen_leaf(r);
            for _ in 0..n {
                s = match r.below(6) {
                    0 => Sch::Opt(s.into()),
                    1 => Sch::Newtype(s.into()),
                    2 => Sch::Tup(vec![s]),
                    3 => Sch::Struct(vec![gen_leaf(r), s]),
                    4 => Sch::Enum(vec![(0, Var::New(s)), (1, Var::Unit)]),
                    _ => {
                        if min_size(&s, 0) > 0 {
                            Sch::Seq(s.into())
                        } else {
                            Sch::Opt(s.into())
                        }
                    }
                };
            }
            Target::dynamic(s)
        }
        _ => {
            let d = 1 + r.below(4) as u32;
            Target::dynamic(gen_sch(r, d))
        }
    }
}

pub fn gen_value(r: &mut Rng, s: &Sch) -> Val {
    let mut fuel = *r.pick(&[3i64, 20, 60, 200, 800]);
    gen_val(r, s, &mut fuel)
}

/// A value that starts at a chosen distance from the start of the encoding: next to a power
/// of two, or to a number that occurs in the code. First what stands before it, then it, then more.
pub fn gen_far(r: &mut Rng, max: u64) -> (Target, Val, usize) {
    let at = match r.below(8) {
        0 => r.word_size(max).unwrap_or(64),
        1 => r.mag(18) as usize,
        _ => ((1usize << (4 + r.below(max.ilog2() as u64 - 4))) + r.usize(5) * 4).saturating_sub(8),
    };
    let at = at & !3;
    let mut fuel = 4;
    let mut ss = vec![];
    let mut vs = vec![];
    if at >= 4 {
        let n = at - 4;
        let short = n - if n > 0 { r.usize(4) } else { 0 };
        let (s, v) = match r.below(8) {
            0 if n <= 1 << 16 => (Sch::Seq(Sch::U16.into()), Val::List((0..n / 4).map(|i| Val::U(i as u64 & 0xffff)).collect())),
            1 if n <= 1 << 16 => (Sch::Arr(Sch::I32.into(), at / 4), Val::List((0..at / 4).map(|i| Val::I(i as i64)).collect())),
            2 if n <= 1 << 14 => {
                (Sch::Seq(Sch::Opt(Sch::U64.into()).into()), Val::List((0..n / 4).map(|_| Val::None).collect()))
            }
            3 => (Sch::OpV, Val::Bytes(vec![3; short])),
            4 | 5 => (Sch::Str, Val::Str("y".repeat(short))),
            _ => (Sch::Bytes, Val::Bytes(vec![0xc3; short])),
        };
        ss.push(s);
        vs.push(v);
    }
    for _ in 0..1 + r.usize(3) {
        let d = r.below(3) as u32;
        let s = gen_sch(r, d);
        fuel = fuel.max(6);
        vs.push(gen_val(r, &s, &mut fuel));
        ss.push(s);
    }
    let (s, v) = match r.below(3) {
        0 => (Sch::Struct(ss), Val::List(vs)),
        1 => (Sch::TupStruct(ss), Val::List(vs)),
        _ => (Sch::Tup(ss), Val::List(vs)),
    };
    (Target::dynamic(s), v, at)
}

fn rd(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap())
}
fn wr(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}

pub fn hostile_u32(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[
            0u32, 1, 2, 3, 4, 5, 7, 8, 127, 128, 129, 255, 256, 257, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x100_0000,
            0x101_0000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffc, 0xffff_fffd, 0xffff_fffe, 0xffff_ffff,
            0xffff_ff80, 0xffff_ff7f, 0xffff_8000, 0xffff_7fff, 0x4000_0000, 0x4000_0001, 0xd800, 0xdfff, 0x11_0000,
        ]),
        1 => r.below(12) as u32,
        2 if r.one_in(6) => r.word_int().unwrap_or(9) as u32,
        _ => r.mag(32) as u32,
    }
}

pub const BAD_UTF8: [&[u8]; 14] = [
    &[0xff], &[0x80], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf5, 0x80, 0x80, 0x80],
    &[0xf4, 0x90, 0x80, 0x80], &[0xe0, 0x80, 0x80], &[0xf0, 0x80, 0x80, 0x80], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98],
    &[0xfe],
];

/// A mutation aimed at what the words of a valid encoding mean.
pub fn mutate(r: &mut Rng, e: &Enc) -> Vec<u8> {
    let mut b = e.out.clone();
    let n = 1 + r.below(3) * r.below(2);
    for _ in 0..n {
        if r.one_in(4) || e.map.is_empty() {
            blunt(r, &mut b);
            continue;
        }
        let (o, l, role) = *r.pick(&e.map);
        if o + l > b.len() {
            continue;
        }
        if r.one_in(8) {
            // Cut where something begins or ends, or within its last word.
            let at = match r.below(4) {
                0 => o,
                1 => o + l,
                2 => (o + l).saturating_sub(1 + r.usize(4)),
                _ => o + r.usize(l + 1),
            };
            b.truncate(at);
            continue;
        }
        match role {
            Role::Count | Role::StrLen => {
                let v = rd(&b, o);
                let rest = (b.len() - o - 4) as u32;
                let w = match r.below(10) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    2 => v ^ (1 << r.below(32)),
                    3 => rest,
                    4 => rest.wrapping_add(1),
                    5 => rest / 4,
                    6 => rest / 4 + 1,
                    7 => v.wrapping_add(4) & !3,
                    8 => v.wrapping_add(4),
                    _ => hostile_u32(r),
                };
                wr(&mut b, o, w);
            }
            Role::Flag | Role::Bool => {
                let w = match r.below(4) {
                    0 => rd(&b, o) ^ 1,
                    1 => rd(&b, o) ^ (1 << r.below(32)),
                    2 => 2,
                    _ => hostile_u32(r),
                };
                wr(&mut b, o, w);
            }
            Role::Disc => {
                let v = rd(&b, o);
                let w = match r.below(6) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    2 => v | 0x8000_0000,
                    3 => v ^ (1 << r.below(32)),
                    4 => r.below(8) as u32,
                    _ => hostile_u32(r),
                };
                wr(&mut b, o, w);
            }
            Role::Small(bits, signed) => {
                let v = rd(&b, o);
                let w = match r.below(7) {
                    0 => 1u32 << bits,
                    1 => (1u32 << (bits - 1)).wrapping_neg().wrapping_sub(1),
                    2 => 1u32 << (bits - 1),
                    3 => v ^ (1u32 << (bits as u64 + r.below(32 - bits as u64))),
                    4 => v.wrapping_neg(),
                    5 if signed => v & ((1 << bits) - 1),
                    _ => hostile_u32(r),
                };
                wr(&mut b, o, w);
            }
            Role::Char => {
                let w = match r.below(4) {
                    0 => 0xd800 + r.below(0x800) as u32,
                    1 => 0x11_0000 + r.below(3) as u32,
                    2 => rd(&b, o) ^ (1 << r.below(32)),
                    _ => hostile_u32(r),
                };
                wr(&mut b, o, w);
            }
            Role::StrData => {
                let bad = *r.pick(&BAD_UTF8);
                if bad.len() <= l {
                    let at = match r.below(3) {
                        0 => 0,
                        1 => l - bad.len(),
                        _ => r.usize(l - bad.len() + 1),
                    };
                    b[o + at..o + at + bad.len()].copy_from_slice(bad);
                } else {
                    b[o] = 0xff;
                }
            }
            Role::Pad => {
                let k = r.usize(l);
                b[o + k] = if r.bool() { 0xff } else { 1 + r.below(255) as u8 };
            }
            Role::Num | Role::Opaque => {
                let k = r.usize(l);
                b[o + k] ^= 1 << r.below(8);
            }
        }
    }
    b
}

fn blunt(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(9) {
        0 => {
            let n = r.usize(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let n = 1 + r.usize(9);
            let x = r.bytes(n);
            b.extend_from_slice(&x);
        }
        2 if b.len() >= 4 => {
            let o = r.usize(b.len() / 4) * 4;
            b.drain(o..o + 4);
        }
        3 => {
            let o = r.usize(b.len() / 4 + 1) * 4;
            let w = hostile_u32(r).to_be_bytes();
            for (i, x) in w.iter().enumerate() {
                b.insert(o + i, *x);
            }
        }
        4 if b.len() >= 8 => {
            let i = r.usize(b.len() / 4) * 4;
            let j = r.usize(b.len() / 4) * 4;
            for k in 0..4 {
                b.swap(i + k, j + k);
            }
        }
        5 if !b.is_empty() => {
            let i = r.usize(b.len());
            b[i] ^= 1 << r.below(8);
        }
        6 if b.len() >= 4 => {
            let i = r.usize(b.len() / 4) * 4;
            let w = hostile_u32(r);
            wr(b, i, w);
        }
        7 if !b.is_empty() => {
            // Bytes lost or gained in the middle.
            let i = r.usize(b.len());
            if r.bool() {
                b.remove(i);
            } else {
                b.insert(i, r.next() as u8);
            }
        }
        _ => {
            let n = r.usize(4);
            let l = b.len().saturating_sub(n);
            b.truncate(l);
        }
    }
}

/// Bytes that have nothing to do with any encoding.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => {
            let n = r.usize(80);
            r.bytes(n)
        }
        1 => (0..r.usize(40)).flat_map(|_| (r.below(4) as u32).to_be_bytes()).collect(),
        2 => (0..r.usize(24)).flat_map(|_| hostile_u32(r).to_be_bytes()).collect(),
        _ => {
            let mut b: Vec<u8> = (0..r.usize(12)).flat_map(|_| (r.below(3) as u32).to_be_bytes()).collect();
            let n = r.usize(200);
            b.extend((0..n).map(|_| 0u8));
            b
        }
    }
}

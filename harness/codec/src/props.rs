use crate::alloc;
use crate::big;
use crate::gen_::*;
use crate::refuse;
use crate::sch::*;
use crate::sweep::{self, What};
use std::collections::BTreeMap;
use mon::{catch, hash, hexs, supervise, Ctx, Rng, Spec};
use serde_xdr::error::Error;

const TRUST: &[&str] = &[
    "the reference codec in harness/codec/src/sch.rs, written from RFC 4506, is right",
    "serde's and std's own Serialize/Deserialize implementations are right",
];

fn spec(prop: &'static str, rule: &'static str, must: &'static [&'static str], worker: fn(&mut Ctx)) -> Spec {
    Spec {
        prop,
        rule,
        assumptions: TRUST,
        must_observe: must,
        worker,
        as_limit_kib: 0,
        shards: 8,
        hang_cpu_s: 60,
    }
}

pub fn run(id: &str) -> ! {
    const KINDS: [&str; 21] = [
        "observed string", "observed fixed opaque", "observed variable opaque", "observed opaque wrapper",
        "observed optional", "observed list", "observed fixed array", "observed map", "observed struct",
        "observed struct variant", "observed tuple variant", "observed newtype variant", "observed unit variant",
        "observed signed32", "observed small integer", "observed float", "observed char", "observed recursive",
        "nested thousands deep",
        "lists of void elements", "values of library types",
    ];
    // The last two are for C02 alone.
    let (kinds, kinds_c02): (&'static [&'static str], &'static [&'static str]) = (&KINDS[..19], &KINDS);
    let mut s = match id {
        "C01" => spec(
            "C01",
            "random types (hand-written Rust types with derived serde, and random schemas driving every entry point of serde's data model) with random values, very large and very deep ones included; non-trivial: the encoding has at least one byte; distinct by (type, bytes)",
            kinds,
            c01,
        ),
        "C02" => spec(
            "C02",
            "as C01, decoding the real encoding back; types of std that write themselves; values nested up to 20 000 levels; distinct by (type, bytes)",
            kinds_c02,
            c02,
        ),
        "C03" => spec(
            "C03",
            "valid encodings mutated at the words that mean something (counts, lengths, flags, discriminants, small integers, characters, text, padding), blunt mutations and noise, against the reference decoder; distinct by (type, bytes)",
            &[
                "accepted a mutant", "rejected Short", "rejected Range", "rejected Flag", "rejected Disc", "rejected Char",
                "rejected Utf8", "rejected Conv", "rejected trailing", "nonzero padding",
            ],
            c03,
        ),
        "C04" => spec(
            "C04",
            "every proper prefix (all of them up to 96 bytes, sampled beyond) and extensions by 1..4096 bytes of encodings of random values, rests of up to 2^32 bytes and long values cut short; distinct by (type, input)",
            &["prefix refused", "extension refused", "long rest refused", "long value cut short refused"],
            c04,
        ),
        "C05" => spec(
            "C05",
            "hostile byte strings decoded as random types, in a worker process whose crashes, panics (overflow checks on) and CPU time are watched; distinct by (type, input)",
            &["returned a value", "returned an error", "user code refused with a message"],
            c05,
        ),
        "C06" => spec(
            "C06",
            "hostile byte strings with announced lengths and counts up to 2^32-1, under an allocator that records the peak of the decoding thread, and a counter of attempted elements; the processor time of values 16 times as large; distinct by (type, input)",
            &["announced more than present", "encodings measured", "deep nesting around large data", "growth measured"],
            c06,
        ),
        "C07" => spec(
            "C07",
            "values that cannot be represented, and user code that fails, placed at random depths; distinct by case",
            &["refused an unknown length", "refused a length over 32 bits", "refused 128 bits", "refused self-describing",
              "propagated an encoding error", "propagated a decoding error", "refused a variant index"],
            refuse::c07,
        ),
        "C08" => spec(
            "C08",
            "byte strings of every length 0..=40 and larger (up to 2^26 bytes), in every context an opaque helper can stand in; distinct by (context, bytes)",
            &["fixed", "variable", "wrapper", "inside a larger value", "same as byte string", "long opaque data"],
            refuse::c08,
        ),
        "C09" => spec(
            "C09",
            "32-bit numbers of all magnitudes and signs, through four conversions (total, partial, sparse, non-identity), alone and inside larger values; distinct by (conversion, number, context)",
            &["encoded", "decoded", "refused by the conversion", "negative", "inside a larger value"],
            refuse::c09,
        ),
        "C10" => spec(
            "C10",
            "pools of operations (encodings, decodings, failing and panicking ones) whose results were recorded on fresh threads, then replayed in random histories on 8 threads at once (decoding data in place of other data, and at odd addresses), within each other (values that encode and decode while they are encoded and decoded), at the end of a thread, and a few of them millions of times; distinct by (operation, preceding operation)",
            &["operations replayed", "after a user panic", "after an error", "threads", "operations within operations", "operations at the end of a thread", "operations of the endless loop", "encoded again after a change in place"],
            c10,
        ),
        "C11" => {
            let mut s = spec(
                "C11",
                "the workloads of C02 to C10 in a build with AddressSanitizer and leak detection, and reduced ones in Miri; decoded strings, characters and booleans are checked to be valid; distinct by (type, input)",
                &["values inspected", "hostile inputs", "threads", "leak checked", "other bytes in the same place", "miri: values inspected", "miri: hostile inputs", "miri: threads"],
                c11,
            );
            s.shards = 6;
            s
        }
        "C12" => spec(
            "C12",
            "containers built from random parts, comparing the real encoding of the whole with the real encodings of the parts; distinct by (container, bytes)",
            &["tuple", "struct", "array", "list", "map", "optional", "newtype", "variant", "decoded a concatenation", "agrees with Rust type"],
            c12,
        ),
        _ => panic!("unknown property {id}"),
    };
    match id {
        "C01" | "C02" => s.as_limit_kib = 24 << 20,
        "C05" | "C03" => s.as_limit_kib = 3 << 20,
        "C04" => s.as_limit_kib = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { 12 << 20 } else { 7 << 20 },
        "C06" => s.as_limit_kib = 12 << 20,
        _ => {}
    }
    supervise(s)
}

pub fn observe(c: &mut Ctx, t: &Target) {
    kinds(&t.sch, &mut |k| c.count(&format!("observed {k}")));
}

pub fn th(t: &Target) -> u64 {
    if cfg!(miri) {
        return kinds_hash(&t.sch);
    }
    match t.st {
        Some(x) => hash(x.name.as_bytes()),
        None => hash(format!("{:?}", t.sch).as_bytes()),
    }
}

fn kinds_hash(s: &Sch) -> u64 {
    let mut h = 7u64;
    kinds(s, &mut |k| h = h.wrapping_mul(31) ^ k.len() as u64 ^ ((k.as_bytes()[0] as u64) << 8));
    h
}

pub fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} characters)", &s[..k], s.len())
    } else {
        s
    }
}

// ------------------------------------------------------------------ C01, C02

fn check_enc(c: &mut Ctx, t: &Target, v: &Val) -> Option<Vec<u8>> {
    let want = ref_enc(&t.sch, v).out;
    c.note(|| format!("{} value {}", t.name(), short(v)));
    c.eval();
    match t.enc(v) {
        Ok(b) if b == want => {
            if !b.is_empty() {
                c.distinct(th(t) ^ hash(&b));
            }
            c.max("largest encoding", b.len() as u64);
            Some(b)
        }
        Ok(b) => {
            let at = b.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(b.len().min(want.len()));
            c.violation(&format!(
                "encoding differs from RFC 4506 at byte {at}\n{}\nvalue {}\ngot  {}\nwant {}",
                t.name(), short(v), hexs(&b), hexs(&want)
            ));
            None
        }
        Err(e) => {
            c.violation(&format!("encoding failed: {e:?}\n{}\nvalue {}\nwant {}", t.name(), short(v), hexs(&want)));
            None
        }
    }
}

fn c01(c: &mut Ctx) {
    big::encode(c);
    big::deep(c);
    sweep::words(c, What::Bytes);
    c.cases(1500, 60_000, |c, r| {
        let (t, v, at) = gen_far(r, 1 << 20);
        check_enc(c, &t, &v);
        c.max("farthest from the start", at as u64);
        c.count("values far from the start");
    });
    c.cases(80_000, 1_500_000, |c, r| {
        let t = gen_target(r);
        observe(c, &t);
        for _ in 0..1 + r.below(5) {
            let v = gen_value(r, &t.sch);
            if let Some(b) = check_enc(c, &t, &v) {
                if c.want_sample() && b.len() > 12 && b.len() < 100 {
                    c.sample(|| format!("{} value {} -> {}", t.name(), short(&v), hexs(&b)));
                }
            }
        }
    });
}

fn c02(c: &mut Ctx) {
    big::roundtrip(c);
    big::deep(c);
    sweep::words(c, What::Back);
    c.cases(1500, 60_000, |c, r| {
        let (t, v, at) = gen_far(r, 1 << 20);
        roundtrip(c, &t, &v);
        c.max("farthest from the start", at as u64);
        c.count("values far from the start");
    });
    c.cases(80_000, 1_500_000, |c, r| {
        let t = gen_target(r);
        observe(c, &t);
        for _ in 0..1 + r.below(5) {
            let v = gen_value(r, &t.sch);
            roundtrip(c, &t, &v);
        }
    });
    c.cases(3_000, 200_000, |c, r| library_types(c, r));
}

fn same<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(c: &mut Ctx, v: T) {
    let name = std::any::type_name::<T>();
    c.note(|| format!("{name} {v:?}"));
    c.eval();
    let b = match serde_xdr::to_bytes(&v) {
        Ok(b) => b,
        Err(e) => return c.violation(&format!("encoding failed: {e:?}\n{name} {v:?}")),
    };
    if b.len() % 4 != 0 {
        return c.violation(&format!("an encoding of {} bytes\n{name} {v:?}\nbytes {}", b.len(), hexs(&b)));
    }
    match serde_xdr::from_bytes::<T>(&b) {
        Ok(w) if w == v => {
            c.distinct(hash(name.as_bytes()) ^ hash(&b));
            c.count("values of library types");
        }
        x => c.violation(&format!("decoding gives {x:?}\n{name} {v:?}\nbytes {}", hexs(&b))),
    }
}

/// Types of the standard library that decide for themselves how they are written.
fn library_types(c: &mut Ctx, r: &mut Rng) {
    use std::net::*;
    use std::num::*;
    let v4 = Ipv4Addr::from(r.mag(32) as u32);
    let v6 = Ipv6Addr::from(((r.next() as u128) << 64 | r.next() as u128) >> r.below(128));
    let port = r.mag(16) as u16;
    let text = r.pick(&["", "a", "abc", "\u{0}x", "値", "/a/b c"]).to_string();
    let (a, b) = (r.mag(32) as u32, r.next() as i64);
    match r.below(20) {
        0 => same(c, v4),
        1 => same(c, v6),
        2 => same(c, if r.bool() { IpAddr::V4(v4) } else { IpAddr::V6(v6) }),
        3 => same(c, SocketAddr::new(if r.bool() { IpAddr::V4(v4) } else { IpAddr::V6(v6) }, port)),
        4 => same(c, (SocketAddrV4::new(v4, port), SocketAddrV6::new(v6, port, 0, 0), port)),
        5 => same(c, vec![Some(IpAddr::V4(v4)), None, Some(IpAddr::V6(v6))]),
        6 => same(c, NonZeroU32::new(a.max(1)).unwrap()),
        7 => same(c, (NonZeroI64::new(b | 1).unwrap(), NonZeroU8::new(a as u8 | 1).unwrap(), NonZeroI16::new(b as i16 | 1).unwrap())),
        8 => same(c, std::time::UNIX_EPOCH + std::time::Duration::new(r.mag(40), a % 1_000_000_000)),
        9 => same(c, r.pick(&[std::ops::Bound::Unbounded, std::ops::Bound::Included(a), std::ops::Bound::Excluded(a)]).clone()),
        10 => same(c, (a..=a.saturating_add(5), b.., ..port, v4)),
        11 => same(c, std::ffi::CString::new(text.replace('\0', "")).unwrap()),
        12 => same(c, std::ffi::OsString::from(text)),
        13 => same(c, std::cmp::Reverse(Saturating(a))),
        14 => same(c, (text.clone().into_boxed_str(), std::path::Path::new(&text).to_path_buf().into_boxed_path(), port)),
        15 => same(c, std::cell::Cell::new(b)),
        16 => same(c, std::cell::RefCell::new(vec![text.clone(), text])),
        17 => same(c, BTreeMap::from([(v4, (v6, port)), (Ipv4Addr::from(a), (v6, 1))])),
        18 => same(c, (Box::new(Ok::<IpAddr, String>(IpAddr::V4(v4))), Err::<u8, SocketAddr>(SocketAddr::new(IpAddr::V6(v6), port)))),
        _ => same(c, [NonZeroUsize::new(a as usize + 1), None, NonZeroUsize::new(usize::MAX)]),
    }
}

fn roundtrip(c: &mut Ctx, t: &Target, v: &Val) {
    c.note(|| format!("{} value {}", t.name(), short(v)));
    c.eval();
    let b = match t.enc(v) {
        Ok(b) => b,
        Err(e) => return c.violation(&format!("encoding failed: {e:?}\n{}\nvalue {}", t.name(), short(v))),
    };
    let want = canon(&t.sch, v.clone());
    match t.dec_at(&b) {
        Ok(w) if w == want => {
            c.distinct(th(t) ^ hash(&b));
            c.sample(|| format!("{} value {} <-> {}", t.name(), short(v), hexs(&b)));
        }
        Ok(w) => c.violation(&format!(
            "decoding gives another value\n{}\nvalue   {}\ndecoded {}\nbytes {}",
            t.name(), short(&want), short(&w), hexs(&b)
        )),
        Err(e) => c.violation(&format!(
            "decoding the encoding failed: {e:?}\n{}\nvalue {}\nbytes {}",
            t.name(), short(v), hexs(&b)
        )),
    }
}

// ------------------------------------------------------------------ C03

fn hostile(r: &mut Rng, t: &Target) -> Vec<u8> {
    if r.one_in(8) {
        return noise(r);
    }
    let mut fuel = *r.pick(&[3i64, 20, 60, 200]);
    let v = gen_val(r, &t.sch, &mut fuel);
    let e = ref_enc(&t.sch, &v);
    if r.one_in(12) {
        return e.out;
    }
    mutate(r, &e)
}

/// Values far from the start, with mutations in and behind them.
fn far(r: &mut Rng) -> (Target, Vec<u8>) {
    let (t, v, at) = gen_far(r, 1 << 18);
    let mut e = ref_enc(&t.sch, &v);
    if r.one_in(8) {
        return (t, e.out);
    }
    // What stands before is left alone, but for its length now and then.
    if !r.one_in(6) {
        e.map.retain(|(o, _, _)| *o >= at);
    }
    let mut b = mutate(r, &e);
    if r.one_in(6) {
        b.truncate(at + r.usize(9));
    }
    (t, b)
}

fn c03(c: &mut Ctx) {
    sweep::words(c, What::Accept);
    c.cases(1500, 60_000, |c, r| {
        let (t, b) = far(r);
        judge(c, &t, &b);
        c.count("values far from the start");
    });
    c.cases(200_000, 4_000_000, |c, r| {
        let t = gen_target(r);
        for _ in 0..1 + r.below(8) {
            let b = hostile(r, &t);
            judge(c, &t, &b);
        }
    });
}

/// Compares the real decoder with the reference one on any bytes.
pub fn judge(c: &mut Ctx, t: &Target, b: &[u8]) {
    let want = ref_dec(&t.sch, b);
    if want.res == Err(Rej::TooBig) {
        c.count("skipped: too many empty elements");
        return;
    }
    c.note(|| format!("{} bytes {}", t.name(), hexs(b)));
    c.eval();
    c.distinct(th(t) ^ hash(b));
    let got = t.dec_at(b);
    match (&want.res, want.rest, &got) {
        (Ok(v), 0, Ok(w)) => {
            if v != w {
                c.violation(&format!(
                    "decoded another value than the bytes denote\n{}\nbytes {}\ndecoded {}\ndenoted {}",
                    t.name(), hexs(b), short(w), short(v)
                ));
            }
            c.count("accepted a mutant");
            if want.dirty_pad {
                c.count("nonzero padding");
            }
        }
        (Ok(v), 0, Err(e)) => {
            if want.dirty_pad {
                // Refusing non-zero padding is as good as ignoring it.
                c.count("nonzero padding");
                return;
            }
            c.violation(&format!(
                "refused a well-formed encoding: {e:?}\n{}\nbytes {}\ndenoted {}",
                t.name(), hexs(b), short(v)
            ))
        }
        (Ok(_), k, Err(_)) => {
            debug_assert!(k > 0);
            c.count("rejected trailing");
        }
        (Ok(_), k, Ok(w)) => c.violation(&format!(
            "accepted {k} bytes too many\n{}\nbytes {}\ndecoded {}",
            t.name(), hexs(b), short(w)
        )),
        (Err(why), _, Ok(w)) => c.violation(&format!(
            "accepted bytes that are not a well-formed encoding ({why:?})\n{}\nbytes {}\ndecoded {}",
            t.name(), hexs(b), short(w)
        )),
        (Err(why), _, Err(e)) => {
            c.count(&format!("rejected {why:?}"));
            if c.want_sample() && *why != Rej::Short && b.len() < 80 {
                c.sample(|| format!("{} bytes {} rejected: {why:?}, {e:?}", t.name(), hexs(b)));
            }
        }
    }
}

// ------------------------------------------------------------------ C04

fn c04(c: &mut Ctx) {
    big::ends(c);
    c.cases(800, 30_000, |c, r| {
        let (t, v, _) = gen_far(r, 1 << 18);
        c.count("values far from the start");
        c04_one(c, r, t, v);
    });
    c.cases(40_000, 900_000, |c, r| {
        let t = gen_target(r);
        let v = gen_value(r, &t.sch);
        c04_one(c, r, t, v);
    });
}

fn c04_one(c: &mut Ctx, r: &mut Rng, t: Target, v: Val) {
        let b = ref_enc(&t.sch, &v).out;
        let whole = t.dec(&b);
        if whole.is_err() {
            // Not this property's business; without it nothing below means anything.
            c.count("encoding not accepted");
            return;
        }
        for i in 0..3 {
            let k = match i {
                0 => 1 + r.usize(8),
                1 => 4 * (1 + r.usize(6)),
                _ => 1 + r.usize(4096),
            };
            let mut x = b.clone();
            let tail = if r.bool() { vec![0; k] } else { r.bytes(k) };
            x.extend_from_slice(&tail);
            c.note(|| format!("{} extended by {k}: {}", t.name(), hexs(&x)));
            c.eval();
            c.distinct(th(&t) ^ hash(&x));
            match t.dec(&x) {
                Err(Error::TrailingData(n)) if n == k => c.count("extension refused"),
                o => {
                    return c.violation(&format!(
                        "{k} trailing bytes not reported as TrailingData({k}) but {}\n{}\nbytes {}",
                        short(&o), t.name(), hexs(&x)
                    ));
                }
            }
        }
        let cuts: Vec<usize> = if b.len() <= 96 {
            (0..b.len()).collect()
        } else {
            (0..24).map(|i| if i < 12 { b.len() - 1 - i } else { r.usize(b.len()) }).collect()
        };
        for n in cuts {
            let cut = b.len() - n;
            c.note(|| format!("{} prefix of {n} of {}", t.name(), hexs(&b)));
            c.eval();
            c.distinct(th(&t) ^ hash(&b[..n]));
            match t.dec(&b[..n]) {
                Err(Error::NotEnoughData(m)) if m > 0 && m <= cut => c.count("prefix refused"),
                o => {
                    return c.violation(&format!(
                        "prefix that lacks {cut} bytes not reported as NotEnoughData(1..={cut}) but {}\n{}\nprefix {}\nwhole {}",
                        short(&o), t.name(), hexs(&b[..n]), hexs(&b)
                    ));
                }
            }
        }
        c.sample(|| format!("{}: prefixes and extensions of {}", t.name(), hexs(&b)));
}

// ------------------------------------------------------------------ C05

fn survive(c: &mut Ctx, t: &Target, b: &[u8]) {
    if ref_dec(&t.sch, b).res == Err(Rej::TooBig) {
        return;
    }
    c.note(|| format!("{} bytes {}", t.name(), hexs(b)));
    c.eval();
    c.distinct(th(t) ^ hash(b));
    match catch(|| t.dec(b)) {
        Ok(Ok(_)) => c.count("returned a value"),
        Ok(Err(_)) => c.count("returned an error"),
        Err(m) => c.violation(&format!("decoding panicked: {m}\n{}\nbytes {}", t.name(), hexs(b))),
    }
    c.sample(|| format!("{} bytes {}", t.name(), hexs(b)));
}

fn c05(c: &mut Ctx) {
    big::hostile(c);
    sweep::words(c, What::Survive);
    c.cases(1500, 60_000, |c, r| {
        let (t, b) = far(r);
        survive(c, &t, &b);
        c.count("values far from the start");
    });
    c.cases(20_000, 600_000, |c, r| {
        // User code that refuses what it reads, with messages of all lengths and scripts.
        let s = gen_leaf(r);
        let s = with_bomb(r, s, false);
        let v = gen_val_some(r, &s);
        let mut b = ref_enc(&s, &v).out;
        let k = r.usize(9);
        b.extend_from_slice(&r.bytes(k));
        BOMB_ID.with(|b| b.set(r.next()));
        c.count("user code refused with a message");
        survive(c, &Target::dynamic(s), &b);
    });
    c.cases(200_000, 4_000_000, |c, r| {
        let t = gen_target(r);
        for _ in 0..1 + r.below(8) {
            let b = hostile(r, &t);
            survive(c, &t, &b);
        }
    });
}

// ------------------------------------------------------------------ C06

struct Limits {
    factor: u64,
    per_level: u64,
    fixed: u64,
}
const L: Limits = Limits { factor: 256, per_level: 3 << 20, fixed: 64 << 10 };

fn c06(c: &mut Ctx) {
    big::units(c);
    big::nested(c);
    big::scaling(c);
    c.cases(200_000, 4_000_000, |c, r| {
        let t = gen_target(r);
        for _ in 0..1 + r.below(8) {
            let b = announce(r, &t);
            let mut d = ref_dec(&t.sch, &b);
            if d.res == Err(Rej::TooBig) {
                continue;
            }
            if d.res == Err(Rej::Short) {
                c.count("announced more than present");
            }
            let steps = ref_steps(&t.sch, &b);
            d.res = Err(Rej::Short);
            drop(d);
            let lv = levels(&t.sch, 0);
            let bound = L.factor * b.len() as u64 + L.per_level * lv + L.fixed;
            c.note(|| format!("{} bytes {}", t.name(), hexs(&b)));
            ATTEMPTS.with(|a| a.set(0));
            let (_, peak) = alloc::peak(|| t.dec(&b).map(|_| ()).is_ok());
            let n = ATTEMPTS.with(|a| a.get());
            c.eval();
            c.distinct(th(&t) ^ hash(&b));
            c.max("largest peak", peak);
            c.max("most attempts", n);
            if peak > bound {
                c.violation(&format!(
                    "decoding {} bytes held {peak} bytes at once, over the bound of {bound}\n{}\nbytes {}",
                    b.len(), t.name(), hexs(&b)
                ));
            }
            if t.st.is_none() && n > steps + 8 {
                c.violation(&format!(
                    "decoding {} bytes attempted {n} elements where {steps} can be present\n{}\nbytes {}",
                    b.len(), t.name(), hexs(&b)
                ));
            }
            c.sample(|| format!("{} bytes {}: peak {peak}, bound {bound}", t.name(), hexs(&b)));
        }
        let v = gen_value(r, &t.sch);
        let (out, peak) = alloc::peak(|| t.enc(&v).map(|b| b.len()).unwrap_or(0));
        // Conversion of the harness value into the Rust type is included, hence the factor.
        let bound = 512 * out as u64 + (256 << 10);
        c.count("encodings measured");
        if t.st.is_none() && peak > 16 * out as u64 + 4096 || peak > bound {
            c.violation(&format!("encoding {out} bytes held {peak} bytes at once\n{}\nvalue {}", t.name(), short(&v)));
        }
    });
}

fn ref_steps(s: &Sch, b: &[u8]) -> u64 {
    ref_dec_steps(s, b)
}

/// Bytes whose counts and lengths announce far more than there is.
fn announce(r: &mut Rng, t: &Target) -> Vec<u8> {
    let mut fuel = *r.pick(&[3i64, 20, 60]);
    let v = gen_val(r, &t.sch, &mut fuel);
    let e = ref_enc(&t.sch, &v);
    let at: Vec<usize> =
        e.map.iter().filter(|(_, _, k)| matches!(k, Role::Count | Role::StrLen)).map(|(o, _, _)| *o).collect();
    if at.is_empty() || r.one_in(6) {
        return hostile(r, t);
    }
    let mut b = e.out;
    for _ in 0..1 + r.below(3) {
        let o = *r.pick(&at);
        let w = match r.below(3) {
            0 => *r.pick(&[u32::MAX, u32::MAX - 3, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 28, 1 << 24, 1 << 22, 1 << 26]),
            1 => (1 << (8 + r.below(24))) + r.below(4) as u32,
            _ => r.mag(32) as u32,
        };
        b[o..o + 4].copy_from_slice(&w.to_be_bytes());
        if r.bool() {
            let n = (o + 4 + r.usize(12)).min(b.len());
            b.truncate(n);
            break;
        }
    }
    b
}

// ------------------------------------------------------------------ C10

#[derive(Clone)]
enum Op {
    Enc(Target, Val),
    Dec(Target, Vec<u8>),
}

fn perform(op: &Op, id: u64) -> String {
    BOMB_ID.with(|b| b.set(id));
    let r = match op {
        Op::Enc(t, v) => {
            let before = v.clone();
            let r = catch(|| t.enc(v).map(|b| hash(&b) ^ b.len() as u64));
            if before != *v {
                return "the argument changed".to_string();
            }
            format!("{r:?}")
        }
        Op::Dec(t, b) => {
            let before = b.clone();
            let r = catch(|| t.dec_at(b));
            if before != *b {
                return "the argument changed".to_string();
            }
            format!("{r:?}")
        }
    };
    r
}

pub fn with_bomb(r: &mut Rng, s: Sch, panics: bool) -> Sch {
    let before = r.bool();
    let bomb = Sch::Bomb { panics, before };
    let mut cur = bomb;
    for _ in 0..1 + r.below(5) {
        let other = gen_leaf(r);
        cur = match r.below(8) {
            0 => Sch::Tup(vec![other, cur]),
            1 => Sch::Struct(vec![cur, other]),
            2 => Sch::Opt(cur.into()),
            3 => Sch::Newtype(cur.into()),
            4 => Sch::Enum(vec![(0, Var::New(cur))]),
            5 => Sch::Enum(vec![(3, Var::Tup(vec![other, cur]))]),
            6 => Sch::Enum(vec![(1, Var::Rec(vec![other, cur]))]),
            _ => Sch::Arr(cur.into(), 1),
        };
    }
    Sch::Tup(vec![s, cur])
}

/// A value in which the failing part is always reached.
pub fn gen_val_some(r: &mut Rng, s: &Sch) -> Val {
    match s {
        Sch::Opt(e) => Val::Some(gen_val_some(r, e).into()),
        Sch::Newtype(e) => Val::List(vec![gen_val_some(r, e)]),
        Sch::Arr(e, n) => Val::List((0..*n).map(|_| gen_val_some(r, e)).collect()),
        Sch::Tup(v) | Sch::Struct(v) | Sch::TupStruct(v) => Val::List(v.iter().map(|x| gen_val_some(r, x)).collect()),
        Sch::Seq(e) => Val::List((0..1 + r.below(3)).map(|_| gen_val_some(r, e)).collect()),
        Sch::Map(_, k, v) => {
            let n = 1 + r.below(2);
            Val::Map((0..n).map(|_| (gen_val_some(r, k), gen_val_some(r, v))).collect())
        }
        Sch::Enum(v) => {
            let i = r.usize(v.len());
            Val::Variant(i, v[i].1.members().into_iter().map(|m| gen_val_some(r, m)).collect())
        }
        _ => {
            let mut fuel = 12;
            gen_val(r, s, &mut fuel)
        }
    }
}

fn gen_op(r: &mut Rng) -> Op {
    match r.below(8) {
        0 => {
            let s = gen_sch(r, 1);
            let panics = r.bool();
            let s = with_bomb(r, s, panics);
            let v = gen_val_some(r, &s);
            if r.bool() {
                Op::Enc(Target::dynamic(s), v)
            } else {
                let mut b = ref_enc(&s, &v).out;
                b.extend_from_slice(&[0; 8]);
                Op::Dec(Target::dynamic(s), b)
            }
        }
        1..=3 => {
            let t = gen_target(r);
            let mut fuel = 60;
            let v = gen_val(r, &t.sch, &mut fuel);
            Op::Enc(t, v)
        }
        4 | 5 => loop {
            let t = gen_target(r);
            let b = hostile(r, &t);
            if ref_dec(&t.sch, &b).res != Err(Rej::TooBig) {
                break Op::Dec(t, b);
            }
        },
        _ => {
            let t = gen_target(r);
            let mut fuel = 60;
            let v = gen_val(r, &t.sch, &mut fuel);
            let b = ref_enc(&t.sch, &v).out;
            Op::Dec(t, b)
        }
    }
}

/// The same operation on data of the same size that differs a little.
fn sibling(r: &mut Rng, o: &Op) -> Option<Op> {
    match o {
        Op::Dec(t, b) if !b.is_empty() => {
            let mut b = b.clone();
            for _ in 0..1 + r.below(2) {
                let i = r.usize(b.len());
                b[i] = if r.bool() { *r.pick(&[0xff, 0x80, 0xc3, 0, 1]) } else { b[i] ^ 1 };
            }
            (ref_dec(&t.sch, &b).res != Err(Rej::TooBig)).then(|| Op::Dec(t.clone(), b))
        }
        _ => None,
    }
}

/// Changes a value without moving any part of it.
fn tweak(r: &mut Rng, v: &mut Val) -> bool {
    match v {
        Val::Str(s) => {
            // SAFETY: one ASCII character for another.
            let b = unsafe { s.as_bytes_mut() };
            let n = b.iter().filter(|x| x.is_ascii()).count();
            if n == 0 {
                return false;
            }
            let k = r.usize(n);
            let x = b.iter_mut().filter(|x| x.is_ascii()).nth(k).unwrap();
            *x ^= 1;
            true
        }
        Val::Bytes(b) if !b.is_empty() => {
            let i = r.usize(b.len());
            b[i] ^= 1 << r.below(8);
            true
        }
        Val::Bool(b) => {
            *b = !*b;
            true
        }
        Val::Some(x) => tweak(r, x),
        Val::List(l) | Val::Variant(_, l) => {
            let mut any = false;
            for x in l {
                if !any || r.one_in(4) {
                    any |= tweak(r, x);
                }
            }
            any
        }
        _ => false,
    }
}

/// The same value in the same place, changed between one encoding and the next.
fn in_place(c: &mut Ctx) {
    c.cases(20_000, 400_000, |c, r| {
        let t = Target::dynamic(gen_sch(r, 3));
        let mut fuel = 100;
        let mut v = gen_val(r, &t.sch, &mut fuel);
        for k in 0..4 {
            if k > 0 && !tweak(r, &mut v) {
                break;
            }
            c.note(|| format!("{} value {}", t.name(), short(&v)));
            let want = ref_enc(&t.sch, &v).out;
            let got = t.enc(&v);
            c.eval();
            if k == 0 && got.as_ref().ok() != Some(&want) {
                c.count("first result differs from the reference (left to C01)");
                break;
            }
            if k > 0 {
                c.count("encoded again after a change in place");
            }
            if got.as_ref().ok() != Some(&want) {
                return c.violation(&format!(
                    "encoding a value again after it changed in place gives other bytes\n{}\nvalue {}\ngot      {}\nexpected {}",
                    t.name(), short(&v), got.map(|b| hexs(&b)).unwrap_or_else(|e| format!("{e:?}")), hexs(&want)
                ));
            }
        }
    });
}

fn c10(c: &mut Ctx) {
    in_place(c);
    history(c, false);
    if !cfg!(miri) {
        within(c);
        hammer(c);
    }
}

/// A value that performs other operations while it is encoded or decoded.
struct Busy {
    before: u32,
    after: Vec<u16>,
}

thread_local! {
    static INNER: std::cell::RefCell<Vec<(std::rc::Rc<Op>, String, u32)>> = const { std::cell::RefCell::new(vec![]) };
    static WRONG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static DONE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static LAST_WILL: std::cell::RefCell<Option<LastWill>> = const { std::cell::RefCell::new(None) };
}

/// Performs what is planned, down to `depth` operations within each other.
fn busy() {
    let mine: Vec<_> = INNER.with(|i| i.borrow().clone());
    for (op, want, depth) in mine {
        let got = perform(&op, 7);
        DONE.with(|d| d.set(d.get() + 1));
        if got != want {
            WRONG.with(|w| *w.borrow_mut() = Some(format!("within another operation: first {}\nnow {}", short(&want), short(&got))));
        }
        if depth > 0 {
            let rest = INNER.with(|i| std::mem::take(&mut *i.borrow_mut()));
            INNER.with(|i| i.borrow_mut().extend(rest.iter().map(|x| (x.0.clone(), x.1.clone(), depth - 1)).take(2)));
            let b = Busy { before: 3, after: vec![1, 2] };
            let e = catch(|| serde_xdr::to_bytes(&b).map_err(|e| e.to_string()));
            let d = catch(|| serde_xdr::from_bytes::<Busy>(&Busy::bytes(3, &[1, 2])).map(|b| (b.before, b.after)).map_err(|e| e.to_string()));
            if e != Ok(Ok(Busy::bytes(3, &[1, 2]))) || d != Ok(Ok((3, vec![1, 2]))) {
                WRONG.with(|w| *w.borrow_mut() = Some(format!("an operation within another: {e:?} {d:?}")));
            }
            INNER.with(|i| *i.borrow_mut() = rest);
        }
    }
}

struct Now;

impl serde::Serialize for Now {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        busy();
        let r = s.serialize_u64(0x0102030405060708);
        busy();
        r
    }
}

impl<'de> serde::Deserialize<'de> for Now {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Now, D::Error> {
        busy();
        let n: u64 = serde::Deserialize::deserialize(d)?;
        busy();
        if n == 0x0102030405060708 { Ok(Now) } else { Err(serde::de::Error::custom("another number")) }
    }
}

impl Busy {
    fn bytes(before: u32, after: &[u16]) -> Vec<u8> {
        let mut v = before.to_be_bytes().to_vec();
        v.extend(0x0102030405060708u64.to_be_bytes());
        v.extend((after.len() as u32).to_be_bytes());
        after.iter().for_each(|x| v.extend((*x as u32).to_be_bytes()));
        v
    }
}

impl serde::Serialize for Busy {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (&self.before, Now, &self.after).serialize(s)
    }
}

impl<'de> serde::Deserialize<'de> for Busy {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Busy, D::Error> {
        let (before, _, after): (u32, Now, Vec<u16>) = serde::Deserialize::deserialize(d)?;
        Ok(Busy { before, after })
    }
}

/// Encodes and decodes when its thread ends. The harness's own thread-locals are gone by then, so
/// these operations are plain ones.
struct LastWill(Vec<String>, std::sync::mpsc::Sender<Option<String>>);

impl Drop for LastWill {
    fn drop(&mut self) {
        let mut want = (self.0.len() as u32).to_be_bytes().to_vec();
        for s in &self.0 {
            want.extend((s.len() as u32).to_be_bytes());
            want.extend(s.as_bytes());
            want.resize(want.len().div_ceil(4) * 4, 0);
        }
        let e = serde_xdr::to_bytes(&self.0);
        let d = serde_xdr::from_bytes::<Vec<String>>(&want);
        let x = serde_xdr::from_bytes::<Vec<String>>(&want[..want.len() - 1]);
        let bad = if e.as_ref().ok() != Some(&want) {
            Some(format!("at the end of its thread: {:?} encodes as {e:?}", self.0))
        } else if d.as_ref().ok() != Some(&self.0) {
            Some(format!("at the end of its thread: {:?} decodes as {d:?}", self.0))
        } else if x.is_ok() {
            Some(format!("at the end of its thread: a truncated encoding decodes as {x:?}"))
        } else {
            None
        };
        let _ = self.1.send(bad);
    }
}

/// Operations within operations, and at the very end of a thread.
fn within(c: &mut Ctx) {
    c.cases(300, 20_000, |c, r| {
        let ops: Vec<Op> = (0..3).map(|_| gen_op(r)).collect();
        let fresh: Vec<String> =
            ops.iter().map(|o| { let o = o.clone(); std::thread::spawn(move || perform(&o, 7)).join().unwrap_or_else(|_| "thread died".into()) }).collect();
        let depth = r.below(3) as u32;
        INNER.with(|i| *i.borrow_mut() = ops.iter().zip(&fresh).map(|(o, f)| (std::rc::Rc::new(o.clone()), f.clone(), depth)).collect());
        DONE.with(|d| d.set(0));
        let n = r.usize(5);
        let after: Vec<u16> = (0..n).map(|_| r.next() as u16).collect();
        let before = r.next() as u32;
        let want = Busy::bytes(before, &after);
        let e = catch(|| serde_xdr::to_bytes(&Busy { before, after: after.clone() }).map_err(|e| e.to_string()));
        let d = catch(|| serde_xdr::from_bytes::<Busy>(&want).map(|b| (b.before, b.after)).map_err(|e| e.to_string()));
        // While the thread unwinds.
        struct Guard;
        impl Drop for Guard {
            fn drop(&mut self) {
                if std::thread::panicking() {
                    busy();
                }
            }
        }
        let _ = catch(|| {
            let _g = Guard;
            panic!("unwinding")
        });
        INNER.with(|i| i.borrow_mut().clear());
        c.eval();
        c.add("operations within operations", DONE.with(|d| d.get()));
        fresh.iter().for_each(|f| c.distinct(hash(f.as_bytes()) ^ 0x77));
        if let Some(w) = WRONG.with(|w| w.borrow_mut().take()) {
            c.violation(&w);
        } else if e != Ok(Ok(want.clone())) {
            c.violation(&format!("an encoding is disturbed by what its value does meanwhile\nexpected {}\ngot {e:?}", hexs(&want)));
        } else if d != Ok(Ok((before, after.clone()))) {
            c.violation(&format!("a decoding is disturbed by what its value does meanwhile\nexpected {before} {after:?}\ngot {d:?}"));
        }
        let (tx, rx) = std::sync::mpsc::channel();
        let texts: Vec<String> = (0..r.usize(4)).map(|_| "ä".repeat(r.usize(9))).collect();
        let others: Vec<Op> = ops;
        let _ = std::thread::spawn(move || {
            // Set first, so that it is dropped last.
            LAST_WILL.with(|w| *w.borrow_mut() = Some(LastWill(texts, tx)));
            others.iter().for_each(|o| { perform(o, 7); });
        })
        .join();
        match rx.recv() {
            Ok(None) => c.count("operations at the end of a thread"),
            Ok(Some(m)) => c.violation(&m),
            Err(_) => c.inconclusive("no answer from an ending thread"),
        }
    });
}

/// The same few operations millions of times: nothing wears out.
fn hammer(c: &mut Ctx) {
    #[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
    enum E {
        A,
        B(u32),
        C { x: i16, y: Option<bool> },
    }
    let v: (u32, E, E, E, i8) = (9, E::A, E::B(u32::MAX), E::C { x: -2, y: Some(true) }, -1);
    let want: Vec<u8> = [9u32, 0, 1, u32::MAX, 2, -2i32 as u32, 1, 1, u32::MAX].iter().flat_map(|x| x.to_be_bytes()).collect();
    let s = String::from("abcde");
    let sw = b"\0\0\0\x05abcde\0\0\0".to_vec();
    let mut bad = want.clone();
    bad[4] = 1;
    let err = format!("{:?}", serde_xdr::from_bytes::<(u32, E, E, E, i8)>(&bad));
    let short = format!("{:?}", serde_xdr::from_bytes::<u32>(&want[..3]));
    const STEP: u64 = 1 << 14;
    // Quick: 14 million operations in each process; thorough: as many as the time allows.
    c.cases(300, 2_000_000, |c, _| {
        let mut wrong = None;
        if c.thorough && c.shard < 2 && c.nth() < 1100 {
            // Two processes come past the end of 32-bit counters with the smallest operation there is.
            let enc = c.shard == 0;
            for _ in 0..1 << 22 {
                let ok = if enc { serde_xdr::to_bytes(&7u32).is_ok_and(|b| b == [0, 0, 0, 7]) } else { serde_xdr::from_bytes::<u32>(&[0, 0, 0, 7]).is_ok_and(|n| n == 7) };
                if !ok {
                    c.violation("the smallest operation gives another result after many others");
                    return;
                }
            }
            c.add("operations of the endless loop", 1 << 22);
            c.max("operations of one process", (c.nth() + 1) << 22);
            return;
        }
        for _ in 0..STEP {
            if serde_xdr::to_bytes(&7u32).map(|b| b == [0, 0, 0, 7]).unwrap_or(false)
                && serde_xdr::to_bytes(&s).map(|b| b == sw).unwrap_or(false)
                && serde_xdr::from_bytes::<u32>(&[0, 0, 0, 7]).is_ok_and(|n| n == 7)
                && serde_xdr::from_bytes::<String>(&sw).is_ok_and(|t| t == s)
            {
                continue;
            }
            wrong = Some("a small operation");
            break;
        }
        for _ in 0..STEP / 64 {
            if serde_xdr::to_bytes(&v).ok().as_ref() != Some(&want) || serde_xdr::from_bytes::<(u32, E, E, E, i8)>(&want).ok().as_ref() != Some(&v) {
                wrong = Some("a structure");
            }
            if format!("{:?}", serde_xdr::from_bytes::<(u32, E, E, E, i8)>(&bad)) != err || format!("{:?}", serde_xdr::from_bytes::<u32>(&want[..3])) != short {
                wrong = Some("a failing decoding");
            }
        }
        c.add("operations of the endless loop", 4 * STEP + STEP / 16);
        c.max("operations of one process", c.nth() * (4 * STEP + STEP / 16));
        c.eval();
        if let Some(w) = wrong {
            c.violation(&format!("{w} gives another result in round {} of {STEP}", c.nth()));
        }
    });
}

fn history(c: &mut Ctx, c11: bool) {
    let (ops_n, rounds, threads) = if cfg!(miri) { (6, 10, 2) } else { (60, 300, 8) };
    let (q, th) = if cfg!(miri) { (2, 6) } else if c11 { (20, 1000) } else { (150, 8000) };
    c.cases(q, th, |c, r| {
        let mut ops: Vec<Op> = vec![];
        while ops.len() < ops_n {
            let o = gen_op(r);
            let next = sibling(r, &o);
            ops.push(o);
            ops.extend(next);
        }
        if cfg!(miri) {
            ops.truncate(6);
        }
        // What each operation does on a thread that has done nothing else.
        let fresh: Vec<String> = ops
            .iter()
            .map(|o| {
                let o = o.clone();
                std::thread::spawn(move || perform(&o, 7)).join().unwrap_or_else(|_| "thread died".to_string())
            })
            .collect();
        // And against the reference, where it has an opinion.
        for (o, f) in ops.iter().zip(&fresh) {
            match o {
                Op::Enc(t, v) if !has_bomb(&t.sch) => {
                    let w = ref_enc(&t.sch, v).out;
                    let want = format!("{:?}", Ok::<Result<u64, ()>, ()>(Ok(hash(&w) ^ w.len() as u64)));
                    if *f != want {
                        c.count("first result differs from the reference (left to C01)");
                    }
                }
                _ => {}
            }
        }
        let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
        let (ops, fresh) = (&ops, &fresh);
        let res: Vec<(Option<String>, Vec<(usize, usize)>)> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let seed = *seed;
                    s.spawn(move || {
                        let mut r = Rng::new(seed, 1);
                        let mut prev = usize::MAX;
                        let mut trace = vec![];
                        for k in 0..rounds {
                            let i = if prev != usize::MAX && r.one_in(3) { (prev + 1) % ops.len() } else { r.usize(ops.len()) };
                            let got = perform(&ops[i], 7);
                            trace.push((prev, i));
                            if got != fresh[i] {
                                let p = if prev == usize::MAX { "nothing".into() } else { fresh[prev].clone() };
                                let what = match &ops[i] {
                                    Op::Enc(t, v) => format!("encoding {} value {}", t.name(), short(v)),
                                    Op::Dec(t, b) => format!("decoding {} bytes {}", t.name(), hexs(b)),
                                };
                                return (
                                    Some(format!(
                                        "result depends on the history (step {k} of a thread, after an operation that gave {})\n{what}\nfirst  {}\nnow    {}",
                                        short(&p), short(&fresh[i]), short(&got)
                                    )),
                                    trace,
                                );
                            }
                            prev = i;
                        }
                        (None, trace)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        c.add("threads", threads as u64);
        for (v, trace) in res {
            for (p, i) in trace {
                c.eval();
                c.count("operations replayed");
                if p != usize::MAX {
                    if fresh[p].starts_with("Err(") {
                        c.count("after a user panic");
                    } else if fresh[p].starts_with("Ok(Err") {
                        c.count("after an error");
                    }
                    c.distinct(hash(fresh[p].as_bytes()).wrapping_mul(31) ^ hash(fresh[i].as_bytes()));
                }
            }
            if let Some(m) = v {
                c.violation(&m);
                return;
            }
        }
        c.sample(|| format!("first results of a pool: {}", fresh.iter().take(4).map(|f| short(f)).collect::<Vec<_>>().join(" | ")));
    });
}

pub fn has_bomb(s: &Sch) -> bool {
    let mut b = false;
    kinds(s, &mut |k| b |= k == "failing user code");
    b
}

// ------------------------------------------------------------------ C11

/// Decoded values must be values: reading them through raw bits shows it.
fn inspect(v: &Val) -> bool {
    match v {
        Val::Str(s) => std::str::from_utf8(s.as_bytes()).is_ok() && s.chars().count() <= s.len(),
        Val::Char(c) => {
            let n = unsafe { std::ptr::read(c as *const char as *const u32) };
            n < 0xd800 || (0xe000..=0x10ffff).contains(&n)
        }
        Val::Bool(b) => unsafe { std::ptr::read(b as *const bool as *const u8) <= 1 },
        Val::Bytes(b) => {
            // Touch every byte.
            b.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)) != 0x1234_5678_9abc_def1
        }
        Val::Some(x) => inspect(x),
        Val::List(l) | Val::Variant(_, l) => l.iter().all(inspect),
        Val::Map(m) => m.iter().all(|(k, v)| inspect(k) && inspect(v)),
        _ => true,
    }
}

fn c11(c: &mut Ctx) {
    let miri = cfg!(miri);
    let first = c.shard % 3 == 0 || std::env::var("MON_PREFIX").unwrap_or_default().starts_with("thread");
    if first {
        history(c, true);
        refuse::c08_some(c, if miri { 3 } else { 400 });
    }
    c.cases(if miri { 60 } else { 8000 }, if miri { 1500 } else { 300_000 }, |c, r| {
        let t = gen_target(r);
        let mut fuel = if miri { 10 } else { 100 };
        let v = gen_val(r, &t.sch, &mut fuel);
        c.note(|| format!("{} value {}", t.name(), short(&v)));
        c.eval();
        if let Ok(b) = t.enc(&v) {
            c.distinct(th(&t) ^ hash(&b));
            if let Ok(w) = t.dec(&b) {
                c.count("values inspected");
                if !inspect(&w) {
                    c.violation(&format!("decoded an invalid value\n{}\nbytes {}", t.name(), hexs(&b)));
                }
            }
            // Other bytes in the same place.
            let mut b = b;
            for _ in 0..if b.is_empty() { 0 } else { 2 } {
                let i = r.usize(b.len());
                let was = std::mem::replace(&mut b[i], *r.pick(&[0xff, 0x80, 0xc3]));
                if ref_dec(&t.sch, &b).res != Err(Rej::TooBig) {
                    c.count("other bytes in the same place");
                    if let Ok(Ok(w)) = catch(|| t.dec(&b)) {
                        if !inspect(&w) {
                            c.violation(&format!("decoded an invalid value\n{}\nbytes {}", t.name(), hexs(&b)));
                        }
                    }
                }
                b[i] = was;
                let _ = catch(|| t.dec(&b));
            }
        }
        for _ in 0..1 + r.below(6) {
            let b = hostile(r, &t);
            if ref_dec(&t.sch, &b).res == Err(Rej::TooBig) {
                continue;
            }
            // A heap copy that ends with its block, so that a read past its end is seen, and does
            // not always start at its beginning.
            let k = r.usize(4) * r.usize(2);
            let b: Box<[u8]> = std::iter::repeat_n(0xaa, k).chain(b).collect();
            let b = &b[k..];
            c.note(|| format!("{} bytes {}", t.name(), hexs(&b)));
            c.eval();
            c.count("hostile inputs");
            c.distinct(th(&t) ^ hash(&b));
            if let Ok(Ok(w)) = catch(|| t.dec(&b)) {
                c.count("values inspected");
                if !inspect(&w) {
                    c.violation(&format!("decoded an invalid value\n{}\nbytes {}", t.name(), hexs(&b)));
                }
            }
            if t.st.is_some() {
                // Everything was touched once above, so that nothing is set up lazily here.
                let (_, left) = alloc::net(|| t.dec(&b).is_ok());
                c.count("leak checked");
                if left != 0 {
                    c.violation(&format!("decoding left {left} bytes allocated\n{}\nbytes {}", t.name(), hexs(&b)));
                }
                let (_, left) = alloc::net(|| t.enc(&v).is_ok());
                if left != 0 {
                    c.violation(&format!("encoding left {left} bytes allocated\n{}\nvalue {}", t.name(), short(&v)));
                }
            }
            c.sample(|| format!("{} bytes {}", t.name(), hexs(&b)));
        }
    });
    if !miri && !first {
        history(c, true);
        refuse::c08_some(c, 400);
    }
}

// ------------------------------------------------------------------ C12

fn c12(c: &mut Ctx) {
    c.cases(80_000, 1_500_000, |c, r| {
        let n = r.usize(5);
        let d = r.below(3) as u32;
        let mut parts: Vec<(Sch, Val)> = (0..n)
            .map(|_| {
                let s = gen_sch(r, d);
                let mut fuel = 30;
                let v = gen_val(r, &s, &mut fuel);
                (s, v)
            })
            .collect();
        if r.one_in(25) && !cfg!(miri) {
            // The others come far from the start.
            let (t, v, _) = gen_far(r, 1 << 18);
            if let (Sch::Struct(l) | Sch::Tup(l) | Sch::TupStruct(l), Val::List(m)) = (&*t.sch, v) {
                parts = l.iter().cloned().zip(m).collect();
                c.count("members far from the start");
            }
        }
        let n = parts.len();
        let mut encs = vec![];
        for (s, v) in &parts {
            match real_enc(s, v) {
                Ok(b) => encs.push(b),
                Err(e) => return c.violation(&format!("encoding failed: {e:?}\n{s:?} {}", short(v))),
            }
        }
        let ss: Vec<Sch> = parts.iter().map(|p| p.0.clone()).collect();
        let vs: Vec<Val> = parts.iter().map(|p| p.1.clone()).collect();
        let cat: Vec<u8> = encs.concat();
        let word = |n: u32| n.to_be_bytes().to_vec();
        let mut cases: Vec<(&'static str, Sch, Val, Vec<u8>)> = vec![
            ("tuple", Sch::Tup(ss.clone()), Val::List(vs.clone()), cat.clone()),
            ("struct", Sch::Struct(ss.clone()), Val::List(vs.clone()), cat.clone()),
            ("struct", Sch::TupStruct(ss.clone()), Val::List(vs.clone()), cat.clone()),
        ];
        let idx = r.mag(31) as u32;
        for var in [Var::Tup(ss.clone()), Var::Rec(ss.clone())] {
            let i = r.usize(2);
            let mut t = vec![(idx, var), (idx ^ 1, Var::Unit)];
            t.swap(0, i);
            cases.push(("variant", Sch::Enum(t), Val::Variant(i, vs.clone()), [word(idx), cat.clone()].concat()));
        }
        if n > 0 {
            let (s, v) = (&ss[0], &vs[0]);
            cases.push(("newtype", Sch::Newtype(s.clone().into()), Val::List(vec![v.clone()]), encs[0].clone()));
            cases.push(("optional", Sch::Opt(s.clone().into()), Val::Some(v.clone().into()), [word(1), encs[0].clone()].concat()));
            cases.push(("variant", Sch::Enum(vec![(idx, Var::New(s.clone()))]), Val::Variant(0, vec![v.clone()]), [word(idx), encs[0].clone()].concat()));
            // Several values of one type.
            let m = r.usize(9);
            let mut fuel = 60;
            let items: Vec<Val> = (0..m).map(|_| gen_val(r, s, &mut fuel)).collect();
            let mut es = vec![];
            for x in &items {
                match real_enc(s, x) {
                    Ok(b) => es.push(b),
                    Err(e) => return c.violation(&format!("encoding failed: {e:?}\n{s:?} {}", short(x))),
                }
            }
            cases.push(("array", Sch::Arr(s.clone().into(), m), Val::List(items.clone()), es.concat()));
            cases.push(("list", Sch::Seq(s.clone().into()), Val::List(items.clone()), [word(m as u32), es.concat()].concat()));
            let t = &ss[n - 1];
            let mut kv = vec![];
            let mut kb = word(m as u32);
            for (k, b) in items.iter().zip(&es) {
                let v = gen_val(r, t, &mut fuel);
                kb.extend_from_slice(b);
                match real_enc(t, &v) {
                    Ok(b) => kb.extend_from_slice(&b),
                    Err(e) => return c.violation(&format!("encoding failed: {e:?}\n{t:?} {}", short(&v))),
                }
                kv.push((k.clone(), v));
            }
            cases.push(("map", Sch::Map(MapKind::List, s.clone().into(), t.clone().into()), Val::Map(kv), kb));
        }
        for (k, s, v, want) in cases {
            c.note(|| format!("{k} {s:?} value {}", short(&v)));
            c.eval();
            c.count(k);
            match real_enc(&s, &v) {
                Ok(b) => {
                    if b.len() % 4 != 0 {
                        return c.violation(&format!("encoding of {} bytes\n{s:?}\nvalue {}", b.len(), short(&v)));
                    }
                    if b != want {
                        return c.violation(&format!(
                            "encoding of a {k} is not made of its members' encodings\n{s:?}\nvalue {}\ngot  {}\nwant {}",
                            short(&v), hexs(&b), hexs(&want)
                        ));
                    }
                    c.distinct(hash(format!("{s:?}").as_bytes()) ^ hash(&b));
                }
                Err(e) => return c.violation(&format!("encoding failed: {e:?}\n{s:?}\nvalue {}", short(&v))),
            }
            // Surrounded by other values.
            let (ps, qs) = (gen_leaf(r), gen_leaf(r));
            let mut fuel = 10;
            let (pv, qv) = (gen_val(r, &ps, &mut fuel), gen_val(r, &qs, &mut fuel));
            let (Ok(pb), Ok(qb)) = (real_enc(&ps, &pv), real_enc(&qs, &qv)) else {
                return c.violation(&format!("encoding failed: {ps:?} {pv:?} {qs:?} {qv:?}"));
            };
            if real_dec(&s, &want).is_err() && min_size(&s, 0) == 0 {
                continue;
            }
            let alone = real_dec(&s, &want);
            let all = Sch::Tup(vec![ps.clone(), s.clone(), qs.clone()]);
            let bytes = [pb.clone(), want.clone(), qb.clone()].concat();
            match (real_dec(&ps, &pb), alone, real_dec(&qs, &qb), real_dec(&all, &bytes)) {
                (Ok(p), Ok(x), Ok(q), Ok(Val::List(l))) => {
                    if l != vec![p, x, q] {
                        return c.violation(&format!(
                            "values decode differently when put together\n{all:?}\nbytes {}\ngot {}",
                            hexs(&bytes), short(&l)
                        ));
                    }
                    c.count("decoded a concatenation");
                }
                o => {
                    return c.violation(&format!("values that decode alone do not decode together, or not alone: {}\n{all:?}\nbytes {}", short(&o), hexs(&bytes)));
                }
            }
        }
        c.sample(|| format!("tuple of {ss:?} is {}", hexs(&cat)));
        // The same shape written as an ordinary Rust type.
        let t = r.pick(statics());
        let v = gen_value(r, &t.sch);
        c.eval();
        match ((t.enc)(&v), real_enc(&t.sch, &v)) {
            (Ok(a), Ok(b)) if a == b => c.count("agrees with Rust type"),
            (a, b) => c.violation(&format!("{} encodes differently from its members: {} and {}", t.name, short(&a), short(&b))),
        }
    });
}

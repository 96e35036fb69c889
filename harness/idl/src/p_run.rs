//! G05 to G07: generated code is compiled and run.
use crate::ast;
use crate::crates::{self, Answer, Built, Rt, Runner};
use crate::model::{Enc, Mark, Model, Named, W};
use crate::modes::{self, EM, Mode, UM};
use crate::{gsem, names, p_gen};
use mon::{Ctx, Rng, Spec, hash, hexs};
use std::collections::BTreeSet;
use std::path::PathBuf;

pub struct Job {
    pub text: String,
    pub m: Model,
    pub mode: Mode,
    pub code: String,
}

pub fn work_dir(prop: &str) -> PathBuf {
    PathBuf::from(std::env::var("MON_DIR").unwrap_or_else(|_| "/tmp".into())).join(format!("{prop}-{}", std::process::id()))
}

pub fn rust_name(n: &str) -> String {
    if names::KEYWORDS.contains(&n) { format!("r#{n}") } else { n.to_string() }
}

/// A random file in several modes. `every`: the property is about every meaningful file, not only about those that are accepted.
pub fn jobs(ctx: &mut Ctx, r: &mut Rng, n_modes: usize, max_types: usize, every: bool) -> Vec<Job> {
    let mut o = gsem::Opts::any(r);
    o.types = 1 + r.usize(max_types);
    let ds = gsem::file(r, &o);
    let text = if r.bool() {
        ast::plain(&ds)
    } else {
        let t = ast::tokens(&ds, Some(r));
        ast::layout(&t, r, 2, true).0
    };
    let Some(m) = Model::new(&ds) else {
        ctx.inconclusive("the model cannot express a generated file");
        return vec![];
    };
    let mut modes: Vec<Mode> = modes::distinct().into_iter().filter(|m| o.dense || !m.complement()).collect();
    r.shuffle(&mut modes);
    modes.truncate(n_modes);
    let plain = !gsem::opaque_typedef(&ds);
    let mut v = vec![];
    for mut mode in modes {
        mode.keep = plain && r.one_in(3);
        match p_gen::generate(&text, &mode) {
            Ok(code) => v.push(Job { text: text.clone(), m: m.clone(), mode, code }),
            Err(e) if every => {
                ctx.violation(&format!("{}: a meaningful file is refused: {e}\n{text}", mode.name()));
                return vec![];
            }
            // G01, G06 and G09 decide that.
            Err(_) => ctx.count("files refused"),
        }
    }
    v
}

/// One part of the file with every combination, in every mode.
pub fn matrix(ctx: &mut Ctx, r: &mut Rng, part: usize, parts: usize, keep: bool) -> Vec<Job> {
    let ds = gsem::matrix(r, part, parts, !keep);
    ctx.add("declarations of the combination file", ds.len() as u64);
    in_modes(ctx, r, &ds, modes::distinct(), keep)
}

/// Unions over every kind of discriminant.
pub fn discriminants(ctx: &mut Ctx, r: &mut Rng) -> Vec<Job> {
    let dense = r.bool();
    let ds = gsem::discriminants(r, dense);
    ctx.add("definitions of the discriminant file", ds.len() as u64);
    let mut modes: Vec<Mode> = modes::distinct().into_iter().filter(|m| dense || !m.complement()).collect();
    r.shuffle(&mut modes);
    modes.truncate(3);
    let keep = r.one_in(3);
    in_modes(ctx, r, &ds, modes, keep)
}

fn in_modes(ctx: &mut Ctx, r: &mut Rng, ds: &[ast::Def], mut modes: Vec<Mode>, keep: bool) -> Vec<Job> {
    let text = ast::plain(ds);
    let Some(m) = Model::new(ds) else {
        ctx.inconclusive("the model cannot express the file with every combination");
        return vec![];
    };
    let mut v = vec![];
    if keep {
        r.shuffle(&mut modes);
        modes.truncate(4);
    }
    for mut mode in modes {
        mode.keep = keep;
        match p_gen::generate(&text, &mode) {
            Ok(code) => v.push(Job { text: text.clone(), m: m.clone(), mode, code }),
            Err(e) => {
                ctx.violation(&format!("{}: a meaningful file is refused: {e}
{text}", mode.name()));
                return vec![];
            }
        }
    }
    v
}

fn discriminant_program(ctx: &mut Ctx, r: &mut Rng, rt: &Rt, dir: &std::path::Path) -> Option<Program> {
    let js = discriminants(ctx, r);
    if js.is_empty() {
        return None;
    }
    ctx.note(|| js[0].text.clone());
    let edition = if r.bool() { "2021" } else { "2024" };
    build(ctx, rt, dir, js, edition)
}

fn matrix_program(ctx: &mut Ctx, r: &mut Rng, rt: &Rt, dir: &std::path::Path, keep: bool) -> Option<Program> {
    // The shards share one pass in each round.
    let js = matrix(ctx, r, (ctx.shard + ctx.nth()) as usize, ctx.nshards as usize, keep);
    if js.is_empty() {
        return None;
    }
    ctx.note(|| js[0].text.clone());
    let edition = if r.bool() { "2021" } else { "2024" };
    build(ctx, rt, dir, js, edition)
}

pub fn report(ctx: &mut Ctx, jobs: &[Job], ds: &[crates::Diag], edition: &str) {
    for (i, j) in jobs.iter().enumerate() {
        let mine: Vec<&crates::Diag> = ds.iter().filter(|d| d.module == Some(i)).collect();
        if let Some(d) = mine.first() {
            ctx.violation(&format!(
                "{} (edition {edition}): the generated code does not compile: {} error(s), the first:\n{}\nfile:\n{}\ncode:\n{}",
                j.mode.name(),
                mine.len(),
                d.text,
                j.text,
                j.code
            ));
            return;
        }
    }
    if let Some(d) = ds.first() {
        let all: String = jobs.iter().map(|j| format!("---- {}\n{}\n", j.mode.name(), j.text)).collect();
        ctx.violation(&format!("the generated types cannot be used (edition {edition}): {}\nfiles:\n{all}", d.text));
    }
}

pub fn kinds(ctx: &mut Ctx, j: &Job) {
    for (_, n) in &j.m.named {
        ctx.count(match n {
            Named::Enum(_) => "enumerations",
            Named::Struct(_) => "structures",
            Named::Union(_) | Named::Derived(_) => "unions",
        });
    }
    ctx.count(&format!("files with {}", j.mode.name()));
}

pub fn with_rt(ctx: &mut Ctx) -> Option<Rt> {
    match crates::rt() {
        Ok(r) => Some(r),
        Err(e) => {
            ctx.inconclusive(&format!("the runtime crates are missing: {e}"));
            None
        }
    }
}

// ---------------------------------------------------------------- G05

fn g05(ctx: &mut Ctx) {
    let Some(rt) = with_rt(ctx) else { return };
    let dir = work_dir("g05");
    let known = mon::known_findings("G05");
    ctx.cases(PROBES.len() as u64, PROBES.len() as u64, |ctx, _| {
        let i = ctx.nth() as usize;
        if i as u64 % ctx.nshards != ctx.shard {
            return;
        }
        probe(ctx, &rt, &dir, &PROBES[i], &known);
    });
    for keep in [false, true] {
        ctx.cases(1, 8, |ctx, r| {
            let js = matrix(ctx, r, (ctx.shard + ctx.nth()) as usize, ctx.nshards as usize, keep);
            let edition = if r.bool() { "2021" } else { "2024" };
            compiled(ctx, &rt, &dir, &js, edition);
        });
    }
    ctx.cases(1, 1, |ctx, _| deciders(ctx, &rt, &dir));
    ctx.cases(1, 8, |ctx, r| {
        let js = discriminants(ctx, r);
        let edition = if r.bool() { "2021" } else { "2024" };
        compiled(ctx, &rt, &dir, &js, edition);
    });
    ctx.cases(8, 600, |ctx, r| {
        let mut js = vec![];
        let mut tries = 0;
        while js.len() < 14 {
            tries += 1;
            if tries > 200 {
                return ctx.inconclusive("hardly any file is accepted");
            }
            let n = 1 + r.usize(4);
            let max = if r.one_in(5) { 25 } else { 10 };
            js.extend(jobs(ctx, r, n, max, false));
            if ctx.violated() {
                return;
            }
        }
        let edition = if r.bool() { "2021" } else { "2024" };
        ctx.note(|| js.iter().map(|j| format!("---- {}\n{}", j.mode.name(), j.text)).collect::<String>());
        compiled(ctx, &rt, &dir, &js, edition);
    });
    let _ = std::fs::remove_dir_all(&dir);
}

/// Unions decided by types of every kind, most of which decide nothing: refused, or generated in a way that compiles.
fn deciders(ctx: &mut Ctx, rt: &Rt, dir: &std::path::Path) {
    let bases = [
        "int b", "unsigned int b", "bool b", "en b", "hyper b", "unsigned hyper b", "char b", "short b", "unsigned short b", "float b", "double b", "string b<>",
        "opaque b<>", "opaque b[4]", "int b<>", "int b[2]", "int *b", "st b", "un b", "en b<3>", "en b[2]", "en *b", "bool b<>", "bool *b", "b b",
    ];
    let labels = ["case 0: int x; case 1: void;", "case ONE: int x; case NULLE: void;", "case TRUE: int x; case FALSE: void;", "case KA: opaque x<>; default: void;"];
    let head = "const ONE = 1; const NULLE = 0; enum en { KA = 0, KB = 3 }; struct st { int a; }; union un switch (int d) { case 0: int a; case 1: void; };";
    let mut mods = vec![];
    let mut texts = vec![];
    let mut i = 0;
    for b in bases {
        for depth in 1..4 {
            for l in labels {
                for what in ["", "*", "<>", "[2]"] {
                    i += 1;
                    if i % ctx.nshards != ctx.shard || (!what.is_empty() && depth > 1) {
                        continue;
                    }
                    // K14.
                    if b == "en b" && l.contains("case 0") || l.contains("ONE") && b == "en b" {
                        continue;
                    }
                    let mut t = format!("{head} typedef {b}; ");
                    let mut last = "b".to_string();
                    for k in 1..depth {
                        t.push_str(&format!("typedef {last} c{k}; "));
                        last = format!("c{k}");
                    }
                    let d = match what {
                        "" => "d".to_string(),
                        "*" => "*d".to_string(),
                        w => format!("d{w}"),
                    };
                    t.push_str(&format!("union u switch ({last} {d}) {{ {l} }};"));
                    ctx.note(|| t.clone());
                    for mut mode in modes::distinct() {
                        mode.keep = depth == 2 && !b.starts_with("opaque");
                        ctx.eval();
                        match p_gen::generate(&t, &mode) {
                            Err(_) => ctx.count("types that decide nothing, refused"),
                            Ok(code) => {
                                ctx.distinct(hash(code.as_bytes()));
                                mods.push(code);
                                texts.push(format!("{}: {t}", mode.name()));
                            }
                        }
                    }
                }
            }
        }
    }
    for (ms, ts) in mods.chunks(40).zip(texts.chunks(40)) {
        ctx.note(|| ts.join("\n"));
        match crates::compile(rt, dir, ms, None, "2021") {
            Built::Ok(_) => ctx.add("unions decided by every kind of type, compiled", ms.len() as u64),
            Built::Failed(e) => return ctx.inconclusive(&format!("no compiler: {e}")),
            Built::Refused(ds) => {
                let Some(d) = ds.first() else { return };
                let t = d.module.map(|m| ts[m].clone()).unwrap_or_default();
                return ctx.violation(&format!("a generated union does not compile: {}\nfile: {t}", d.text));
            }
        }
    }
}

fn compiled(ctx: &mut Ctx, rt: &Rt, dir: &std::path::Path, js: &[Job], edition: &str) {
    let mods: Vec<String> = js.iter().map(|j| j.code.clone()).collect();
    match crates::compile(rt, dir, &mods, None, edition) {
        Built::Ok(_) => {
            for j in js {
                ctx.eval();
                ctx.distinct(hash(j.code.as_bytes()));
                kinds(ctx, j);
                ctx.add("bytes of code compiled", j.code.len() as u64);
            }
            ctx.count(&format!("crates compiled with edition {edition}"));
            ctx.sample(|| js[0].text.clone());
        }
        Built::Refused(ds) => report(ctx, js, &ds, edition),
        Built::Failed(e) => ctx.inconclusive(&format!("no compiler: {e}")),
    }
}

struct Probe {
    id: &'static str,
    text: &'static str,
    mode: [bool; 4],
    /// The compiler's complaint.
    codes: &'static [&'static str],
}

const STD_U: [bool; 4] = [true, false, false, true];
const IDX: [bool; 4] = [false, false, true, false];

const PROBES: &[Probe] = &[
    Probe { id: "K9a", text: "typedef opaque ov<>; struct s { ov *a; };", mode: IDX, codes: &["E0277", "E0308", "E0599"] },
    Probe { id: "K9b", text: "typedef opaque of[4]; struct s { of a[2]; };", mode: IDX, codes: &["E0277", "E0308", "E0599"] },
    Probe { id: "K9c", text: "typedef opaque ov<>; struct s { ov a[2]; };", mode: IDX, codes: &["E0277", "E0308", "E0599"] },
    Probe { id: "K9d", text: "typedef opaque of[4]; struct s { of a<>; };", mode: IDX, codes: &["E0277", "E0308", "E0599"] },
    Probe { id: "K11a", text: "struct a { b *x; }; struct b { a *y; };", mode: IDX, codes: &["E0072"] },
    Probe { id: "K11b", text: "union u switch (int d) { case 1: u *x; case 2: void; };", mode: IDX, codes: &["E0072"] },
    Probe { id: "K12a", text: "struct s { int a[33]; };", mode: IDX, codes: &["E0277"] },
    Probe { id: "K12b", text: "struct s { opaque a[33]; };", mode: IDX, codes: &["E0277"] },
    Probe { id: "K14", text: "enum e { A = 1, B = 2 }; union u switch (e d) { case 1: int x; case 2: void; };", mode: STD_U, codes: &[""] },
    Probe { id: "K16", text: "const index = 3; enum e { A = 1 };", mode: IDX, codes: &["E0530", "E0308"] },
    Probe { id: "K16b", text: "const Ok = 3; enum e { A = 1 };", mode: IDX, codes: &["E0618"] },
];

fn probe(ctx: &mut Ctx, rt: &Rt, dir: &std::path::Path, p: &Probe, known: &[(String, String)]) {
    ctx.note(|| p.text.to_string());
    let mode = modes::mode(p.mode);
    let Ok(code) = p_gen::generate(p.text, &mode) else {
        ctx.count("probes of known findings that are refused now");
        return;
    };
    match crates::compile(rt, dir, std::slice::from_ref(&code), None, "2021") {
        Built::Ok(_) => ctx.count("probes of known findings that compile now"),
        Built::Failed(e) => ctx.inconclusive(&format!("no compiler: {e}")),
        Built::Refused(ds) => {
            let as_known = ds.iter().all(|d| p.codes.contains(&d.code.as_str()));
            match known.iter().find(|k| k.0 == p.id) {
                Some(k) if as_known => {
                    ctx.count("known findings seen");
                    ctx.known(&format!("{} {}", k.0, k.1));
                }
                _ => ctx.violation(&format!(
                    "{}: the generated code does not compile: {}\nfile:\n{}\ncode:\n{code}",
                    mode.name(),
                    ds.iter().map(|d| d.text.clone()).collect::<String>(),
                    p.text
                )),
            }
        }
    }
}

pub const G05: Spec = Spec {
    prop: "G05",
    rule: "random meaningful files (constants, enumerations, structures, unions, typedef chains, optionals, arrays, strings, opaque data, self references, remarkable names) are generated in random modes, fourteen modules to a crate, and compiled by rustc against the runtime crates of the tree, editions 2021 and 2024; an error that points into generated code is a violation; distinct by generated code",
    assumptions: &[
        "names stay distinct after the documented case conversion and from the names the code imports",
        "arrays and fixed opaque data up to 32 elements, no containers of opaque typedefs, recursion through variable arrays and direct self pointers (what lies beyond is listed as known findings and probed)",
    ],
    must_observe: &[
        "enumerations",
        "structures",
        "unions",
        "crates compiled with edition 2021",
        "crates compiled with edition 2024",
        "unions decided by every kind of type, compiled",
    ],
    worker: g05,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

// ---------------------------------------------------------------- G06 and G07

struct Program {
    jobs: Vec<Job>,
    runner: Runner,
    /// Job, type.
    table: Vec<(usize, usize)>,
}

fn build(ctx: &mut Ctx, rt: &Rt, dir: &std::path::Path, jobs: Vec<Job>, edition: &str) -> Option<Program> {
    let mut table = vec![];
    let mut main = String::from("fn main() { rt::serve(&[");
    for (k, j) in jobs.iter().enumerate() {
        for (i, (n, _)) in j.m.named.iter().enumerate() {
            table.push((k, i));
            main.push_str(&format!("rt::one::<m{k}::{}>,\n", rust_name(n)));
        }
    }
    main.push_str("]) }\n");
    let mods: Vec<String> = jobs.iter().map(|j| j.code.clone()).collect();
    match crates::compile(rt, dir, &mods, Some(&main), edition) {
        Built::Ok(exe) => match Runner::new(&exe) {
            Ok(runner) => Some(Program { jobs, runner, table }),
            Err(e) => {
                ctx.inconclusive(&format!("the program does not start: {e}"));
                None
            }
        },
        Built::Refused(ds) => {
            report(ctx, &jobs, &ds, edition);
            None
        }
        Built::Failed(e) => {
            ctx.inconclusive(&format!("no compiler: {e}"));
            None
        }
    }
}

fn program(ctx: &mut Ctx, r: &mut Rng, rt: &Rt, dir: &std::path::Path, every: bool) -> Option<Program> {
    let mut js = vec![];
    for _ in 0..2 {
        js.extend(jobs(ctx, r, 3, 9, every));
    }
    if js.is_empty() {
        return None;
    }
    ctx.note(|| js.iter().map(|j| format!("---- {}\n{}", j.mode.name(), j.text)).collect::<String>());
    let edition = if r.bool() { "2021" } else { "2024" };
    build(ctx, rt, dir, js, edition)
}

fn blame(j: &Job, ty: usize, b: &[u8]) -> String {
    format!("{}, type {}, bytes {}\nfile:\n{}", j.mode.name(), j.m.named[ty].0, hexs(b), j.text)
}

fn g06_values(ctx: &mut Ctx, r: &mut Rng, mut p: Program) {
    for k in 0..p.table.len() {
        let (ji, ty) = p.table[k];
        let j = &p.jobs[ji];
        if ty == 0 {
            kinds(ctx, j);
        }
        let w = W::N(ty);
        for _ in 0..14 {
            let mut fuel = *r.pick(&[10, 40, 40, 300]);
            let v = j.m.value(&w, r, &mut fuel);
            let mut e = Enc::default();
            j.m.encode(&w, &v, &mut e);
            let want = j.m.debug(&w, &v, &j.mode, false);
            let mut f = BTreeSet::new();
            j.m.findings(&w, &v, &j.mode, &mut f);
            if f.contains("K5") || f.contains("K13") {
                ctx.count("values outside (known findings)");
                continue;
            }
            ctx.eval();
            ctx.distinct(hash(format!("{}{}{want}", j.mode.name(), j.m.named[ty].0).as_bytes()));
            let a = p.runner.ask(k, &e.b);
            let bad = if f.contains("K4") {
                // A default arm in a mode that has no place for the discriminant.
                ctx.count("values with a default arm in a mode without discriminants");
                match (&a, j.mode.u) {
                    (Answer::Value(re, d), UM::Indexer) => *d != want || !(matches!(re, Ok(b) if *b == e.b) || matches!(re, Err(m) if m.starts_with("P not implemented"))),
                    (Answer::Value(Ok(b), _), _) => *b != e.b,
                    (Answer::Error(_), UM::Complement) => false,
                    _ => true,
                }
            } else {
                ctx.count("values");
                ctx.add("bytes", e.b.len() as u64);
                for (_, m) in &e.marks {
                    match m {
                        Mark::Enum(_) => ctx.count("enumeration numbers"),
                        Mark::Disc(_) => ctx.count("union discriminants"),
                        _ => {}
                    }
                }
                !matches!(&a, Answer::Value(Ok(b), d) if *b == e.b && *d == want)
            };
            if let Answer::None(m) = &a {
                ctx.inconclusive(m);
                return;
            }
            if bad {
                ctx.violation(&format!("the value {want}\ngives {a:?}\n{}\ncode:\n{}", blame(j, ty, &e.b), j.code));
                return;
            }
        }
    }
    let t = p.jobs[0].text.clone();
    ctx.sample(|| t);
}

fn g06(ctx: &mut Ctx) {
    let Some(rt) = with_rt(ctx) else { return };
    let dir = work_dir("g06");
    if ctx.shard == 0 {
        ctx.cases(1, 1, |ctx, _| known_wire(ctx, &rt, &dir, "G06"));
    } else {
        ctx.cases(1, 1, |_, _| {});
    }
    for keep in [false, true] {
        ctx.cases(1, 8, |ctx, r| {
            if let Some(p) = matrix_program(ctx, r, &rt, &dir, keep) {
                g06_values(ctx, r, p);
            }
        });
    }
    ctx.cases(1, 16, |ctx, r| {
        if let Some(p) = discriminant_program(ctx, r, &rt, &dir) {
            g06_values(ctx, r, p);
        }
    });
    ctx.cases(14, 400, |ctx, r| {
        if let Some(p) = program(ctx, r, &rt, &dir, true) {
            g06_values(ctx, r, p);
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}

pub const G06: Spec = Spec {
    prop: "G06",
    rule: "random meaningful files are generated in up to three modes each, compiled and run; random values of every generated type, encoded by an independent RFC 4506 encoder from the interface file, are decoded by the generated type: its debug text must name every member with its own data, and encoding it again must give the same bytes; non-trivial: a value was decoded; distinct by mode, type and value",
    assumptions: &["debug text is that of derived Debug", "values stay within the bounds written in the file"],
    must_observe: &["values", "enumeration numbers", "union discriminants", "structures", "unions", "enumerations"],
    worker: g06,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

/// Whether the known finding about numbers without an item in indexer enumerations applies.
fn min_item(m: &Model, mark: &Mark, mode: &Mode) -> Option<i32> {
    if mode.e != EM::Indexer {
        return None;
    }
    let e = match mark {
        Mark::Enum(i) => *i,
        Mark::Disc(i) if mode.u == UM::Union => match &m.named[*i].1 {
            Named::Union(u) => match &u.disc {
                W::N(e) => *e,
                _ => return None,
            },
            _ => return None,
        },
        _ => return None,
    };
    match &m.named[e].1 {
        Named::Enum(items) => items.iter().map(|x| x.1).min(),
        _ => None,
    }
}

fn declared(m: &Model, mark: &Mark) -> BTreeSet<i64> {
    match mark {
        Mark::Enum(i) | Mark::Disc(i) => match &m.named[*i].1 {
            Named::Enum(items) => items.iter().map(|x| x.1 as i64).collect(),
            Named::Union(u) => u.arms.iter().map(|a| a.1 as u32 as i32 as i64).collect(),
            _ => BTreeSet::new(),
        },
        _ => BTreeSet::new(),
    }
}

fn g07_values(ctx: &mut Ctx, r: &mut Rng, mut p: Program) {
    let k3 = mon::known_findings("G07").into_iter().find(|k| k.0 == "K3");
    for k in 0..p.table.len() {
        let (ji, ty) = p.table[k];
        let j = &p.jobs[ji];
        let w = W::N(ty);
        for round in 0..10 {
            let mut fuel = *r.pick(&[8, 30, 60]);
            let v = j.m.value(&w, r, &mut fuel);
            let mut e = Enc::default();
            j.m.encode(&w, &v, &mut e);
            let mut f = BTreeSet::new();
            j.m.findings(&w, &v, &j.mode, &mut f);
            if !f.is_empty() {
                ctx.count("values outside (known findings)");
                continue;
            }
            ctx.eval();
            ctx.distinct(hash(format!("{}{}{}", j.mode.name(), j.m.named[ty].0, mon::hex(&e.b)).as_bytes()));
            let whole = e.b.clone();
            // Truncated.
            for n in 0..3 {
                if whole.is_empty() {
                    break;
                }
                let cut = if n == 0 { whole.len() - 1 } else { r.usize(whole.len()) };
                ctx.count("truncated encodings");
                match p.runner.ask(k, &whole[..cut]) {
                    Answer::Error(_) => {}
                    Answer::None(m) => return ctx.inconclusive(&m),
                    a => return ctx.violation(&format!("cut after {cut} bytes: {a:?}\n{}\ncode:\n{}", blame(j, ty, &whole), j.code)),
                }
            }
            // Extended.
            let mut long = whole.clone();
            let n = *r.pick(&[1usize, 3, 4, 8]);
            let fill = if r.bool() { vec![0; n] } else { r.bytes(n) };
            long.extend(fill);
            ctx.count("extended encodings");
            match p.runner.ask(k, &long) {
                Answer::Error(_) => {}
                Answer::None(m) => return ctx.inconclusive(&m),
                a => return ctx.violation(&format!("with {n} bytes more: {a:?}\n{}\ncode:\n{}", blame(j, ty, &long), j.code)),
            }
            // Numbers that denote nothing.
            for (at, mark) in &e.marks {
                if !matches!(mark, Mark::Enum(_) | Mark::Disc(_)) {
                    continue;
                }
                if let Mark::Disc(i) = mark {
                    if matches!(&j.m.named[*i].1, Named::Union(u) if u.default.is_some()) {
                        continue;
                    }
                }
                let known = declared(&j.m, mark);
                // Those at the ends once for each type, and others near to what is declared.
                let ends = [i32::MAX as i64, i32::MIN as i64, -1, 0, 1, i32::MAX as i64 - 1];
                for probe in if round == 0 { 0 } else { ends.len() }..ends.len() + 4 {
                    let near = *known.iter().nth(r.usize(known.len())).unwrap();
                    let z = near as i32;
                    let x: i64 = match r.below(10) {
                        _ if probe < ends.len() => ends[probe],
                        0 => *r.pick(&[-1i64, i32::MIN as i64, i32::MAX as i64, 0, 1, 2]),
                        1 => r.odd32() as i32 as i64,
                        2 => near | (1 << (8 + r.below(23))),
                        3 => z.swap_bytes() as i64,
                        4 => z.rotate_left(8 * (1 + r.below(3)) as u32) as i64,
                        5 => *r.pick(&[!z, z.wrapping_neg(), z.wrapping_mul(2), z >> 1, z as i16 as i32, z as u8 as i32, z.wrapping_add(i32::MIN)]) as i64,
                        6 => (z ^ (1 << r.below(32))) as i64,
                        _ => near + r.range(-2, 2),
                    };
                    let x = x as i32 as i64;
                    if known.contains(&x) {
                        continue;
                    }
                    let mut b = whole.clone();
                    b[*at..*at + 4].copy_from_slice(&(x as i32).to_be_bytes());
                    ctx.count(match mark {
                        Mark::Enum(_) => "undeclared enumeration numbers",
                        _ => "undeclared discriminants",
                    });
                    let a = p.runner.ask(k, &b);
                    match &a {
                        Answer::Error(_) => ctx.count("undeclared numbers refused"),
                        Answer::None(m) => return ctx.inconclusive(m),
                        Answer::Value(Ok(re), _) if *re == b => ctx.count("undeclared numbers kept"),
                        // What follows may read as other things now, padding among them, which comes back as zeros.
                        Answer::Value(Ok(re), d) if re.len() == b.len() && re[..*at + 4] == b[..*at + 4] && matches!(p.runner.ask(k, re), Answer::Value(Ok(again), e) if again == *re && e == *d) => {
                            ctx.count("undeclared numbers kept");
                        }
                        a => {
                            // Exactly what the smallest item would have given?
                            let same = match min_item(&j.m, mark, &j.mode) {
                                Some(min) if k3.is_some() => {
                                    let mut c = whole.clone();
                                    c[*at..*at + 4].copy_from_slice(&min.to_be_bytes());
                                    format!("{:?}", p.runner.ask(k, &c)) == format!("{a:?}")
                                }
                                _ => false,
                            };
                            if same {
                                ctx.count("undeclared numbers taken for the smallest item (known finding)");
                                continue;
                            }
                            return ctx.violation(&format!("the undeclared number {x} at byte {at}: {a:?}\n{}\ncode:\n{}", blame(j, ty, &b), j.code));
                        }
                    }
                }
            }
            // Anything else.
            if j.m.empty_elements(&w) {
                ctx.count("types left out of hostile inputs (elements without bytes)");
                continue;
            }
            for _ in 0..6 {
                let mut b = whole.clone();
                match r.below(5) {
                    3 => b = (0..r.usize(14)).flat_map(|_| r.odd32().to_be_bytes()).collect(),
                    0 if b.len() >= 4 => {
                        let i = r.usize(b.len() / 4) * 4;
                        let x = r.odd32();
                        b[i..i + 4].copy_from_slice(&x.to_be_bytes());
                    }
                    1 if !b.is_empty() => {
                        let i = r.usize(b.len());
                        b[i] ^= 1 << r.below(8);
                    }
                    2 => {
                        let n = r.usize(64);
                        b = r.bytes(n);
                    }
                    _ => {
                        let n = r.usize(5) * 4;
                        b = r.bytes(n).iter().map(|x| x & 3).collect();
                    }
                }
                ctx.count("hostile inputs");
                match p.runner.ask(k, &b) {
                    Answer::Error(_) => {}
                    Answer::Value(..) => ctx.count("hostile inputs that decode"),
                    Answer::None(m) => return ctx.inconclusive(&m),
                    a => return ctx.violation(&format!("hostile bytes: {a:?}\n{}\ncode:\n{}", blame(j, ty, &b), j.code)),
                }
            }
        }
    }
    let t = p.jobs[0].text.clone();
    ctx.sample(|| t);
}

fn g07(ctx: &mut Ctx) {
    let Some(rt) = with_rt(ctx) else { return };
    let dir = work_dir("g07");
    if ctx.shard == 0 {
        ctx.cases(1, 1, |ctx, _| known_wire(ctx, &rt, &dir, "G07"));
    } else {
        ctx.cases(1, 1, |_, _| {});
    }
    ctx.cases(1, 8, |ctx, r| {
        if let Some(p) = matrix_program(ctx, r, &rt, &dir, false) {
            g07_values(ctx, r, p);
        }
    });
    ctx.cases(1, 16, |ctx, r| {
        if let Some(p) = discriminant_program(ctx, r, &rt, &dir) {
            g07_values(ctx, r, p);
        }
    });
    ctx.cases(13, 380, |ctx, r| {
        if let Some(p) = program(ctx, r, &rt, &dir, false) {
            g07_values(ctx, r, p);
        }
    });
    let _ = std::fs::remove_dir_all(&dir);
}

pub const G07: Spec = Spec {
    prop: "G07",
    rule: "the valid encodings of random values of generated types are damaged: every enumeration number and discriminant is replaced by numbers the file does not declare, encodings are truncated and extended, words and bits are changed; each must be refused, or keep the number when encoded again, and nothing may panic; distinct by mode, type and bytes",
    assumptions: &["unions with a default arm are left to G06"],
    must_observe: &["undeclared enumeration numbers", "undeclared discriminants", "undeclared numbers refused", "truncated encodings", "extended encodings", "hostile inputs that decode"],
    worker: g07,
    as_limit_kib: 0,
    shards: 8,
    hang_cpu_s: 60,
};

// ---------------------------------------------------------------- known findings

struct Wire {
    prop: &'static str,
    id: &'static str,
    text: &'static str,
    mode: [bool; 4],
    ty: &'static str,
    bytes: &'static [u8],
    /// What is observed.
    seen: fn(&Answer) -> bool,
    /// What would be right.
    right: fn(&Answer, &[u8]) -> bool,
}

const COMP: [bool; 4] = [false, false, false, false];

fn keeps(a: &Answer, b: &[u8]) -> bool {
    matches!(a, Answer::Value(Ok(x), _) if x == b)
}
fn refuses_or_keeps(a: &Answer, b: &[u8]) -> bool {
    matches!(a, Answer::Error(_)) || keeps(a, b)
}

const WIRES: &[Wire] = &[
    Wire {
        prop: "G06",
        id: "K4a",
        text: "union u switch (int d) { case 1: int x; default: int y; };",
        mode: IDX,
        ty: "U",
        bytes: &[0, 0, 0, 7, 0, 0, 0, 9],
        seen: |a| matches!(a, Answer::Value(Err(e), d) if e.starts_with("P not implemented") && d == "Default(9)"),
        right: keeps,
    },
    Wire {
        prop: "G06",
        id: "K4b",
        text: "union u switch (int d) { case 1: int x; default: int y; };",
        mode: COMP,
        ty: "U",
        bytes: &[0, 0, 0, 7, 0, 0, 0, 9],
        seen: |a| matches!(a, Answer::Error(_)),
        right: keeps,
    },
    Wire {
        prop: "G06",
        id: "K5",
        text: "enum e { A = -1, B = 0 };",
        mode: COMP,
        ty: "E",
        bytes: &[0, 0, 0, 0],
        seen: |a| matches!(a, Answer::Value(Ok(_), d) if d == "A"),
        right: |a, b| matches!(a, Answer::Value(Ok(x), d) if x == b && d == "B"),
    },
    Wire {
        prop: "G06",
        id: "K13",
        text: "union u switch (int d) { case 1: opaque x[4]; };",
        mode: IDX,
        ty: "U",
        bytes: &[0, 0, 0, 1, 1, 2, 3, 4],
        seen: |a| matches!(a, Answer::Error(_)),
        right: keeps,
    },
    Wire {
        prop: "G07",
        id: "K3",
        text: "enum e { A = 3, B = 5 };",
        mode: IDX,
        ty: "E",
        bytes: &[0, 0, 0, 4],
        seen: |a| matches!(a, Answer::Value(Ok(b), d) if d == "A" && *b == [0, 0, 0, 3]),
        right: refuses_or_keeps,
    },
    Wire {
        prop: "G07",
        id: "K4",
        text: "union u switch (int d) { case 1: int x; default: void; };",
        mode: IDX,
        ty: "U",
        bytes: &[0, 0, 0, 7],
        seen: |a| matches!(a, Answer::Value(Err(e), d) if e.starts_with("P not implemented") && d == "Default"),
        right: refuses_or_keeps,
    },
];

fn known_wire(ctx: &mut Ctx, rt: &Rt, dir: &std::path::Path, prop: &str) {
    let known = mon::known_findings(prop);
    let mine: Vec<&Wire> = WIRES.iter().filter(|w| w.prop == prop).collect();
    let mut js = vec![];
    for w in &mine {
        let mode = modes::mode(w.mode);
        let (Ok(code), Ok((ds, _))) = (p_gen::generate(w.text, &mode), crate::p_parse::real(w.text)) else {
            ctx.violation(&format!("a meaningful file is refused:\n{}", w.text));
            return;
        };
        js.push(Job { text: w.text.to_string(), m: Model::new(&ds).unwrap(), mode, code });
    }
    let Some(mut p) = build(ctx, rt, dir, js, "2021") else { return };
    for (i, w) in mine.iter().enumerate() {
        let k = p.table.iter().position(|(j, t)| *j == i && p.jobs[i].m.named[*t].0 == w.ty).unwrap();
        let a = p.runner.ask(k, w.bytes);
        ctx.eval();
        if (w.right)(&a, w.bytes) {
            ctx.count("known findings that are gone");
        } else if let Answer::None(m) = &a {
            ctx.inconclusive(m);
        } else {
            match known.iter().find(|x| x.0 == w.id) {
                Some(x) if (w.seen)(&a) => {
                    ctx.count("known findings seen");
                    ctx.known(&format!("{} {}", x.0, x.1));
                }
                _ => ctx.violation(&format!("{a:?}\n{}", blame(&p.jobs[i], p.table[k].1, w.bytes))),
            }
        }
    }
}

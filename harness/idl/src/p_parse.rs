//! G01 to G04: parsing.
use crate::ast::{self, Def, Lex, Tok};
use crate::{gsem, gsyn, modes, rp};
use mon::{Ctx, Rng, Spec, hash};
use rpcgen::{gen_code, parser};

type Parsed = Result<(Vec<Def>, usize), String>;

pub fn real(text: &str) -> Parsed {
    match parser::parse(text) {
        Ok(d) => Ok(rp::defs(&d)),
        Err(e) => Err(format!("{e:?}")),
    }
}

fn first_diff(a: &[Def], b: &[Def]) -> String {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            return format!("definition {i}\n  written: {:?}\n  parsed:  {:?}", a.get(i), b.get(i));
        }
    }
    "none".to_string()
}

fn kinds(ctx: &mut Ctx, ds: &[Def]) {
    for d in ds {
        ctx.count(match d {
            Def::Const(..) => "constants",
            Def::Typedef(_) => "typedefs",
            Def::Enum(..) => "enumerations",
            Def::Struct(..) => "structures",
            Def::Union(..) => "unions",
            Def::Program(..) => "programs",
        });
    }
}

/// A valid file: from either generator.
pub fn valid(r: &mut Rng) -> (Vec<Def>, Vec<Tok>) {
    if r.one_in(3) {
        let o = gsem::Opts::any(r);
        let ds = gsem::file(r, &o);
        let toks = ast::tokens(&ds, Some(r));
        (ds, toks)
    } else {
        gsyn::file(r)
    }
}

// ---------------------------------------------------------------- G01

fn g01(ctx: &mut Ctx) {
    ctx.cases(12_000, 1_500_000, |ctx, r| {
        let (ds, toks) = valid(r);
        let rich = r.below(4);
        let lines = r.one_in(4);
        let (text, nl) = ast::layout(&toks, r, rich, lines);
        ctx.note(|| text.clone());
        ctx.eval();
        if !ds.is_empty() {
            ctx.distinct(hash(text.as_bytes()));
        }
        kinds(ctx, &ds);
        ctx.max("most tokens in a file", toks.len() as u64);
        ctx.sample(|| text.clone());
        match real(&text) {
            Err(e) => ctx.violation(&format!("a file of the grammar is refused: {e}\nfile:\n{text}")),
            Ok((got, gl)) => {
                if got != ds {
                    ctx.violation(&format!("parsed definitions differ: {}\nfile:\n{text}", first_diff(&ds, &got)));
                } else if gl != nl {
                    ctx.violation(&format!("{nl} pass-through lines written, {gl} noted\nfile:\n{text}"));
                }
            }
        }
    });
}

pub const G01: Spec = Spec {
    prop: "G01",
    rule: "a random syntax tree (all constructs of the grammar nested up to 3 deep, names chosen to sit next to keywords, numbers of all sizes and bases) is written out with a random layout and parsed; the parsed definitions are compared with the tree; non-trivial: at least one definition; distinct by text",
    assumptions: &["the grammar is that of RFC 4506 section 6.3 with the extensions the parser documents (char, short, lone unsigned, programs, pass-through lines)"],
    must_observe: &["constants", "typedefs", "enumerations", "structures", "unions", "programs"],
    worker: g01,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 20,
};

// ---------------------------------------------------------------- G02

fn gen_all(text: &str, cfg: &gen_code::Config) -> Result<String, String> {
    let d = parser::parse(text).map_err(|e| format!("{e:?}"))?;
    gen_code::gen_code(d, cfg).map_err(|e| format!("{e:?}"))
}

/// Small enough for the modes that number every value in between.
pub fn dense(toks: &[Tok]) -> bool {
    toks.iter().all(|t| match t.t.parse::<i128>() {
        Ok(v) => v.abs() <= 2000,
        Err(_) => {
            !t.t.starts_with(|c: char| c.is_ascii_digit() || c == '-')
                || t.t
                    .strip_prefix("0x")
                    .map(|h| i128::from_str_radix(h, 16).unwrap_or(i128::MAX))
                    .or_else(|| i128::from_str_radix(&t.t, 8).ok())
                    .unwrap_or(i128::MAX)
                    <= 2000
        }
    })
}

fn pick_config(r: &mut Rng, toks: &[Tok]) -> gen_code::Config {
    let dense = dense(toks);
    loop {
        let c = r.pick(&modes::all_configs()).clone();
        if dense || (!c.enum_complement_index() && !c.union_complement_index()) {
            return c;
        }
    }
}

pub fn mutate(r: &mut Rng, toks: &mut Vec<Tok>) {
    for _ in 0..1 + r.below(2) {
        if toks.is_empty() {
            toks.push(Tok { t: "x".into(), end: false });
            continue;
        }
        let i = r.usize(toks.len());
        let any = |r: &mut Rng| -> String {
            match r.below(6) {
                0 => r.pick(ast::RESERVED).to_string(),
                1 => gsyn::name(r),
                2 => gsyn::num(r).text(),
                _ => r.pick(&["{", "}", "[", "]", "<", ">", "(", ")", "*", ",", ";", ":", "="]).to_string(),
            }
        };
        match r.below(7) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 => {
                let j = r.usize(toks.len());
                toks.swap(i, j);
            }
            3 => {
                let t = any(r);
                toks.insert(i, Tok { t, end: false });
            }
            4 => toks.truncate(i),
            5 if i + 1 < toks.len() => toks.swap(i, i + 1),
            _ => toks[i].t = any(r),
        }
    }
    // Pass-through lines are only put where a definition may begin.
    let mut depth = 0;
    for t in toks.iter_mut() {
        match t.t.as_str() {
            "{" | "(" => depth += 1,
            "}" | ")" => depth -= 1,
            _ => {}
        }
        t.end = t.t == ";" && depth == 0;
    }
}

/// Something that other languages allow at the side of a name or a number.
fn glue(r: &mut Rng, toks: &mut [Tok]) {
    let wanted: u64 = r.below(3);
    let c: Vec<usize> = (0..toks.len())
        .filter(|&i| {
            let c = toks[i].t.as_bytes()[0];
            match wanted {
                0 => c.is_ascii_digit() || c == b'-',
                1 => c.is_ascii_alphabetic() || c == b'_',
                _ => true,
            }
        })
        .collect();
    if c.is_empty() {
        return;
    }
    let t = &mut toks[*r.pick(&c)].t;
    if r.one_in(8) {
        *t = match r.below(4) {
            0 => t.to_uppercase(),
            1 => t.replacen(|c: char| c.is_ascii_lowercase(), "Z", 1),
            2 => t.replacen("0x", "0X", 1),
            _ => format!("\"{t}\""),
        };
    } else if r.below(3) > 0 {
        let word = r.word_text();
        t.push_str(match (&word, r.below(5)) {
            (Some(w), 0) => w,
            _ => *r.pick(&[
                "U", "u", "L", "l", "UL", "ul", "ULL", "ull", "LL", "i32", "u32", "u64", "h", "H", "b", "o", "f", "_", "'", ".", ".0", "e3", "_000", "'000", ",000", "%", "::x", ".x", "->x", "-", "-1", "+1",
                "[]", "<>", "()", "*", "**", "&", "?", "!", "$", "@", "\\", "=", "==", ":", ";", ";;", "|1", "<<1", "\u{a0}", "\u{e9}", "//", "/*", "*/", "#", "\"",
            ]),
        });
    } else {
        let p = *r.pick(&["+", "-", "--", "- ", "0", "00", "0x", "0X", "0b", "0o", "x", "$", "#", "@", "&", "*", "~", "!", "_", "r#", "::", ".", "'", "\"", "\\", "//", "*/", "u", "L", "unsigned ", "signed ", "long ", "const ", "struct ", "enum ", "union "]);
        t.insert_str(0, p);
    }
}

fn g02(ctx: &mut Ctx) {
    ctx.cases(6000, 240_000, |ctx, r| {
        let (_, mut toks) = valid(r);
        if r.one_in(3) {
            mutate(r, &mut toks);
        }
        let base = {
            let (t, _) = ast::layout(&toks, r, 2, false);
            t
        };
        ctx.note(|| base.clone());
        let want = real(&base);
        let cfg = pick_config(r, &toks);
        let code = gen_all(&base, &cfg);
        ctx.count(if want.is_ok() { "accepted files" } else { "refused files" });
        if code.is_ok() {
            ctx.count("files with generated code");
        }
        for k in 0..4 {
            // The tightest layout, ordinary ones, and lavish ones.
            let (rich, lines) = [(0, false), (2, true), (6, false), (5, want.is_ok())][k];
            let (text, nl) = ast::layout(&toks, r, rich, lines);
            ctx.eval();
            ctx.count("layouts compared");
            ctx.add("pass-through lines", nl as u64);
            ctx.distinct(hash(text.as_bytes()));
            if k == 3 && want.is_ok() {
                ctx.sample(|| text.clone());
            }
            let got = real(&text);
            let same = match (&want, &got) {
                (Ok((a, _)), Ok((b, _))) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                let d = match (&want, &got) {
                    (Ok((a, _)), Ok((b, _))) => first_diff(a, b),
                    _ => format!("{} against {}", short(&want), short(&got)),
                };
                ctx.violation(&format!("the layout changes the result: {d}\none layout:\n{base}\nanother:\n{text}"));
                return;
            }
            let c2 = gen_all(&text, &cfg);
            if c2.is_ok() != code.is_ok() || (c2.is_ok() && c2 != code) {
                ctx.violation(&format!(
                    "the layout changes the generated code ({})\none layout:\n{base}\nanother:\n{text}\ncode: {code:?}\nand: {c2:?}",
                    modes::show(&cfg)
                ));
                return;
            }
        }
    });
}

fn short(p: &Parsed) -> String {
    match p {
        Ok((d, _)) => format!("accepted ({} definitions)", d.len()),
        Err(e) => format!("refused ({})", e.chars().take(200).collect::<String>()),
    }
}

pub const G02: Spec = Spec {
    prop: "G02",
    rule: "one token sequence (from a random syntax tree, in a third of the cases damaged) is written out in five layouts, from none to lavish white space, block comments with hostile contents and pass-through lines; acceptance, definitions and generated code must agree; distinct by text",
    assumptions: &["two words or numbers next to each other must be kept apart"],
    must_observe: &["accepted files", "refused files", "layouts compared", "pass-through lines", "files with generated code"],
    worker: g02,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 20,
};

// ---------------------------------------------------------------- G03

pub fn char_mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let i = r.usize(c.len() + 1);
        let x = *r.pick(&[
            ' ', '\n', ';', '}', '{', '*', '/', '%', '-', '0', '9', 'x', 'a', '_', '"', '#', '\u{a0}', '値', '\0', '\u{b}', '.', '+', '\'', '\\', ',', ':', '=',
            '<', '>', '[', '(', '8', '\r', '|', '~', '\u{feff}',
        ]);
        match r.below(5) {
            0 if i < c.len() => {
                c.remove(i);
            }
            1 if i < c.len() => c[i] = x,
            2 => c.truncate(i),
            3 if i < c.len() => {
                let d = c[i];
                c.insert(i, d);
            }
            _ => c.insert(i, x),
        }
    }
    c.into_iter().collect()
}

fn g03_check(ctx: &mut Ctx, text: &str) {
    ctx.note(|| text.to_string());
    ctx.eval();
    ctx.distinct(hash(text.as_bytes()));
    let got = real(text);
    let toks = match ast::lex(text) {
        Lex::Unsure => {
            ctx.count("undecided texts");
            return;
        }
        Lex::Bad(why) => {
            ctx.count("texts that are not token sequences");
            ctx.count(&format!("refused: {why}"));
            if let Ok((d, _)) = got {
                ctx.violation(&format!("accepted in spite of: {why}\nparsed: {d:?}\ntext:\n{text}"));
            }
            return;
        }
        Lex::Ok(t) => t,
    };
    let want = ast::parse_tokens(&toks);
    match (want, got) {
        (None, Err(_)) => ctx.count("refused token sequences"),
        (None, Ok((d, _))) => {
            ctx.violation(&format!("accepted, although it is no sequence of complete definitions\nparsed: {d:?}\ntext:\n{text}"));
        }
        (Some(_), Err(e)) => {
            ctx.violation(&format!("refused ({e}), although it is a sequence of complete definitions\ntext:\n{text}"));
        }
        (Some(w), Ok((d, _))) => {
            ctx.count("accepted texts");
            // Written out again, token by token.
            let norm = |t: &[String]| -> Vec<String> {
                let mut v: Vec<String> = vec![];
                for x in t {
                    if x == "int" && v.last().map(|l| l == "unsigned").unwrap_or(false) {
                        continue;
                    }
                    v.push(x.clone());
                }
                v
            };
            let again: Vec<String> = ast::tokens(&d, None).into_iter().map(|t| t.t).collect();
            let (a, b) = (norm(&toks), norm(&again));
            ctx.add("tokens accounted for", a.len() as u64);
            if a != b {
                let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                ctx.violation(&format!(
                    "the definitions do not account for the text: token {i} is {:?}, the definitions give {:?}\ntext:\n{text}",
                    a.get(i),
                    b.get(i)
                ));
            } else if w != d {
                ctx.violation(&format!("misread: {}\ntext:\n{text}", first_diff(&w, &d)));
            }
        }
    }
}

pub const TAILS: &[&str] = &["x", ";", "/*", "/* x", "*/", "}", "const", "const A = 1", "%", "% x", "%\n%", "-", "0", "\0", "struct s { int a; }", "int a;", "/", "\u{feff}", "//x\n", "#x\n"];

fn g03(ctx: &mut Ctx) {
    ctx.cases(30_000, 1_800_000, |ctx, r| {
        let (_, mut toks) = valid(r);
        let rich = r.below(3);
        let (lines, m) = (r.one_in(3), r.below(12));
        match m {
            10 | 11 => {
                glue(r, &mut toks);
                let (t, _) = ast::layout(&toks, r, rich, lines);
                ctx.count("files with something glued to a token");
                g03_check(ctx, &t);
            }
            0 => {
                let (t, _) = ast::layout(&toks, r, rich, lines);
                ctx.count("unchanged files");
                g03_check(ctx, &t);
            }
            1 => {
                // Something before, after or between the definitions.
                let (t, _) = ast::layout(&toks, r, rich, lines);
                let x = *r.pick(TAILS);
                let s = match r.below(3) {
                    0 => format!("{x}{t}"),
                    1 => format!("{t} {x}"),
                    _ => format!("{t}{x}"),
                };
                g03_check(ctx, &s);
            }
            2..=6 => {
                mutate(r, &mut toks);
                let (t, _) = ast::layout(&toks, r, rich, lines);
                ctx.count("files with damaged token sequences");
                g03_check(ctx, &t);
            }
            7 | 8 => {
                let (t, _) = ast::layout(&toks, r, rich, lines);
                let t = char_mutate(r, &t);
                ctx.count("files with damaged characters");
                g03_check(ctx, &t);
            }
            _ => {
                // Random token soup around one construct.
                let n = r.usize(25);
                let mut v: Vec<Tok> = vec![];
                for _ in 0..n {
                    let t = match r.below(5) {
                        0 => r.pick(ast::RESERVED).to_string(),
                        1 => gsyn::name(r),
                        2 => gsyn::num(r).text(),
                        _ => r.pick(&["{", "}", "[", "]", "<", ">", "(", ")", "*", ",", ";", ":", "="]).to_string(),
                    };
                    v.push(Tok { t, end: false });
                }
                let (t, _) = ast::layout(&v, r, rich, false);
                ctx.count("token soups");
                g03_check(ctx, &t);
            }
        }
        let _ = ctx.want_sample();
    });
}

pub const G03: Spec = Spec {
    prop: "G03",
    rule: "valid files are damaged token by token or character by character, extended, truncated, or replaced by token soup; an independent lexer and recursive descent parser decide whether the text is a sequence of complete definitions, and what the code parsed is written out again and compared token by token; distinct by text",
    assumptions: &["the reference lexer and parser describe the supported grammar; they are cross-checked against every accepted and refused text"],
    must_observe: &["accepted texts", "refused token sequences", "texts that are not token sequences", "tokens accounted for", "token soups", "files with something glued to a token", "refused: unterminated comment"],
    worker: g03,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 20,
};

// ---------------------------------------------------------------- G04

fn total(ctx: &mut Ctx, text: &str, all: bool, r: &mut Rng) {
    ctx.note(|| text.to_string());
    ctx.eval();
    ctx.distinct(hash(text.as_bytes()));
    ctx.max("longest text", text.len() as u64);
    let defs = match mon::catch(|| parser::parse(text)) {
        Err(p) => {
            ctx.violation(&format!("parsing panicked: {p}\ntext:\n{text}"));
            return;
        }
        Ok(Err(_)) => {
            ctx.count("refused by the parser");
            return;
        }
        Ok(Ok(d)) => d,
    };
    ctx.count("parsed");
    let dense = match ast::lex(text) {
        Lex::Ok(t) => dense(&t.into_iter().map(|t| Tok { t, end: false }).collect::<Vec<_>>()),
        _ => false,
    };
    let skip = if all { 1 } else { 3 };
    for cfg in modes::all_configs() {
        if !dense && (cfg.enum_complement_index() || cfg.union_complement_index()) {
            // These modes write out every number in between.
            continue;
        }
        if r.below(skip) != 0 {
            continue;
        }
        match mon::catch(|| gen_code::gen_code(defs.clone(), &cfg)) {
            Err(p) => {
                ctx.violation(&format!("generating ({}) panicked: {p}\ntext:\n{text}", modes::show(&cfg)));
                return;
            }
            Ok(Ok(s)) => {
                ctx.count("generated");
                ctx.max("longest generated code", s.len() as u64);
            }
            Ok(Err(_)) => ctx.count("refused by the generator"),
        }
    }
}

/// Texts whose size grows with `n`, each a shape that invites repeated work.
pub fn shapes(n: usize) -> Vec<(&'static str, String)> {
    let rep = |s: &str, n: usize| s.repeat(n);
    let chain = |f: &dyn Fn(usize) -> String, n: usize| (0..n).map(f).collect::<String>();
    let d = n.min(60);
    let mut v = vec![
        ("comments", format!("{} const A = 1; {}", rep("/* x */", n), rep("/**/ ", n))),
        ("unclosed comments", format!("const A = 1; {}", rep("/* ", n))),
        ("slashes", rep("/", n)),
        ("pass-through lines", rep("%x\n", n)),
        ("constant chain", chain(&|i| format!("const C{} = {};", i, if i + 1 == d { "7".to_string() } else { format!("C{}", i + 1) }), d)),
        ("constant chain to nowhere", chain(&|i| format!("const C{} = C{};", i, i + 1), d)),
        ("constant circle", chain(&|i| format!("const C{} = C{};", i, (i + 1) % d), d)),
        ("typedef chain", chain(&|i| format!("typedef T{} T{};", i + 1, i), d) + &format!("typedef int T{d}; struct S {{ T0 a; }}; union U switch (T0 x) {{ case 1: T0 a; }};")),
        ("typedef circle", chain(&|i| format!("typedef T{} T{};", (i + 1) % d, i), d) + "struct S { T0 a; }; union U switch (T0 x) { case 1: T0 a; };"),
        ("typedef array chain", chain(&|i| format!("typedef T{} T{}<>;", i + 1, i), d) + &format!("typedef int T{d}; struct S {{ T0 a; }};")),
        ("typedef pointer circle", chain(&|i| format!("typedef T{} *T{};", (i + 1) % d, i), d) + "struct S { T0 a; };"),
        ("enumeration chain", format!("enum E {{ {} Z = 1 }};", chain(&|i| format!("I{} = {},", i, if i + 1 == d { "Z".to_string() } else { format!("I{}", i + 1) }), d))),
        ("enumeration circle", format!("enum E {{ {} Z = I0 }};", chain(&|i| format!("I{} = {},", i, if i + 1 == d { "Z".to_string() } else { format!("I{}", i + 1) }), d))),
        ("many definitions", chain(&|i| format!("struct S{i} {{ int a; S{} *b; }};", i / 2), n)),
        ("many members", format!("struct S {{ {} }};", chain(&|i| format!("int a{i};"), n))),
        ("many items", format!("enum E {{ {} Z = 0 }};", chain(&|i| format!("I{i} = {},", i + 1), n))),
        ("many cases", format!("union U switch (int a) {{ {} }};", chain(&|i| format!("case {i}: int a{i};"), n))),
        ("many labels", format!("union U switch (int a) {{ {} void; }};", chain(&|i| format!("case {i}:"), n))),
        ("long name", format!("const {} = 1; struct {} {{ int {}; }};", rep("aB_", n), rep("a_", n), rep("xY", n))),
        ("long number", format!("const A = 1{}; enum E {{ X = 0x{} }}; struct S {{ int a[0{}]; }};", rep("0", n), rep("f", n), rep("7", n))),
        ("open braces", rep("struct x { ", d)),
        ("closing braces", rep("} ", n)),
        ("white space", rep(" \t\r\n", n)),
        ("stars", format!("struct s {{ int {} a; }};", rep("*", n))),
        ("colons", format!("union u switch (int a) {{ {} void; }};", rep("case 1: ", n))),
    ];
    v.extend(nested(d));
    // Every definition uses the next one more than once: the ways down double with every step.
    let m = n.min(300);
    for (what, last) in [("lattices", ""), ("lattices that end in a circle", "typedef T0 Last;"), ("lattices that end in nothing", "struct unrelated { int a; };"), ("lattices that end in a type", "typedef int Last;")] {
        let next = |i: usize| if i + 1 < m { format!("T{}", i + 1) } else if last.is_empty() { "int".to_string() } else { "Last".to_string() };
        v.push((what, chain(&|i| format!("struct T{i} {{ {0} a; {0} b; }};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("struct T{i} {{ {0} a<>; {0} *b; }};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("struct T{i} {{ {0} a[2]; {0} b; {0} *c; }};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("union T{i} switch (int x) {{ case 1: {0} a; case 2: {0} b; default: {0} c; }};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("union T{i} switch (int x) {{ case 1: {0} a<>; case 2: {0} *b; }};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("typedef {0} U{i}; typedef {0} V{i}[2]; struct T{i} {{ U{i} a; V{i} b; }};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("typedef struct {{ {0} a; {0} b; }} T{i};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("typedef union switch (int x) {{ case 1: {0} a; case 2: {0} b; }} T{i};", next(i)), m) + last));
        v.push((what, chain(&|i| format!("struct T{i} {{ {0} a; struct {{ {0} b; {0} c; }} d; }};", next(i)), m) + last));
        v.push((what, chain(&|i| if i % 2 == 0 { format!("struct T{i} {{ {0} a; {0} b; }};", next(i)) } else { format!("union T{i} switch (bool x) {{ case TRUE: {0} a; case FALSE: {0} b; }};", next(i)) }, m) + last));
    }
    v
}

/// Types written inside each other, `d` deep: every place a type can be written in, with every kind
/// of declarator after it, sound or broken at the innermost or at the outermost end, with a plain
/// member before or after the nested one.
fn nested(d: usize) -> Vec<(&'static str, String)> {
    const WRAPS: [(&str, &str, &str); 8] = [
        ("nested structures", "struct { ", "; }"),
        ("nested structures, second members", "struct { int z; ", "; }"),
        ("nested structures, first of two members", "struct { ", "; int z; }"),
        ("nested unions", "union switch (int a) { case 1: ", "; }"),
        ("nested unions with labels", "union switch (int a) { case 1: case 2: ", "; default: void; }"),
        ("nested unions, second arms", "union switch (int a) { case 0: void; case 1: ", "; }"),
        ("nested unions, default arms", "union switch (int a) { case 1: void; default: ", "; }"),
        ("nested unions, conditions", "union switch (", ") { case 1: void; }"),
    ];
    const AFTER: [&str; 6] = [" x", " *x", " x[3]", " x<>", " x<3>", " x[N]"];
    const INNER: [&str; 5] = ["int a", "enum { A = 1 } a", "int", "void", "opaque a<>"];
    let mut v = vec![];
    let mut add = |what: &'static str, pick: &dyn Fn(usize) -> (usize, usize), inner: &str| {
        let mut t = inner.to_string();
        for k in 0..d {
            let (w, a) = pick(k);
            t = format!("{}{t}{}", WRAPS[w].1, WRAPS[w].2);
            if k + 1 < d {
                t.push_str(AFTER[a]);
            }
        }
        let (_, a) = pick(d - 1);
        v.push((what, format!("typedef {t}{};", AFTER[a])));
        // Broken at the outer end.
        v.push((what, format!("typedef {t} x[;")));
        v.push((what, format!("struct s {{ {t}{}; }};", AFTER[a])));
        v.push((what, format!("union u switch (int a) {{ case 1: {t}{}; }};", AFTER[a])));
        v.push((what, format!("program p {{ version v {{ {t} f(void) = 1; }} = 1; }} = 1;")));
        v.push((what, format!("program p {{ version v {{ void f({t}) = 1; }} = 1; }} = 1;")));
        v.push((what, format!("program p {{ version v {{ void f({t}) = 1 }} = 1; }} = 1;")));
    };
    for (w, x) in WRAPS.iter().enumerate() {
        for a in 0..AFTER.len() {
            add(x.0, &|_| (w, a), INNER[(w + a) % 3]);
        }
        add(x.0, &|_| (w, 0), INNER[3]);
        add(x.0, &|_| (w, 1), INNER[4]);
        add(x.0, &|k| (w, k % AFTER.len()), INNER[0]);
    }
    // All kinds in turn.
    for s in 0..WRAPS.len() {
        add("nested types of all kinds", &|k| ((k * 5 + s) % WRAPS.len(), (k / 2 + s) % AFTER.len()), INNER[s % INNER.len()]);
    }
    v
}

const EXTREMES: &[&str] = &[
    "", " ", ";", "%", "/**/", "const A = 0xffffffffffffffff;", "const A = 18446744073709551616;", "const A = -1;", "enum E { A = -2147483648, B = 2147483647 };",
    "enum E { A = 2147483648 };", "enum E { A = 0x7fffffff };", "union U switch (unsigned a) { case 4294967295: int b; case 0: void; };",
    "union U switch (int a) { case 4294967295: int b; };", "union U switch (int a) { case -1: int b; };", "union U switch (bool a) { case 1: int b; };",
    "union U switch (bool a) { case TRUE: case FALSE: void; default: void; };", "union U switch (bool a) { case X: int b; default: int c; };",
    "union U switch (int *a) { case 1: int b; };", "union U switch (void) { case 1: int b; };", "union U switch (string a<>) { case 1: int b; };",
    "union U switch (opaque a[4]) { case 1: void; };", "union U switch (int a<>) { case 1: void; };", "union U switch (hyper a) { case 1: void; };",
    "union U switch (U a) { case 1: U b; };", "union U switch (quadruple a) { case 1: quadruple b; default: quadruple c; };",
    "struct S { void; };", "struct S { S a; };", "struct S { S a[3]; };", "struct S { S a<>; S *b; };", "struct S { quadruple a; };", "struct S { T a; };",
    "struct S { int a[N]; };", "struct S { opaque a[N]; };", "struct S { int a[18446744073709551615]; };", "struct S { int a[18446744073709551616]; };",
    "struct S { opaque a[-1]; };", "struct self { int self; Self crate; };", "enum Self { Self = 1, self = 2, crate = 3, super = 4, _ = 5, __ = 6 };",
    "typedef void;", "typedef struct { void; } a; struct S { a b; };", "typedef a a; struct S { a b; a *c; a d<>; a e[2]; };",
    "typedef enum { A = 1 } e; struct S { e a; }; union U switch (e x) { case A: void; };", "typedef int a; typedef hyper a; struct S { a b; };",
    "const A = A;", "const A = B; const B = A; struct S { int a[A]; };", "enum A { B = C }; enum D { C = B };", "const A = B; enum E { B = A };",
    "struct S { struct { int a; } b; };", "program P { version V { void F(void) = 1; } = 1; } = 1;", "program P { version V { P F(V) = X; } = Y; } = Z;",
    "union U switch (int a) { case 1: void; default: void; };", "union U switch (E a) { case A: void; };", "const _ = 1; const __ = 2; struct _ { int _; };",
    "enum E { A = 1, A = 1 }; enum E { A = 1 };", "union U switch (int a) { case 1: int b; case 1: int c; };", "struct Default { int Default; }; enum default_ { Default = 1 };",
];

fn g04(ctx: &mut Ctx) {
    ctx.cases(EXTREMES.len() as u64, EXTREMES.len() as u64, |ctx, r| {
        let i = ctx.nth() as usize;
        if i as u64 % ctx.nshards != ctx.shard {
            return;
        }
        ctx.count("extreme texts");
        total(ctx, EXTREMES[i], true, r);
    });
    let sizes: &[usize] = if ctx.thorough { &[2, 5, 9, 14, 20, 28, 40, 60, 120, 300, 1000, 3000] } else { &[3, 12, 30, 60, 200, 1000] };
    let n = shapes(2).len() as u64 * sizes.len() as u64;
    ctx.cases(n, n, |ctx, r| {
        let i = ctx.nth();
        if i % ctx.nshards != ctx.shard {
            return;
        }
        let v = shapes(sizes[i as usize % sizes.len()]);
        let (what, text) = &v[i as usize / sizes.len()];
        ctx.count("growing shapes");
        ctx.note(|| what.to_string());
        let t0 = std::time::Instant::now();
        total(ctx, text, true, r);
        ctx.max("slowest shape, milliseconds", t0.elapsed().as_millis() as u64);
    });
    ctx.cases(6000, 500_000, |ctx, r| match r.below(8) {
        0 => {
            let n = r.usize(200);
            let b: Vec<u8> = r.bytes(n);
            ctx.count("random texts");
            total(ctx, &String::from_utf8_lossy(&b).into_owned(), false, r);
        }
        1 => {
            let (_, toks) = valid(r);
            let (t, _) = ast::layout(&toks, r, 2, true);
            let t = char_mutate(r, &t);
            total(ctx, &t, false, r);
        }
        2 | 3 => {
            let (_, mut toks) = valid(r);
            mutate(r, &mut toks);
            let (t, _) = ast::layout(&toks, r, 1, false);
            total(ctx, &t, false, r);
        }
        4 => {
            // Names that refer to each other in circles and to nothing.
            let t = tangle(r);
            ctx.count("tangled files");
            ctx.sample(|| t.clone());
            total(ctx, &t, false, r);
        }
        _ => {
            let (_, toks) = valid(r);
            let (t, _) = ast::layout(&toks, r, 1, false);
            ctx.count("grammatical files");
            total(ctx, &t, false, r);
        }
    });
}

fn tangle(r: &mut Rng) -> String {
    use crate::ast::*;
    let n = 2 + r.usize(6);
    let nm = |r: &mut Rng| format!("n{}", r.usize(n));
    let vl = |r: &mut Rng| if r.one_in(4) { Val::N(Num::dec(r.below(5) as i128)) } else { Val::Id(format!("n{}", r.usize(n))) };
    let dc = |r: &mut Rng| match r.below(8) {
        0 => Decl::OpF(nm(r), vl(r)),
        1 => Decl::OpV(nm(r), Some(vl(r))),
        2 => Decl::Str(nm(r), None),
        k => {
            let t = if r.one_in(4) { Ty::Int(r.bool()) } else { Ty::Id(nm(r)) };
            let kind = match k {
                3 => Kind::Fixed(vl(r)),
                4 => Kind::Var(None),
                5 => Kind::Ptr,
                _ => Kind::Plain,
            };
            Decl::T(t, nm(r), kind)
        }
    };
    let mut ds = vec![];
    // Every name is defined at most once: ambiguous names multiply the ways to resolve them.
    let mut free: Vec<String> = (0..n).map(|i| format!("n{i}")).collect();
    r.shuffle(&mut free);
    while let Some(name) = free.pop() {
        ds.push(match r.below(6) {
            0 => Def::Const(name, vl(r)),
            1 => {
                let mut d = dc(r);
                match &mut d {
                    Decl::OpF(x, _) | Decl::OpV(x, _) | Decl::Str(x, _) | Decl::T(_, x, _) => *x = name,
                    Decl::Void => {}
                }
                Def::Typedef(d)
            }
            2 => {
                let item = free.pop().unwrap_or_else(|| "z".to_string());
                Def::Enum(name, vec![(item, vl(r))])
            }
            3 => Def::Struct(name, vec![dc(r), dc(r)]),
            4 => {
                let cond = dc(r);
                let default = if r.bool() { Some(dc(r)) } else { None };
                Def::Union(name, UBody { cond, cases: vec![(vec![vl(r), vl(r)], dc(r))], default })
            }
            _ => Def::Union(
                name,
                UBody {
                    cond: Decl::T(Ty::Bool, nm(r), Kind::Plain),
                    cases: vec![(vec![if r.bool() { Val::Id("TRUE".into()) } else { vl(r) }], dc(r))],
                    default: if r.bool() { Some(Decl::Void) } else { None },
                },
            ),
        });
    }
    plain(&ds)
}

pub const G04: Spec = Spec {
    prop: "G04",
    rule: "random bytes, damaged and undamaged grammatical files, files whose names form circles, hand-picked extremes, and thirty-five shapes that grow (nesting up to 60, chains, circles, lists up to 3000) are parsed and, when parsed, generated in all 32 configurations; a panic, a crash or more than ten seconds of processor time on one text is a violation; distinct by text",
    assumptions: &[
        "numbers up to 2000 in the modes that write out every number in between, nesting up to 60",
        "a name is defined at most once in the files with circular references",
    ],
    must_observe: &["parsed", "refused by the parser", "generated", "refused by the generator", "growing shapes", "tangled files", "extreme texts"],
    worker: g04,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 10,
};

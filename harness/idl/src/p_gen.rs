//! G08, G09, G11: what is generated, looked at as Rust source.
use crate::ast::{self, *};
use crate::items::{self, Item};
use crate::model::{Model, Named, Nums, W};
use crate::modes::{self, EM, Mode, UM};
use crate::{gsem, names};
use mon::{Ctx, Rng, Spec, hash};
use rpcgen::{gen_code, parser};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn generate(text: &str, m: &Mode) -> Result<String, String> {
    let d = parser::parse(text).map_err(|e| format!("refused by the parser: {e:?}"))?;
    gen_code::gen_code(d, &m.config()).map_err(|e| format!("refused by the generator: {e:?}"))
}

fn pick_mode(r: &mut Rng, complement: bool) -> Mode {
    loop {
        let m = *r.pick(&modes::distinct());
        if complement || !m.complement() {
            return m;
        }
    }
}

/// A text for the definitions.
fn text_of(ds: &[Def], r: &mut Rng) -> String {
    if r.bool() {
        ast::plain(ds)
    } else {
        let toks = ast::tokens(ds, Some(r));
        ast::layout(&toks, r, 2, false).0
    }
}

fn found(code: &str, mode: &Mode) -> Result<Vec<Item>, String> {
    if mode.keep { items::found_kept(code) } else { items::found(code) }
}

// ---------------------------------------------------------------- G09

fn g09(ctx: &mut Ctx) {
    ctx.cases(1600, 70_000, |ctx, r| {
        let o = gsem::Opts::any(r);
        let ds = gsem::file(r, &o);
        let text = text_of(&ds, r);
        ctx.note(|| text.clone());
        let m = match Model::new(&ds) {
            Some(m) => m,
            None => {
                ctx.inconclusive("the model cannot express a generated file");
                return;
            }
        };
        let kept = !gsem::opaque_typedef(&ds) && r.bool();
        // Constants, then types, each as declared.
        let mut order: Vec<String> = m.consts.iter().map(|c| c.0.clone()).collect();
        order.extend(ds.iter().filter_map(|d| match d {
            Def::Typedef(d) => Some(names::camel(d.name())),
            Def::Enum(n, _) | Def::Struct(n, _) | Def::Union(n, _) => Some(names::camel(n)),
            Def::Const(..) | Def::Program(..) => None,
        }));
        for mut mode in modes::distinct() {
            if mode.complement() && !o.dense {
                continue;
            }
            mode.keep = kept && r.one_in(3);
            ctx.eval();
            ctx.count(&format!("files generated with {}", mode.name()));
            let code = match generate(&text, &mode) {
                Ok(c) => c,
                Err(e) => {
                    ctx.violation(&format!("{}: a meaningful file is refused: {e}\nfile:\n{text}", mode.name()));
                    return;
                }
            };
            ctx.distinct(hash(code.as_bytes()));
            let mut got = match found(&code, &mode) {
                Ok(g) => g,
                Err(e) => {
                    ctx.violation(&format!("{}: unexpected items: {e}\nfile:\n{text}\ncode:\n{code}", mode.name()));
                    return;
                }
            };
            match items::strip_reserved(&mut got, &m, &mode) {
                Ok(n) => ctx.add("reserved place-holders", n),
                Err(e) => {
                    ctx.violation(&format!("{}: {e}\nfile:\n{text}\ncode:\n{code}", mode.name()));
                    return;
                }
            }
            if mode.keep {
                let names: Vec<&str> = got.iter().map(|i| i.name()).collect();
                if names != order {
                    ctx.violation(&format!("{}: the items are {names:?}, not {order:?}\nfile:\n{text}\ncode:\n{code}", mode.name()));
                    return;
                }
                got.retain(|i| !matches!(i, Item::Alias { .. }));
                ctx.count("files with typedefs that stay");
            }
            let want = items::expected(&m, &mode);
            ctx.add("items compared", want.len() as u64);
            if got != want {
                let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
                ctx.violation(&format!(
                    "{}: item {i} differs\n  expected: {:?}\n  found:    {:?}\nfile:\n{text}\ncode:\n{code}",
                    mode.name(),
                    want.get(i),
                    got.get(i)
                ));
                return;
            }
        }
        ctx.sample(|| text.clone());
    });
    // Names on their own: every keyword and every shape of name in every place.
    ctx.cases(3000, 150_000, |ctx, r| {
        let names: Vec<String> = {
            let mut v: Vec<String> = vec![];
            while v.len() < 5 {
                let n = if r.bool() { r.pick(names::KEYWORDS).to_string() } else { shape(r) };
                let n = if r.one_in(6) { r.word_name().filter(|w| w != "char" && w != "short").unwrap_or(n) } else { n };
                if !RESERVED.contains(&n.as_str()) {
                    v.push(n);
                }
            }
            v
        };
        let ds = vec![
            Def::Const(names[0].clone(), Val::N(Num::dec(3))),
            Def::Enum(names[1].clone(), vec![(names[2].clone(), Val::N(Num::dec(0)))]),
            Def::Struct(
                names[3].clone(),
                vec![
                    Decl::T(Ty::Id(names[1].clone()), names[4].clone(), Kind::Plain),
                    Decl::T(Ty::Int(true), format!("{}x", names[4]), Kind::Fixed(Val::Id(names[0].clone()))),
                ],
            ),
        ];
        let distinct: BTreeSet<&String> = names[..4].iter().collect();
        if distinct.len() < 4 || names::camel(&names[1]) == names::camel(&names[3]) || names::snake(&names[4]) == names::snake(&format!("{}x", names[4])) {
            ctx.count("skipped: colliding names");
            return;
        }
        let text = ast::plain(&ds);
        ctx.note(|| text.clone());
        let Some(m) = Model::new(&ds) else {
            ctx.inconclusive("the model cannot express a generated file");
            return;
        };
        ctx.eval();
        let mode = pick_mode(r, true);
        let res = generate(&text, &mode).and_then(|c| items::found(&c));
        for n in &names {
            if names::KEYWORDS.contains(&n.as_str()) {
                ctx.count("keywords used as names");
            }
        }
        match res {
            Ok(got) if got == items::expected(&m, &mode) => {}
            Ok(got) => ctx.violation(&format!("{}: expected {:?}\nfound {got:?}\nfile:\n{text}", mode.name(), items::expected(&m, &mode))),
            Err(e) => ctx.violation(&format!("{}: {e}\nfile:\n{text}", mode.name())),
        }
    });
    // Any labels over a boolean: refused, or an arm for each.
    ctx.cases(300, 10_000, boolean_labels);
}

fn boolean_labels(ctx: &mut Ctx, r: &mut Rng) {
    let pool = ["TRUE", "FALSE", "YES", "NO", "true", "True", "NOWHERE", "0", "1", "2", "0x1", "-1"];
    let mut labels: Vec<&str> = pool.to_vec();
    r.shuffle(&mut labels);
    labels.truncate(1 + r.usize(4));
    if r.bool() {
        labels.extend(["TRUE", "FALSE"].iter().filter(|l| r.bool() && !labels.contains(l)).collect::<Vec<_>>());
        r.shuffle(&mut labels);
    }
    let mut text = String::from("const YES = 1; enum e { NO = 0 }; typedef bool flag; typedef flag other; ");
    text.push_str(&format!("union u switch ({} d) {{", r.pick(&["bool", "flag", "other"])));
    for (i, l) in labels.iter().enumerate() {
        text.push_str(&format!(" case {l}:"));
        if i + 1 == labels.len() || r.below(3) > 0 {
            text.push_str(*r.pick(&[" int x;", " void;", " opaque y<>;", " e z;"]));
        }
    }
    let default = r.bool();
    if default {
        text.push_str(" default: hyper w;");
    }
    text.push_str(" };");
    ctx.note(|| text.clone());
    let plain = labels.iter().all(|l| *l == "TRUE" || *l == "FALSE");
    for mode in modes::distinct() {
        ctx.eval();
        ctx.distinct(hash(format!("{text}{}", mode.name()).as_bytes()));
        let code = match generate(&text, &mode) {
            Ok(c) => c,
            Err(e) if plain => return ctx.violation(&format!("{}: a meaningful file is refused: {e}\nfile:\n{text}", mode.name())),
            Err(_) => {
                ctx.count("unions refused for labels that are no booleans");
                continue;
            }
        };
        let arms = match items::found(&code) {
            Ok(v) => v.into_iter().find_map(|i| match i {
                Item::Union { name, arms } if name == "U" => Some(arms.into_iter().filter(|a| !a.0.starts_with("_Reserved")).count()),
                _ => None,
            }),
            Err(e) => return ctx.violation(&format!("{}: {e}\nfile:\n{text}\ncode:\n{code}", mode.name())),
        };
        if arms != Some(labels.len() + default as usize) {
            return ctx.violation(&format!("{}: {} label(s), but {arms:?} arm(s)\nfile:\n{text}\ncode:\n{code}", mode.name(), labels.len()));
        }
        ctx.count("unions over a boolean");
    }
}

fn shape(r: &mut Rng) -> String {
    let n = 1 + r.usize(8);
    let mut s = String::new();
    for i in 0..n {
        s.push(match r.below(6) {
            0 if i > 0 => *r.pick(&['0', '9', '1']),
            1 => '_',
            2 | 3 => *r.pick(&['A', 'B', 'Z', 'I', 'D']),
            _ => *r.pick(&['a', 'b', 'z', 'x', 'e']),
        });
    }
    s
}

pub const G09: Spec = Spec {
    prop: "G09",
    rule: "a random meaningful file is generated in every mode; the generated source is parsed with an independent Rust parser and its items, names, members, arms, types and numbers are compared with those computed from the file by a separate model; a second workload uses every Rust keyword and random shapes of names as names of everything; non-trivial: code was generated; distinct by generated code",
    assumptions: &[
        "names stay distinct after the documented case conversion",
        "raw identifiers (r#type) count as the plain name; self, Self, super and crate get an underscore",
    ],
    must_observe: &["items compared", "files with typedefs that stay", "reserved place-holders", "keywords used as names"],
    worker: g09,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 20,
};

// ---------------------------------------------------------------- G08

#[derive(Debug, PartialEq)]
enum Fit {
    Fits,
    /// A refusal would be right, and acceptance with exact numbers as well.
    May(String),
    Must(String),
}

/// Whether every number of the file fits where it is used.
fn fit(ds: &[Def]) -> Fit {
    let nums = Nums::new(ds);
    let mut may = None;
    let mut tds: HashMap<&str, &Decl> = HashMap::new();
    for d in ds {
        if let Def::Typedef(d) = d {
            tds.entry(d.name()).or_insert(d);
        }
    }
    fn unsigned(t: &Ty, tds: &HashMap<&str, &Decl>, n: u32) -> bool {
        match t {
            Ty::Int(s) => !s,
            Ty::Id(s) if n < 100 => match tds.get(s.as_str()) {
                Some(Decl::T(t, _, Kind::Plain)) => unsigned(t, tds, n + 1),
                _ => false,
            },
            _ => false,
        }
    }
    let bools = booleans(ds);
    let show = |v: &Val| match v {
        Val::N(n) => n.text(),
        Val::Id(s) => s.clone(),
    };
    let mut lens: Vec<&Val> = vec![];
    let mut bounds: Vec<&Val> = vec![];
    fn decl<'a>(d: &'a Decl, lens: &mut Vec<&'a Val>, bounds: &mut Vec<&'a Val>) {
        match d {
            Decl::OpF(_, v) | Decl::T(_, _, Kind::Fixed(v)) => lens.push(v),
            Decl::OpV(_, Some(v)) | Decl::Str(_, Some(v)) | Decl::T(_, _, Kind::Var(Some(v))) => bounds.push(v),
            _ => {}
        }
    }
    for d in ds {
        match d {
            Def::Const(n, v) => match nums.val(v) {
                Some(x) if (0..=u64::MAX as i128).contains(&x) => {}
                // Negative constants have no type to be put in so far.
                Some(x) if x < 0 && x >= i64::MIN as i128 => may = Some(format!("constant {n}")),
                _ => return Fit::Must(format!("constant {n} = {}", show(v))),
            },
            Def::Enum(n, items) => {
                for (i, v) in items {
                    if nums.val(v).and_then(|x| i32::try_from(x).ok()).is_none() {
                        return Fit::Must(format!("item {n}.{i} = {}", show(v)));
                    }
                }
            }
            Def::Struct(_, f) => f.iter().for_each(|d| decl(d, &mut lens, &mut bounds)),
            Def::Union(n, u) => {
                for (ls, d) in &u.cases {
                    decl(d, &mut lens, &mut bounds);
                    if boolean(&u.cond, &bools) {
                        continue;
                    }
                    let top = match &u.cond {
                        Decl::T(t, _, _) if unsigned(t, &tds, 0) => u32::MAX as i128,
                        _ => i32::MAX as i128,
                    };
                    for l in ls {
                        match nums.val(l) {
                            Some(x) if (0..=top).contains(&x) => {}
                            // Negative labels are refused so far.
                            Some(x) if x < 0 && x >= i32::MIN as i128 && top == i32::MAX as i128 => may = Some(format!("label of {n}")),
                            _ => return Fit::Must(format!("label {} of {n}", show(l))),
                        }
                    }
                }
                if let Some(d) = &u.default {
                    decl(d, &mut lens, &mut bounds);
                }
            }
            Def::Typedef(d) => {
                // Only counts where it is used.
                let (mut l, mut b) = (vec![], vec![]);
                decl(d, &mut l, &mut b);
                if l.iter().any(|v| nums.val(v).and_then(|x| u64::try_from(x).ok()).is_none()) {
                    may = Some("length in a typedef".into());
                }
                bounds.extend(b);
            }
            Def::Program(..) => {}
        }
    }
    for v in lens {
        match nums.val(v) {
            Some(x) if (0..=u64::MAX as i128).contains(&x) => {}
            _ => return Fit::Must(format!("length {}", show(v))),
        }
    }
    for v in bounds {
        match nums.val(v) {
            Some(x) if (0..=u32::MAX as i128).contains(&x) => {}
            // Bounds are not generated so far.
            _ => may = Some(format!("bound {}", show(v))),
        }
    }
    match may {
        Some(m) => Fit::May(m),
        None => Fit::Fits,
    }
}

fn hostile_num(r: &mut Rng) -> Num {
    let edges: [i128; 24] = [
        0,
        1,
        -1,
        127,
        128,
        255,
        256,
        32767,
        32768,
        65535,
        65536,
        i32::MAX as i128,
        i32::MAX as i128 + 1,
        i32::MIN as i128,
        i32::MIN as i128 - 1,
        u32::MAX as i128,
        u32::MAX as i128 + 1,
        i64::MAX as i128,
        i64::MAX as i128 + 1,
        i64::MIN as i128,
        u64::MAX as i128,
        u64::MAX as i128 + 1,
        1 << 96,
        -(1 << 40),
    ];
    let v = match r.below(5) {
        0 => (r.mag(64) as i128) << r.below(8),
        1 => r.mag(33) as i128,
        _ => *r.pick(&edges) + if r.one_in(5) { r.below(3) as i128 - 1 } else { 0 },
    };
    let n = Num::any(v, r);
    match n {
        // Leading zeros and both cases of letters.
        Num::Hex(s) if r.one_in(4) => Num::Hex(format!("{}{s}", "0".repeat(r.usize(12)))),
        Num::Oct(s) if r.one_in(4) => Num::Oct(format!("{}{s}", "0".repeat(r.usize(24)))),
        n => n,
    }
}

/// The typedefs that stand for a boolean.
fn booleans(ds: &[Def]) -> HashSet<String> {
    let mut v = HashSet::new();
    loop {
        let n = v.len();
        for d in ds {
            if let Def::Typedef(d @ Decl::T(_, _, Kind::Plain)) = d {
                if boolean(d, &v) {
                    v.insert(d.name().to_string());
                }
            }
        }
        if v.len() == n {
            return v;
        }
    }
}

fn boolean(d: &Decl, bools: &HashSet<String>) -> bool {
    match d {
        Decl::T(Ty::Bool, ..) => true,
        Decl::T(Ty::Id(n), ..) => bools.contains(n),
        _ => false,
    }
}

/// Every place of the file where a number stands.
fn places(ds: &mut [Def]) -> Vec<&mut Val> {
    fn decl<'a>(d: &'a mut Decl, v: &mut Vec<&'a mut Val>) {
        match d {
            Decl::OpF(_, x) | Decl::T(_, _, Kind::Fixed(x)) => v.push(x),
            Decl::OpV(_, Some(x)) | Decl::Str(_, Some(x)) | Decl::T(_, _, Kind::Var(Some(x))) => v.push(x),
            _ => {}
        }
    }
    let bools = booleans(ds);
    let mut v = vec![];
    for d in ds {
        match d {
            Def::Const(_, x) => v.push(x),
            Def::Enum(_, i) => v.extend(i.iter_mut().map(|x| &mut x.1)),
            Def::Struct(_, f) => f.iter_mut().for_each(|d| decl(d, &mut v)),
            Def::Union(_, u) => {
                let b = boolean(&u.cond, &bools);
                for (ls, d) in &mut u.cases {
                    if !b {
                        v.extend(ls.iter_mut());
                    }
                    decl(d, &mut v);
                }
                if let Some(d) = &mut u.default {
                    decl(d, &mut v);
                }
            }
            Def::Typedef(d) => decl(d, &mut v),
            Def::Program(..) => {}
        }
    }
    v
}

/// A union over an enumeration with a number among its labels.
fn numeric_labels_of_enum(ds: &[Def], m: &Model) -> bool {
    ds.iter().any(|d| match d {
        Def::Union(n, u) => {
            let e = matches!(&m.named[m.raw[n]].1, Named::Union(x) if matches!(x.disc, W::N(_)));
            e && u.cases.iter().any(|c| c.0.iter().any(|l| matches!(l, Val::N(_))))
        }
        _ => false,
    })
}

/// Facts with the order among equal numbers taken out.
fn normal(mut v: Vec<Item>) -> Vec<Item> {
    for i in &mut v {
        match i {
            Item::Enum { items, .. } => items.sort_by(|a, b| (a.1, &a.0).cmp(&(b.1, &b.0))),
            Item::Union { arms, .. } => arms.sort_by(|a, b| a.0.cmp(&b.0)),
            _ => {}
        }
    }
    v
}

/// The numbers in the generated tables from label to arm: type, number, arm. None: written in a way
/// this monitor does not read (then only G06 looks at them, by running them).
fn tables(code: &str) -> Option<Vec<(String, i128, String)>> {
    use quote::ToTokens;
    let f = syn::parse_file(code).ok()?;
    let mut out = vec![];
    for i in &f.items {
        let syn::Item::Impl(i) = i else { continue };
        let Some((_, path, _)) = &i.trait_ else { continue };
        let tr = path.segments.last()?.ident.to_string();
        if tr != "XdrIndexer" && tr != "XdrUnion" {
            continue;
        }
        let syn::Type::Path(t) = &*i.self_ty else { return None };
        let t = t.path.segments.last()?.ident.to_string();
        for it in &i.items {
            let syn::ImplItem::Fn(f) = it else { continue };
            let n = f.sig.ident.to_string();
            if !n.starts_with("name_by_") {
                continue;
            }
            let [syn::Stmt::Expr(syn::Expr::Match(m), _)] = &f.block.stmts[..] else { return None };
            for a in &m.arms {
                let num: i128 = match &a.pat {
                    syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Bool(_)) => continue,
                    syn::Pat::Lit(l) => l.to_token_stream().to_string().replace(' ', "").trim_end_matches("i32").trim_end_matches("u32").parse().ok()?,
                    syn::Pat::Wild(_) => continue,
                    // A discriminant written as an enumeration item.
                    syn::Pat::Path(_) => continue,
                    _ => return None,
                };
                let s = a.body.to_token_stream().to_string();
                let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
                let name = s.strip_prefix("Ok(stringify!(")?.strip_suffix("))")?;
                out.push((t.clone(), num, name.strip_prefix("r#").unwrap_or(name).to_string()));
            }
        }
    }
    Some(out)
}

fn g08(ctx: &mut Ctx) {
    ctx.cases(8000, 900_000, |ctx, r| {
        let mut o = gsem::Opts::any(r);
        o.consts += 2;
        o.types = o.types.min(5);
        let mut ds = gsem::file(r, &o);
        // Numbers are replaced by hostile ones and by (chains of) names.
        let changes = r.below(4);
        let mut idents: Vec<String> = vec![];
        for d in &ds {
            match d {
                Def::Const(n, _) => idents.push(n.clone()),
                Def::Enum(_, i) => idents.extend(i.iter().map(|x| x.0.clone())),
                _ => {}
            }
        }
        let mut all_small = o.dense;
        if changes > 0 {
            let mut ps = places(&mut ds);
            for _ in 0..changes {
                if ps.is_empty() {
                    break;
                }
                let i = r.usize(ps.len());
                *ps[i] = match r.below(8) {
                    0 if !idents.is_empty() => Val::Id(r.pick(&idents).clone()),
                    1 => Val::Id("NOWHERE".into()),
                    2 => Val::N(Num::any(r.below(40) as i128, r)),
                    _ => Val::N(hostile_num(r)),
                };
            }
            all_small = false;
        }
        let text = text_of(&ds, r);
        ctx.note(|| text.clone());
        let f = fit(&ds);
        let mut mode = pick_mode(r, all_small);
        mode.keep = !gsem::opaque_typedef(&ds) && r.one_in(3);
        ctx.eval();
        ctx.distinct(hash(text.as_bytes()));
        let code = match generate(&text, &mode) {
            Ok(c) => c,
            Err(e) => {
                match f {
                    Fit::Fits => ctx.violation(&format!("{}: every number fits, but {e}\nfile:\n{text}", mode.name())),
                    Fit::May(_) => ctx.count("files refused for numbers that are not supported"),
                    Fit::Must(_) => ctx.count("files refused for numbers that do not fit"),
                }
                return;
            }
        };
        if let Fit::Must(w) = &f {
            ctx.violation(&format!("{}: accepted, although {w} does not fit\nfile:\n{text}\ncode:\n{code}", mode.name()));
            return;
        }
        ctx.count(if f == Fit::Fits { "files accepted" } else { "files accepted in spite of odd numbers" });
        let Some(m) = Model::new(&ds) else {
            ctx.count("files without a model");
            return;
        };
        if mode.u == UM::Union && numeric_labels_of_enum(&ds, &m) {
            // A known finding of G05: no Rust comes out.
            ctx.count("files with a number as label of an enumeration");
            return;
        }
        let mut got = match found(&code, &mode) {
            Ok(g) => g,
            Err(e) => {
                ctx.violation(&format!("{}: {e}\nfile:\n{text}\ncode:\n{code}", mode.name()));
                return;
            }
        };
        if let Err(e) = items::strip_reserved(&mut got, &m, &mode) {
            ctx.violation(&format!("{}: {e}\nfile:\n{text}\ncode:\n{code}", mode.name()));
            return;
        }
        got.retain(|i| !matches!(i, Item::Alias { .. }));
        let (got, want) = (normal(got), normal(items::expected(&m, &mode)));
        if got != want {
            let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
            ctx.violation(&format!(
                "{}: a number changed\n  expected: {:?}\n  found:    {:?}\nfile:\n{text}\ncode:\n{code}",
                mode.name(),
                want.get(i),
                got.get(i)
            ));
            return;
        }
        for i in &want {
            ctx.add(
                "numbers compared",
                match i {
                    Item::Const { .. } => 1,
                    Item::Enum { items, .. } => items.len() as u64,
                    _ => 0,
                },
            );
        }
        // Labels, where the code keeps them as a table.
        match tables(&code) {
            None => ctx.count("label tables not read"),
            Some(t) => {
                let mut want: Vec<(String, i128, String)> = vec![];
                for (n, x) in &m.named {
                    match x {
                        Named::Enum(items) if mode.e == EM::Indexer => want.extend(items.iter().map(|i| (n.clone(), i.1 as i128, i.0.clone()))),
                        Named::Union(u) if mode.u == UM::Indexer => want.extend(u.arms.iter().map(|a| (n.clone(), a.1 as i32 as i128, a.0.clone()))),
                        Named::Union(u) if mode.u == UM::Union && matches!(u.disc, W::I32 | W::U32) => {
                            want.extend(u.arms.iter().map(|a| (n.clone(), a.1 as i128, a.0.clone())))
                        }
                        _ => {}
                    }
                }
                let mut t: Vec<_> = t.into_iter().map(|(a, b, c)| (a.strip_prefix("r#").map(|x| x.to_string()).unwrap_or(a), b, c)).collect();
                // true and false are not numbers.
                let bools: BTreeSet<String> = m
                    .named
                    .iter()
                    .filter(|(_, x)| matches!(x, Named::Union(u) if u.disc == W::Bool))
                    .map(|x| x.0.clone())
                    .collect();
                t.retain(|x| !bools.contains(&x.0));
                want.retain(|x| !bools.contains(&x.0));
                t.sort();
                want.sort();
                // Several labels with the same number: the first one wins, which G06 decides.
                ctx.add("labels compared", t.len() as u64);
                if t != want {
                    let d: Vec<_> = want.iter().filter(|x| !t.contains(x)).take(3).collect();
                    let e: Vec<_> = t.iter().filter(|x| !want.contains(x)).take(3).collect();
                    ctx.violation(&format!("{}: labels differ: missing {d:?}, unexpected {e:?}\nfile:\n{text}\ncode:\n{code}", mode.name()));
                }
            }
        }
        ctx.sample(|| text.clone());
    });
}

pub const G08: Spec = Spec {
    prop: "G08",
    rule: "random meaningful files, in three quarters of the cases with up to three numbers replaced by edges of every width, numbers up to 100 bits, other names or undefined names, are generated; each constant, item, length and label of the generated source is compared with the number computed from the file, and refusals and acceptances with whether every number fits its use; distinct by text",
    assumptions: &[
        "negative constants and negative case labels may be refused (they are not supported)",
        "bounds of variable arrays are not part of the generated code",
    ],
    must_observe: &["files accepted", "files refused for numbers that do not fit", "numbers compared", "labels compared"],
    worker: g08,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 20,
};

// ---------------------------------------------------------------- G11

/// The generated source as a header and groups, each a constant or a type with what is implemented
/// for it, in order.
fn groups(code: &str) -> Option<(Vec<String>, Vec<(String, Vec<String>)>)> {
    use quote::ToTokens;
    let f = syn::parse_file(code).ok()?;
    let mut head = vec![];
    let mut out: Vec<(String, Vec<String>)> = vec![];
    for i in &f.items {
        let t = i.to_token_stream().to_string();
        match i {
            syn::Item::Use(_) => head.push(t),
            syn::Item::Const(c) => out.push((format!("const {}", c.ident), vec![t])),
            syn::Item::Struct(c) => out.push((format!("type {}", c.ident), vec![t])),
            syn::Item::Enum(c) => out.push((format!("type {}", c.ident), vec![t])),
            syn::Item::Type(c) => out.push((format!("type {}", c.ident), vec![t])),
            syn::Item::Impl(c) => {
                let syn::Type::Path(p) = &*c.self_ty else { return None };
                let mut n = p.path.segments.last()?.ident.to_string();
                // From<T> for i32 belongs to T.
                if !out.iter().any(|g| g.0 == format!("type {n}")) {
                    n = out.iter().rev().find(|g| g.0.starts_with("type "))?.0["type ".len()..].to_string();
                }
                let k = format!("type {n}");
                out.iter_mut().find(|g| g.0 == k)?.1.push(t);
            }
            _ => return None,
        }
    }
    Some((head, out))
}

fn own_name(d: &Def) -> Option<String> {
    match d {
        Def::Const(n, _) => Some(format!("const {}", names::ident(n))),
        Def::Enum(n, _) | Def::Struct(n, _) | Def::Union(n, _) => Some(format!("type {}", names::camel(n))),
        _ => None,
    }
}

fn g11(ctx: &mut Ctx) {
    let exe = std::env::current_exe().unwrap();
    let dir = std::path::PathBuf::from(std::env::var("MON_DIR").unwrap_or_else(|_| "/tmp".into())).join(format!("g11-{}", std::process::id()));
    ctx.cases(1500, 120_000, |ctx, r| {
        let mut o = gsem::Opts::any(r);
        // Now and then far more of everything.
        match r.below(60) {
            0 => o.consts = 40 + r.usize(160),
            1 => o.types = 40 + r.usize(100),
            _ => {}
        }
        let ds = gsem::file(r, &o);
        ctx.max("definitions of a file", ds.len() as u64);
        let text = text_of(&ds, r);
        ctx.note(|| text.clone());
        let mut cfg = pick_mode(r, o.dense).config();
        cfg.remove_typedef = !r.one_in(4);
        let run = |t: &str| -> Result<String, String> {
            let d = parser::parse(t).map_err(|e| format!("{e:?}"))?;
            gen_code::gen_code(d, &cfg).map_err(|e| format!("{e:?}"))
        };
        ctx.eval();
        ctx.distinct(hash(text.as_bytes()));
        let first = run(&text);
        // Again, with other work in between.
        let parsed = parser::parse(&text);
        let mut no = gsem::Opts::any(r);
        no.dense = o.dense;
        let noise = gsem::file(r, &no);
        let _ = run(&ast::plain(&noise));
        for _ in 0..2 {
            ctx.count("repeated calls");
            let again = match &parsed {
                Ok(d) => gen_code::gen_code(d.clone(), &cfg).map_err(|e| format!("{e:?}")),
                Err(e) => Err(format!("{e:?}")),
            };
            if again != first {
                ctx.violation(&format!("two calls differ ({})\n{first:?}\n{again:?}\nfile:\n{text}", modes::show(&cfg)));
                return;
            }
        }
        if r.one_in(8) {
            let v: Vec<Result<String, String>> = std::thread::scope(|s| {
                let h: Vec<_> = (0..4).map(|_| s.spawn(|| run(&text))).collect();
                h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
            });
            ctx.add("calls in other threads", v.len() as u64);
            if v.iter().any(|x| *x != first) {
                ctx.violation(&format!("calls in threads differ ({})\n{first:?}\n{v:?}\nfile:\n{text}", modes::show(&cfg)));
                return;
            }
        }
        let Ok(code) = first else {
            ctx.count("refused");
            return;
        };
        if r.one_in(30) {
            // Another process, with its own hash seeds.
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join("in.x");
            if std::fs::write(&p, &text).is_ok() {
                let out = std::process::Command::new(&exe).arg("--gen").arg(&p).arg(modes::show(&cfg)).env_remove("MON_SHARD").output();
                match out {
                    Ok(o) if o.status.success() => {
                        ctx.count("calls in other processes");
                        if o.stdout != code.as_bytes() {
                            ctx.violation(&format!(
                                "another process generates something else ({})\n{code}\n{}\nfile:\n{text}",
                                modes::show(&cfg),
                                String::from_utf8_lossy(&o.stdout)
                            ));
                            return;
                        }
                    }
                    Ok(o) => {
                        ctx.inconclusive(&format!("the other process failed: {o:?}"));
                        return;
                    }
                    Err(e) => {
                        ctx.inconclusive(&format!("no other process: {e}"));
                        return;
                    }
                }
            }
        }
        let Some((head, gs)) = groups(&code) else {
            ctx.count("code that cannot be split into items");
            return;
        };
        let base: BTreeMap<&String, &Vec<String>> = gs.iter().map(|g| (&g.0, &g.1)).collect();

        // Reordered.
        let mut perm = ds.clone();
        r.shuffle(&mut perm);
        check_variant(ctx, r, &run, &cfg, &text, &perm, &head, &base, gs.len(), "reordered");
        if ctx.violated() {
            return;
        }
        // With unrelated definitions in between.
        let mut more = ds.clone();
        for k in 0..1 + r.usize(3) {
            let name = format!("unrelated_extra_{k}");
            let d = match r.below(5) {
                0 => Def::Const(name.to_uppercase(), Val::N(Num::dec(r.below(1 << 40) as i128))),
                1 => Def::Enum(name, vec![(format!("UNRELATED_ITEM_{k}"), Val::N(Num::dec(r.below(9) as i128)))]),
                2 => Def::Struct(name, vec![Decl::T(Ty::Int(true), "unrelated".into(), Kind::Plain)]),
                3 => Def::Typedef(Decl::T(Ty::Hyper(false), name, Kind::Var(None))),
                _ => Def::Union(
                    name,
                    UBody { cond: Decl::T(Ty::Int(true), "d".into(), Kind::Plain), cases: vec![(vec![Val::N(Num::dec(1))], Decl::Str("s".into(), None))], default: None },
                ),
            };
            let at = if r.bool() { more.len() } else { r.usize(more.len() + 1) };
            more.insert(at, d);
        }
        check_variant(ctx, r, &run, &cfg, &text, &more, &head, &base, gs.len(), "extended");
        ctx.sample(|| text.clone());
    });
    let _ = std::fs::remove_dir_all(&dir);
    again_and_again(ctx);
}

/// The same small files thousands of times, on one thread and on two: the hundred thousandth
/// generation is like the first.
fn again_and_again(ctx: &mut Ctx) {
    const FILES: [&str; 5] = [
        "const A = 1;",
        "enum e { A = 1, B = 5 };",
        "struct s { int a; opaque b[4]; s *c; };",
        "union u switch (int x) { case 1: int a; default: void; };",
        "typedef int t; struct s { t a<>; };",
    ];
    let run = |k: usize, m: &Mode| generate(FILES[k], m);
    let modes = modes::distinct();
    let first: Vec<Vec<Result<String, String>>> = (0..FILES.len()).map(|k| modes.iter().map(|m| run(k, m)).collect()).collect();
    const STEP: usize = 256;
    ctx.cases(600, 100_000, |ctx, r| {
        let mut bad = None;
        for i in 0..STEP {
            let (k, m) = if i % 8 == 0 { (r.usize(FILES.len()), r.usize(modes.len())) } else { (0, 0) };
            if run(k, &modes[m]) != first[k][m] {
                bad = Some((k, m));
            }
        }
        ctx.add("generations of the endless loop", STEP as u64);
        ctx.max("generations of the endless loop in one process", (ctx.nth() + 1) * STEP as u64);
        ctx.eval();
        if let Some((k, m)) = bad {
            ctx.violation(&format!(
                "{}: a generation differs from the first after some {} others\nfile:\n{}\nfirst: {:?}\nnow: {:?}",
                modes[m].name(),
                ctx.nth() * STEP as u64,
                FILES[k],
                first[k][m],
                run(k, &modes[m])
            ));
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn check_variant(
    ctx: &mut Ctx,
    r: &mut Rng,
    run: &dyn Fn(&str) -> Result<String, String>,
    cfg: &gen_code::Config,
    text: &str,
    ds: &[Def],
    head: &[String],
    base: &BTreeMap<&String, &Vec<String>>,
    n: usize,
    what: &str,
) {
    let t2 = text_of(ds, r);
    ctx.count(&format!("{what} files"));
    let code = match run(&t2) {
        Ok(c) => c,
        Err(e) => {
            ctx.violation(&format!("{what}, the file is refused ({}): {e}\nfile:\n{text}\n{what}:\n{t2}", modes::show(cfg)));
            return;
        }
    };
    let Some((h2, g2)) = groups(&code) else {
        ctx.violation(&format!("{what}, the file gives code that is no Rust\n{code}\nfile:\n{text}\n{what}:\n{t2}"));
        return;
    };
    if h2 != head {
        ctx.violation(&format!("{what}: the imports differ\n{head:?}\n{h2:?}\nfile:\n{text}\n{what}:\n{t2}"));
        return;
    }
    let mut seen = 0;
    for (k, v) in &g2 {
        if let Some(w) = base.get(k) {
            seen += 1;
            if *w != v {
                ctx.violation(&format!(
                    "{what}: {k} changes ({})\n{}\n{}\nfile:\n{text}\n{what}:\n{t2}",
                    modes::show(cfg),
                    w.join("\n"),
                    v.join("\n")
                ));
                return;
            }
        } else if !k.to_lowercase().contains("unrelated") {
            ctx.violation(&format!("{what}: {k} appears\nfile:\n{text}\n{what}:\n{t2}"));
            return;
        }
    }
    ctx.add("items found again", seen);
    if seen as usize != n {
        ctx.violation(&format!("{what}: {} of {n} items are left\nfile:\n{text}\n{what}:\n{t2}", seen));
        return;
    }
    // Constants first, then types, each in the order of the file.
    let unraw = |s: &String| s.replace("r#", "");
    let mut want: Vec<String> = ds.iter().filter_map(own_name).filter(|k| k.starts_with("const ")).collect();
    want.extend(ds.iter().filter_map(own_name).filter(|k| k.starts_with("type ")));
    let tds: BTreeSet<String> =
        ds.iter().filter_map(|d| if let Def::Typedef(d) = d { Some(format!("type {}", names::camel(d.name()))) } else { None }).collect();
    let got: Vec<String> = g2.iter().map(|g| unraw(&g.0)).filter(|k| !tds.contains(k)).collect();
    if got != want {
        ctx.violation(&format!("{what}: order\n  expected {want:?}\n  found    {got:?}\nfile:\n{text}\n{what}:\n{t2}"));
    }
}

/// The other process of G11.
pub fn gen_main(path: &str, cfg: &str) -> ! {
    let text = std::fs::read_to_string(path).unwrap();
    let cfg = modes::all_configs().into_iter().find(|c| modes::show(c) == cfg).unwrap();
    let code = parser::parse(&text).ok().and_then(|d| gen_code::gen_code(d, &cfg).ok());
    match code {
        Some(c) => {
            use std::io::Write;
            std::io::stdout().write_all(c.as_bytes()).unwrap();
            std::process::exit(0);
        }
        None => std::process::exit(9),
    }
}

pub const G11: Spec = Spec {
    prop: "G11",
    rule: "a random meaningful file is generated again after other work, in four threads, in another process, after a random reordering of its definitions after unrelated definitions were put in, and a few small files tens of thousands of times in one process; texts must be equal, and item by item (a constant, or a type with everything implemented for it) the reordered and extended files must give the same tokens in the order of the file; distinct by text",
    assumptions: &["names stay distinct, so that an unrelated definition is unrelated"],
    must_observe: &["repeated calls", "calls in other threads", "calls in other processes", "reordered files", "extended files", "items found again", "generations of the endless loop"],
    worker: g11,
    as_limit_kib: 8 << 20,
    shards: 8,
    hang_cpu_s: 20,
};

//! Interface files as this monitor understands them: its own syntax tree, its own lexer, its own
//! recursive descent parser and its own printer. Nothing here comes from the code under test.
use mon::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Num {
    Dec(String),
    Hex(String),
    Oct(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    N(Num),
    Id(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Int(bool),
    Hyper(bool),
    Char(bool),
    Short(bool),
    Float,
    Double,
    Quad,
    Bool,
    Enum(Vec<(String, Val)>),
    Struct(Vec<Decl>),
    Union(Box<UBody>),
    Id(String),
    /// Only in procedures.
    Void,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Plain,
    Fixed(Val),
    Var(Option<Val>),
    Ptr,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Decl {
    Void,
    T(Ty, String, Kind),
    OpF(String, Val),
    OpV(String, Option<Val>),
    Str(String, Option<Val>),
}

impl Decl {
    pub fn name(&self) -> &str {
        match self {
            Decl::Void => "",
            Decl::T(_, n, _) | Decl::OpF(n, _) | Decl::OpV(n, _) | Decl::Str(n, _) => n,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UBody {
    pub cond: Decl,
    pub cases: Vec<(Vec<Val>, Decl)>,
    pub default: Option<Decl>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Proc {
    pub res: Ty,
    pub name: String,
    pub arg: Ty,
    pub num: Val,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Def {
    Const(String, Val),
    Typedef(Decl),
    Enum(String, Vec<(String, Val)>),
    Struct(String, Vec<Decl>),
    Union(String, UBody),
    Program(String, Vec<(String, Vec<Proc>, Val)>, Val),
}

impl Num {
    pub fn text(&self) -> String {
        match self {
            Num::Dec(s) => s.clone(),
            Num::Hex(s) => format!("0x{s}"),
            Num::Oct(s) => format!("0{s}"),
        }
    }
    /// The number written (None: more than 100 bits).
    pub fn value(&self) -> Option<i128> {
        let (s, base) = match self {
            Num::Dec(s) => (s.as_str(), 10),
            Num::Hex(s) => (s.as_str(), 16),
            Num::Oct(s) => (s.as_str(), 8),
        };
        let (neg, d) = match s.strip_prefix('-') {
            Some(d) => (true, d),
            None => (false, s),
        };
        let mut v: i128 = 0;
        for c in d.chars() {
            v = v * base + c.to_digit(base as u32)? as i128;
            if v >> 100 != 0 {
                return None;
            }
        }
        Some(if neg { -v } else { v })
    }
    pub fn dec(v: i128) -> Num {
        Num::Dec(v.to_string())
    }
    /// Written in a random base (negative numbers only exist in decimal).
    pub fn any(v: i128, r: &mut Rng) -> Num {
        if v < 0 {
            return Num::Dec(v.to_string());
        }
        // Leading zeros say nothing, however many.
        let z = if r.one_in(3) { "0".repeat(1 + r.usize(20)) } else { String::new() };
        match r.below(5) {
            0 => Num::Hex(format!("{z}{v:x}")),
            1 => Num::Hex(format!("{z}{v:X}")),
            2 => Num::Oct(format!("{z}{v:o}")),
            _ => Num::Dec(v.to_string()),
        }
    }
}

pub const RESERVED: &[&str] = &[
    "bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque", "string",
    "struct", "switch", "typedef", "union", "unsigned", "void", "program", "version",
];

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub t: String,
    /// A definition ends with this token.
    pub end: bool,
}

pub fn is_word(t: &str) -> bool {
    t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
}

/// Two tokens that would merge if written next to each other.
pub fn glue(a: &str, b: &str) -> bool {
    let end = a.ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
    end && is_word(b)
}

struct Out<'a> {
    v: Vec<Tok>,
    r: Option<&'a mut Rng>,
}

impl Out<'_> {
    fn p(&mut self, s: &str) {
        self.v.push(Tok { t: s.to_string(), end: false });
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::N(n) => self.p(&n.text()),
            Val::Id(s) => self.p(s),
        }
    }
    fn items(&mut self, items: &[(String, Val)]) {
        self.p("{");
        for (i, (n, v)) in items.iter().enumerate() {
            if i > 0 {
                self.p(",");
            }
            self.p(n);
            self.p("=");
            self.val(v);
        }
        self.p("}");
    }
    fn fields(&mut self, ds: &[Decl]) {
        self.p("{");
        for d in ds {
            self.decl(d);
            self.p(";");
        }
        self.p("}");
    }
    fn ubody(&mut self, u: &UBody) {
        self.p("switch");
        self.p("(");
        self.decl(&u.cond);
        self.p(")");
        self.p("{");
        for (vs, d) in &u.cases {
            for v in vs {
                self.p("case");
                self.val(v);
                self.p(":");
            }
            self.decl(d);
            self.p(";");
        }
        if let Some(d) = &u.default {
            self.p("default");
            self.p(":");
            self.decl(d);
            self.p(";");
        }
        self.p("}");
    }
    fn ty(&mut self, t: &Ty) {
        let mut u = |s: bool, n: &str| {
            if !s {
                self.p("unsigned");
                if n == "int" {
                    // Both spellings denote the same type.
                    if let Some(r) = self.r.as_mut() {
                        if r.one_in(3) {
                            return;
                        }
                    }
                }
            }
            self.p(n)
        };
        match t {
            Ty::Int(s) => u(*s, "int"),
            Ty::Hyper(s) => u(*s, "hyper"),
            Ty::Char(s) => u(*s, "char"),
            Ty::Short(s) => u(*s, "short"),
            Ty::Float => self.p("float"),
            Ty::Double => self.p("double"),
            Ty::Quad => self.p("quadruple"),
            Ty::Bool => self.p("bool"),
            Ty::Void => self.p("void"),
            Ty::Id(s) => self.p(s),
            Ty::Enum(i) => {
                self.p("enum");
                self.items(i)
            }
            Ty::Struct(d) => {
                self.p("struct");
                self.fields(d)
            }
            Ty::Union(u) => {
                self.p("union");
                self.ubody(u)
            }
        }
    }
    fn decl(&mut self, d: &Decl) {
        let opt = |o: &mut Self, v: &Option<Val>| {
            o.p("<");
            if let Some(v) = v {
                o.val(v)
            }
            o.p(">");
        };
        match d {
            Decl::Void => self.p("void"),
            Decl::OpF(n, v) => {
                self.p("opaque");
                self.p(n);
                self.p("[");
                self.val(v);
                self.p("]");
            }
            Decl::OpV(n, v) => {
                self.p("opaque");
                self.p(n);
                opt(self, v)
            }
            Decl::Str(n, v) => {
                self.p("string");
                self.p(n);
                opt(self, v)
            }
            Decl::T(t, n, k) => {
                self.ty(t);
                if *k == Kind::Ptr {
                    self.p("*");
                }
                self.p(n);
                match k {
                    Kind::Fixed(v) => {
                        self.p("[");
                        self.val(v);
                        self.p("]");
                    }
                    Kind::Var(v) => opt(self, v),
                    _ => {}
                }
            }
        }
    }
    fn def(&mut self, d: &Def) {
        match d {
            Def::Const(n, v) => {
                self.p("const");
                self.p(n);
                self.p("=");
                self.val(v);
            }
            Def::Typedef(d) => {
                self.p("typedef");
                self.decl(d);
            }
            Def::Enum(n, i) => {
                self.p("enum");
                self.p(n);
                self.items(i);
            }
            Def::Struct(n, f) => {
                self.p("struct");
                self.p(n);
                self.fields(f);
            }
            Def::Union(n, u) => {
                self.p("union");
                self.p(n);
                self.ubody(u);
            }
            Def::Program(n, vs, v) => {
                self.p("program");
                self.p(n);
                self.p("{");
                for (vn, ps, vv) in vs {
                    self.p("version");
                    self.p(vn);
                    self.p("{");
                    for p in ps {
                        self.ty(&p.res);
                        self.p(&p.name);
                        self.p("(");
                        self.ty(&p.arg);
                        self.p(")");
                        self.p("=");
                        self.val(&p.num);
                        self.p(";");
                    }
                    self.p("}");
                    self.p("=");
                    self.val(vv);
                    self.p(";");
                }
                self.p("}");
                self.p("=");
                self.val(v);
            }
        }
        self.p(";");
        self.v.last_mut().unwrap().end = true;
    }
}

/// The tokens of a file. With `r`, spellings of the same thing vary.
pub fn tokens(defs: &[Def], r: Option<&mut Rng>) -> Vec<Tok> {
    let mut o = Out { v: vec![], r };
    for d in defs {
        o.def(d);
    }
    o.v
}

const COMMENTS: &[&str] = &[
    "/**/", "/* */", "/***/", "/* a comment */", "/* ; } */", "/* case 1: */", "/* \" */", "/* /* */", "/*\n*/", "/*\r\n * x\r\n */",
    "/* % */", "/* 値 ü */", "/* * / */", "/*const A = 1;*/", "/*/*/", "/****/", "/*%\n%*/", "/* // */", "/* }; */",
];
const SPACES: &[&str] = &[" ", "\n", "\t", "\r\n", "  ", " \n ", "\n\n", "\t \t", "\r"];
const LINES: &[&str] = &["%\n", "%#include <x.h>\n", "% const X = 1;\n", "%%\n", "%/*\n", "%*/\n", "% int a; }\r\n", "%値\n", "% /* x */\n"];

const WORDS: &[&str] = &[
    "bool", "case", "const", "default", "double", "quadruple", "enum", "float", "hyper", "int", "opaque", "string", "struct", "switch",
    "typedef", "union", "unsigned", "void", "program", "version", "char", "short", "TRUE", "FALSE", "a", "{", "}", "(", ")", "[", "]", "<", ">",
    ";", ":", ",", "=", "0", "-1", "0x1F", "07", "%", "\"", "'", "//", "#", "unsigned int", "unsigned hyper", "int a;", "case A:", "default: void;",
];

/// A comment of words of the language, of words near it in the file, or a very long one.
fn wordy(r: &mut Rng, out: &mut String, near: &[Tok]) {
    out.push_str(*r.pick(&["/*", "/* ", "/** ", "/*\n"]));
    for _ in 0..if r.one_in(1000) { 300 } else { 1 + r.below(4) } {
        if r.one_in(6) {
            let t = r.word_text().unwrap_or_default();
            out.push_str(&t.replace("*/", "* /"));
            // No end of the comment may come about.
            if t.ends_with('*') {
                out.push(' ');
            }
        } else if r.bool() || near.is_empty() {
            out.push_str(*r.pick(WORDS));
        } else {
            out.push_str(&r.pick(near).t);
        }
        out.push_str(*r.pick(&[" ", "\n", "  ", " ; "]));
    }
    out.push_str(*r.pick(&["*/", " */", "**/"]));
}

/// A pass-through line, of nothing special or of words of the language.
fn pass(r: &mut Rng, near: &[Tok]) -> String {
    if r.one_in(3) {
        return (*r.pick(LINES)).to_string();
    }
    let mut s = "%".to_string();
    for _ in 0..if r.one_in(500) { 300 } else { r.below(6) } {
        match r.below(5) {
            0 => s.push_str(&r.word_text().unwrap_or_default().replace(['\n', '\r'], " ")),
            1 if !near.is_empty() => s.push_str(&r.pick(near).t),
            2 => s.push_str(*r.pick(&["/*", "*/", "%", "{", "}", ";", "//", "\"", "\\", "#", "値", "\t"])),
            _ => s.push_str(*r.pick(WORDS)),
        }
        s.push_str(*r.pick(&[" ", "", "  ", "\t"]));
    }
    s.push_str(*r.pick(&["\n", "\n", "\r\n"]));
    s
}

fn gap(r: &mut Rng, out: &mut String, need: bool, rich: u64, near: &[Tok]) {
    let n = if rich == 0 { need as u64 } else { r.below(rich).max(need as u64) };
    for _ in 0..n {
        if rich > 0 && r.one_in(3) {
            if r.bool() {
                out.push_str(*r.pick(COMMENTS));
            } else {
                wordy(r, out, near);
            }
        } else if rich > 0 && r.one_in(3000) {
            let s = *r.pick(SPACES);
            out.push_str(&s.repeat(1 + r.usize(1000)));
        } else {
            out.push_str(if rich == 0 { " " } else { *r.pick(SPACES) });
        }
    }
}

/// Writes tokens with a random layout. `rich`: 0 (as tight as possible) to 6 (lavish).
/// With `lines`, pass-through lines are put between definitions. Returns how many.
pub fn layout(toks: &[Tok], r: &mut Rng, rich: u64, lines: bool) -> (String, usize) {
    let mut s = String::new();
    let mut nl = 0;
    let mut boundary = true;
    for (i, t) in toks.iter().enumerate() {
        // What stands around this place.
        let near = &toks[i.saturating_sub(2)..(i + 3).min(toks.len())];
        if boundary {
            gap(r, &mut s, false, rich, near);
            while lines && r.one_in(3) {
                let l = pass(r, near);
                s.push_str(&l);
                nl += 1;
                gap(r, &mut s, false, rich, near);
            }
        } else {
            gap(r, &mut s, glue(&toks[i - 1].t, &t.t), rich, near);
        }
        s.push_str(&t.t);
        boundary = t.end;
    }
    if boundary {
        gap(r, &mut s, false, rich, &[]);
        if lines && r.one_in(3) {
            let l = pass(r, &[]);
            nl += 1;
            // The last line may lack its end.
            s.push_str(if r.bool() { &l } else { l.trim_end_matches(['\r', '\n']) });
        }
    }
    (s, nl)
}

/// The usual layout.
pub fn plain(defs: &[Def]) -> String {
    let mut s = String::new();
    let toks = tokens(defs, None);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && !toks[i - 1].end && (is_word(&t.t) && is_word(&toks[i - 1].t) || matches!(t.t.as_str(), "{" | "=" | "}")) {
            s.push(' ');
        }
        s.push_str(&t.t);
        if t.end {
            s.push('\n');
        } else if matches!(t.t.as_str(), "{" | ";" | ":" | "," | "=" | "*") {
            s.push(' ');
        }
    }
    s
}

// ---------------------------------------------------------------- lexer

pub enum Lex {
    Ok(Vec<String>),
    /// Certainly not an interface file.
    Bad(&'static str),
    /// Outside what this lexer decides.
    Unsure,
}

fn number(w: &str) -> bool {
    let b = w.as_bytes();
    if let Some(h) = w.strip_prefix("0x") {
        return !h.is_empty() && h.bytes().all(|c| c.is_ascii_hexdigit());
    }
    if b[0] == b'0' {
        return b[1..].iter().all(|c| (b'0'..=b'7').contains(c));
    }
    b.iter().all(|c| c.is_ascii_digit())
}

pub fn lex(text: &str) -> Lex {
    let b = text.as_bytes();
    let mut i = 0;
    let mut v: Vec<String> = vec![];
    let mut depth = 0i64;
    let wc = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b'/' => {
                if b.get(i + 1) != Some(&b'*') {
                    return Lex::Bad("stray slash");
                }
                match text[i + 2..].find("*/") {
                    Some(n) => i += n + 4,
                    None => return Lex::Bad("unterminated comment"),
                }
            }
            b'%' => {
                if depth != 0 || v.last().map(|t| t != ";").unwrap_or(false) {
                    return Lex::Bad("percent inside a definition");
                }
                let rest = &text[i..];
                let end = rest.find('\n').unwrap_or(rest.len());
                let line = &rest[..end];
                let line = if end < rest.len() { line.strip_suffix('\r').unwrap_or(line) } else { line };
                if line.contains('\r') {
                    return Lex::Unsure;
                }
                i += (end + 1).min(rest.len());
            }
            b'{' | b'}' | b'[' | b']' | b'<' | b'>' | b'(' | b')' | b'*' | b',' | b';' | b':' | b'=' => {
                if c == b'{' || c == b'(' {
                    depth += 1;
                }
                if c == b'}' || c == b')' {
                    depth -= 1;
                }
                v.push((c as char).to_string());
                i += 1;
            }
            b'-' => {
                let mut j = i + 1;
                while j < b.len() && wc(b[j]) {
                    j += 1;
                }
                let w = &text[i + 1..j];
                if w.is_empty() || w.starts_with('0') || !w.bytes().all(|c| c.is_ascii_digit()) {
                    return Lex::Bad("minus without a decimal number");
                }
                v.push(text[i..j].to_string());
                i = j;
            }
            c if wc(c) => {
                let mut j = i;
                while j < b.len() && wc(b[j]) {
                    j += 1;
                }
                let w = &text[i..j];
                if c.is_ascii_digit() && !number(w) {
                    return Lex::Bad("malformed number");
                }
                v.push(w.to_string());
                i = j;
            }
            _ => return Lex::Bad("unknown character"),
        }
    }
    Lex::Ok(v)
}

// ---------------------------------------------------------------- reference parser

struct P<'a> {
    t: &'a [String],
    i: usize,
}

type R<T> = Option<T>;

impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn eat(&mut self, s: &str) -> R<()> {
        if self.peek() == s && !s.is_empty() {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn id(&mut self) -> R<String> {
        let w = self.peek();
        if w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !RESERVED.contains(&w) {
            self.i += 1;
            Some(w.to_string())
        } else {
            None
        }
    }
    fn val(&mut self) -> R<Val> {
        let w = self.peek();
        if w.starts_with(|c: char| c.is_ascii_digit() || c == '-') {
            self.i += 1;
            let n = if let Some(h) = w.strip_prefix("0x") {
                Num::Hex(h.to_string())
            } else if w.len() > 1 && w.starts_with('0') {
                Num::Oct(w[1..].to_string())
            } else {
                Num::Dec(w.to_string())
            };
            return Some(Val::N(n));
        }
        self.id().map(Val::Id)
    }
    fn items(&mut self) -> R<Vec<(String, Val)>> {
        self.eat("{")?;
        let mut v = vec![];
        loop {
            let n = self.id()?;
            self.eat("=")?;
            v.push((n, self.val()?));
            if self.eat(",").is_none() {
                break;
            }
        }
        self.eat("}")?;
        Some(v)
    }
    fn fields(&mut self) -> R<Vec<Decl>> {
        self.eat("{")?;
        let mut v = vec![];
        while self.peek() != "}" {
            v.push(self.decl()?);
            self.eat(";")?;
        }
        self.eat("}")?;
        if v.is_empty() { None } else { Some(v) }
    }
    fn ubody(&mut self) -> R<UBody> {
        self.eat("switch")?;
        self.eat("(")?;
        let cond = self.decl()?;
        self.eat(")")?;
        self.eat("{")?;
        let mut cases = vec![];
        while self.peek() == "case" {
            let mut vs = vec![];
            while self.eat("case").is_some() {
                vs.push(self.val()?);
                self.eat(":")?;
            }
            let d = self.decl()?;
            self.eat(";")?;
            cases.push((vs, d));
        }
        if cases.is_empty() {
            return None;
        }
        let mut default = None;
        if self.eat("default").is_some() {
            self.eat(":")?;
            default = Some(self.decl()?);
            self.eat(";")?;
        }
        self.eat("}")?;
        Some(UBody { cond, cases, default })
    }
    fn ty(&mut self) -> R<Ty> {
        let w = self.peek();
        let nx = self.t.get(self.i + 1).map(|s| s.as_str()).unwrap_or("");
        let (t, n) = match w {
            "unsigned" => match nx {
                "int" => (Ty::Int(false), 2),
                "hyper" => (Ty::Hyper(false), 2),
                "char" => (Ty::Char(false), 2),
                "short" => (Ty::Short(false), 2),
                _ => (Ty::Int(false), 1),
            },
            "int" => (Ty::Int(true), 1),
            "hyper" => (Ty::Hyper(true), 1),
            "char" => (Ty::Char(true), 1),
            "short" => (Ty::Short(true), 1),
            "float" => (Ty::Float, 1),
            "double" => (Ty::Double, 1),
            "quadruple" => (Ty::Quad, 1),
            "bool" => (Ty::Bool, 1),
            "enum" => {
                self.i += 1;
                return Some(Ty::Enum(self.items()?));
            }
            "struct" => {
                self.i += 1;
                return Some(Ty::Struct(self.fields()?));
            }
            "union" => {
                self.i += 1;
                return Some(Ty::Union(Box::new(self.ubody()?)));
            }
            _ => return self.id().map(Ty::Id),
        };
        self.i += n;
        Some(t)
    }
    fn opt(&mut self) -> R<Option<Val>> {
        self.eat("<")?;
        let v = if self.peek() == ">" { None } else { Some(self.val()?) };
        self.eat(">")?;
        Some(v)
    }
    fn decl(&mut self) -> R<Decl> {
        match self.peek() {
            "void" => {
                self.i += 1;
                Some(Decl::Void)
            }
            "opaque" => {
                self.i += 1;
                let n = self.id()?;
                if self.eat("[").is_some() {
                    let v = self.val()?;
                    self.eat("]")?;
                    return Some(Decl::OpF(n, v));
                }
                Some(Decl::OpV(n, self.opt()?))
            }
            "string" => {
                self.i += 1;
                let n = self.id()?;
                Some(Decl::Str(n, self.opt()?))
            }
            _ => {
                let t = self.ty()?;
                if self.eat("*").is_some() {
                    return Some(Decl::T(t, self.id()?, Kind::Ptr));
                }
                let n = self.id()?;
                if self.eat("[").is_some() {
                    let v = self.val()?;
                    self.eat("]")?;
                    return Some(Decl::T(t, n, Kind::Fixed(v)));
                }
                if self.peek() == "<" {
                    let v = self.opt()?;
                    return Some(Decl::T(t, n, Kind::Var(v)));
                }
                Some(Decl::T(t, n, Kind::Plain))
            }
        }
    }
    fn pty(&mut self) -> R<Ty> {
        if self.eat("void").is_some() {
            return Some(Ty::Void);
        }
        self.ty()
    }
    fn def(&mut self) -> R<Def> {
        let d = match self.peek() {
            "const" => {
                self.i += 1;
                let n = self.id()?;
                self.eat("=")?;
                Def::Const(n, self.val()?)
            }
            "typedef" => {
                self.i += 1;
                Def::Typedef(self.decl()?)
            }
            "enum" => {
                self.i += 1;
                let n = self.id()?;
                Def::Enum(n, self.items()?)
            }
            "struct" => {
                self.i += 1;
                let n = self.id()?;
                Def::Struct(n, self.fields()?)
            }
            "union" => {
                self.i += 1;
                let n = self.id()?;
                Def::Union(n, self.ubody()?)
            }
            "program" => {
                self.i += 1;
                let n = self.id()?;
                self.eat("{")?;
                let mut vs = vec![];
                while self.peek() == "version" {
                    self.i += 1;
                    let vn = self.id()?;
                    self.eat("{")?;
                    let mut ps = vec![];
                    while self.peek() != "}" {
                        let res = self.pty()?;
                        let name = self.id()?;
                        self.eat("(")?;
                        let arg = self.pty()?;
                        self.eat(")")?;
                        self.eat("=")?;
                        let num = self.val()?;
                        self.eat(";")?;
                        ps.push(Proc { res, name, arg, num });
                    }
                    self.eat("}")?;
                    self.eat("=")?;
                    let v = self.val()?;
                    self.eat(";")?;
                    if ps.is_empty() {
                        return None;
                    }
                    vs.push((vn, ps, v));
                }
                self.eat("}")?;
                self.eat("=")?;
                let v = self.val()?;
                if vs.is_empty() {
                    return None;
                }
                Def::Program(n, vs, v)
            }
            _ => return None,
        };
        self.eat(";")?;
        Some(d)
    }
}

/// The definitions the tokens denote, or nothing when they are not an interface file.
pub fn parse_tokens(t: &[String]) -> Option<Vec<Def>> {
    let mut p = P { t, i: 0 };
    let mut v = vec![];
    while p.i < t.len() {
        v.push(p.def()?);
    }
    Some(v)
}

//! Words that occur in the code under test, as fuzzers take them for a dictionary: they only
//! make inputs more likely, nothing is judged by them.
use crate::Rng;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub texts: Vec<String>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (mut ints, mut texts) = (BTreeSet::new(), BTreeSet::new());
        if !cfg!(miri) {
            for c in ["serde-xdr", "serde-xdr-derive", "rpcgen"] {
                let mut list = vec![];
                files(&Path::new("/repo").join(c).join("src"), &mut list, 0);
                list.sort();
                for f in list {
                    let text = std::fs::read_to_string(&f).unwrap_or_default();
                    let text = text.split("#[cfg(test)]").next().unwrap_or("");
                    words(text, &mut ints, &mut texts);
                }
            }
        }
        Dict { ints: ints.into_iter().collect(), texts: texts.into_iter().collect() }
    })
}

fn files(d: &Path, out: &mut Vec<PathBuf>, depth: u32) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    for e in l.flatten() {
        let p = e.path();
        if p.is_dir() && depth < 6 {
            files(&p, out, depth + 1);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

/// A rough lexer of Rust: numbers and what is in quotes, without comments.
pub fn words(text: &str, ints: &mut BTreeSet<u64>, texts: &mut BTreeSet<String>) {
    let t: Vec<char> = text.chars().collect();
    let mut i = 0;
    // The last two tokens, for n << m and n * m.
    let (mut num, mut op): (Option<u64>, Option<char>) = (None, None);
    while i < t.len() {
        let c = t[i];
        if c == '/' && t.get(i + 1) == Some(&'/') {
            while i < t.len() && t[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && t.get(i + 1) == Some(&'*') {
            i += 2;
            while i < t.len() && !(t[i] == '*' && t.get(i + 1) == Some(&'/')) {
                i += 1;
            }
            i += 2;
        } else if c == 'r' && (t.get(i + 1) == Some(&'"') || t.get(i + 1) == Some(&'#')) {
            let mut h = 0;
            while t.get(i + 1 + h) == Some(&'#') {
                h += 1;
            }
            if t.get(i + 1 + h) != Some(&'"') {
                i += 1 + h;
                continue;
            }
            let s = i + 2 + h;
            let mut e = s;
            while e < t.len() && !(t[e] == '"' && (0..h).all(|k| t.get(e + 1 + k) == Some(&'#'))) {
                e += 1;
            }
            texts.insert(t[s..e.min(t.len())].iter().collect());
            i = e + 1 + h;
            (num, op) = (None, None);
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < t.len() && t[i] != '"' {
                if t[i] == '\\' {
                    i += 1;
                    match t.get(i) {
                        Some('n') => s.push('\n'),
                        Some('t') => s.push('\t'),
                        Some('r') => s.push('\r'),
                        Some('0') => s.push('\0'),
                        Some('x') => {
                            let h: String = t[(i + 1).min(t.len())..(i + 3).min(t.len())].iter().collect();
                            if let Ok(n) = u8::from_str_radix(&h, 16) {
                                s.push(n as char);
                            }
                            i += 2;
                        }
                        Some('\n') => {
                            while t.get(i + 1).is_some_and(|c| c.is_whitespace()) {
                                i += 1;
                            }
                        }
                        Some(c) => s.push(*c),
                        None => {}
                    }
                } else {
                    s.push(t[i]);
                }
                i += 1;
            }
            i += 1;
            texts.insert(s);
            (num, op) = (None, None);
        } else if c == '\'' {
            // A character, not a lifetime.
            if t.get(i + 2) == Some(&'\'') && t.get(i + 1) != Some(&'\\') {
                texts.insert(t[i + 1].to_string());
                i += 3;
            } else if t.get(i + 1) == Some(&'\\') {
                let mut e = i + 2;
                while e < t.len() && e < i + 14 && !(t[e] == '\'' && e > i + 2) {
                    e += 1;
                }
                let b: String = t[i + 2..e.min(t.len())].iter().collect();
                if let Some(h) = b.strip_prefix("u{").and_then(|b| b.strip_suffix('}')) {
                    if let Some(c) = u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32) {
                        texts.insert(c.to_string());
                    }
                }
                i = e + 1;
            } else {
                i += 1;
            }
            (num, op) = (None, None);
        } else if c.is_ascii_digit() {
            let mut e = i;
            while e < t.len() && (t[e].is_ascii_alphanumeric() || t[e] == '_') {
                e += 1;
            }
            let raw: String = t[i..e].iter().filter(|c| **c != '_').collect();
            i = e;
            let n = number(&raw);
            if let Some(n) = n {
                ints.insert(n);
                match (num, op) {
                    (Some(a), Some('<')) if n < 64 => drop(ints.insert(a.wrapping_shl(n as u32))),
                    (Some(a), Some('*')) => drop(ints.insert(a.wrapping_mul(n))),
                    (Some(a), Some('+')) => drop(ints.insert(a.wrapping_add(n))),
                    (Some(a), Some('-')) => drop(ints.insert(a.wrapping_sub(n))),
                    _ => {}
                }
            }
            num = n;
            op = None;
        } else if c.is_alphanumeric() || c == '_' {
            while i < t.len() && (t[i].is_alphanumeric() || t[i] == '_') {
                i += 1;
            }
            (num, op) = (None, None);
        } else {
            if !c.is_whitespace() {
                if num.is_some() && matches!(c, '<' | '*' | '+' | '-') {
                    op = Some(c);
                } else {
                    (num, op) = (None, None);
                }
            }
            i += 1;
        }
    }
    texts.remove("");
}

fn number(raw: &str) -> Option<u64> {
    let (radix, body) = match raw.get(..2) {
        Some("0x") => (16, &raw[2..]),
        Some("0o") => (8, &raw[2..]),
        Some("0b") => (2, &raw[2..]),
        _ => (10, raw),
    };
    let end = body.find(|c: char| !c.is_digit(radix)).unwrap_or(body.len());
    u64::from_str_radix(&body[..end], radix).ok()
}

impl Rng {
    /// A number that occurs in the code, or one next to it, or made of it.
    pub fn word_int(&mut self) -> Option<u64> {
        let d = &dict().ints;
        if d.is_empty() {
            return None;
        }
        let n = *self.pick(d);
        Some(match self.below(8) {
            0 => n.wrapping_sub(1),
            1 => n.wrapping_add(1),
            2 => n.wrapping_neg(),
            3 => n.wrapping_mul(4),
            4 => n.wrapping_add(self.below(9)).wrapping_sub(4),
            _ => n,
        })
    }
    /// One that can be the size of something, below `max`.
    pub fn word_size(&mut self, max: u64) -> Option<usize> {
        (0..4).find_map(|_| self.word_int().filter(|n| *n < max)).map(|n| n as usize)
    }
    /// Text that occurs in the code, or a piece of it.
    pub fn word_text(&mut self) -> Option<String> {
        let d = &dict().texts;
        if d.is_empty() {
            return None;
        }
        Some(self.pick(d).clone())
    }
    /// Something that can stand where a name stands.
    pub fn word_name(&mut self) -> Option<String> {
        for _ in 0..6 {
            let t = self.word_text()?;
            let l: Vec<&str> = t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| w.starts_with(|c: char| c.is_ascii_alphabetic())).collect();
            if !l.is_empty() {
                let w = (*self.pick(&l)).to_string();
                if w.len() < 60 {
                    return Some(match self.below(12) {
                        0 => w.to_uppercase(),
                        1 => w.to_lowercase(),
                        2 => format!("{w}_t"),
                        3 => format!("{w}{}", self.below(4)),
                        4 => format!("x{w}"),
                        5 => format!("my_{w}"),
                        6 => w[..w.len() - 1 + usize::from(w.len() == 1)].to_string(),
                        _ => w,
                    });
                }
            }
        }
        None
    }
}

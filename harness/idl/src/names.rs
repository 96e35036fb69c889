//! The documented naming rules, written from their description.

/// Upper camel case: with underscores, each part is capitalised and the rest lowered; without, only
/// the first letter changes.
pub fn camel(s: &str) -> String {
    let mut o = String::new();
    if s.contains('_') {
        let mut up = true;
        for c in s.chars() {
            if c == '_' {
                up = true;
            } else if up {
                o.push(c.to_ascii_uppercase());
                up = false;
            } else {
                o.push(c.to_ascii_lowercase());
            }
        }
        ident(&o)
    } else {
        let mut first = true;
        for c in s.chars() {
            o.push(if first { c.to_ascii_uppercase() } else { c });
            first = false;
        }
        ident(&o)
    }
}

/// Snake case: everything lowered, an underscore before each run of capitals that starts a word.
pub fn snake(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let small = |c: char| c.is_ascii_lowercase() || c.is_ascii_digit();
    let mut o = String::new();
    for (i, &x) in c.iter().enumerate() {
        let starts_run = !small(x) && (i == 0 || small(c[i - 1]));
        if i > 0 && starts_run && x.is_ascii_uppercase() {
            o.push('_');
        }
        o.push(x.to_ascii_lowercase());
    }
    ident(&o)
}

/// What an identifier becomes when Rust cannot take it as it is (raw identifiers count as the name).
pub fn ident(s: &str) -> String {
    match s {
        "" | "_" => "__".to_string(),
        "Self" | "self" | "super" | "crate" => format!("{s}_"),
        _ if s.starts_with(|c: char| c.is_ascii_digit()) => format!("_{s}"),
        _ => s.to_string(),
    }
}

pub const KEYWORDS: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
    "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "type", "union",
    "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "gen", "macro", "override", "priv", "try", "typeof", "unsized",
    "virtual", "yield",
];

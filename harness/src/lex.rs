//! An independent hand-written scanner for Apex text. It knows only what can hide or delimit
//! a comment (strings, comments) and splits the rest into words and single symbols, so it
//! shares nothing with the grammar the formatter is built on.

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Line,
    Block,
    Str,
    Word,
    Sym,
}
#[derive(Clone, Debug, PartialEq)]
pub struct L {
    pub k: K,
    pub t: String,
    pub start: usize,
    pub end: usize,
    /// line of the first character, from 0
    pub row: usize,
    pub end_row: usize,
}

pub fn lex(src: &str) -> Vec<L> {
    let b = src.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let mut row = 0;
    let n = b.len();
    while i < n {
        let c = b[i];
        if c == b'\n' {
            row += 1;
            i += 1;
            continue;
        }
        if c.is_ascii_whitespace() || c == 0x0b {
            i += 1;
            continue;
        }
        let s = i;
        let r0 = row;
        let k;
        if c == b'/' && i + 1 < n && b[i + 1] == b'/' {
            while i < n && b[i] != b'\n' {
                i += 1;
            }
            k = K::Line;
        } else if c == b'/' && i + 1 < n && b[i + 1] == b'*' {
            i += 2;
            while i + 1 < n && !(b[i] == b'*' && b[i + 1] == b'/') {
                if b[i] == b'\n' {
                    row += 1;
                }
                i += 1;
            }
            i = (i + 2).min(n);
            k = K::Block;
        } else if c == b'\'' {
            i += 1;
            while i < n && b[i] != b'\'' {
                if b[i] == b'\\' && i + 1 < n {
                    i += 1;
                }
                if b[i] == b'\n' {
                    row += 1;
                }
                i += 1;
            }
            i = (i + 1).min(n);
            k = K::Str;
        } else if c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c >= 0x80 {
            while i < n && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$' || b[i] >= 0x80) {
                i += 1;
            }
            k = K::Word;
        } else {
            i += 1;
            k = K::Sym;
        }
        let mut t = src.get(s..i).unwrap_or("").to_string();
        if k == K::Line {
            t = t.trim_end().to_string();
        }
        v.push(L { k, t, start: s, end: i, row: r0, end_row: row });
    }
    v
}

/// Comment text modulo layout: line comments exactly (trailing blanks aside); block comments
/// line by line without indentation; doc comments (`/** … */`) additionally without one
/// leading decoration star per line after the first and without blank lines.
pub fn comment_key(t: &str, k: &K) -> String {
    if *k == K::Line {
        return t.trim_end().to_string();
    }
    if t.starts_with("/**") && t != "/**/" {
        let inner = &t[3..t.len().saturating_sub(2).max(3)];
        let mut o = vec![];
        for (i, l) in inner.split('\n').enumerate() {
            let l = l.trim();
            // what follows `/**` on its line is text, stars included
            let l = if i == 0 { l } else { l.strip_prefix('*').unwrap_or(l).trim() };
            if !l.is_empty() {
                o.push(l.to_string());
            }
        }
        return format!("/**{}*/", o.join("\n"));
    }
    t.split('\n').map(|l| l.trim()).collect::<Vec<_>>().join("\n")
}

pub fn comments(src: &str) -> Vec<String> {
    lex(src).iter().filter(|l| matches!(l.k, K::Line | K::Block)).map(|l| comment_key(&l.t, &l.k)).collect()
}
pub fn code(src: &str) -> Vec<L> {
    lex(src).into_iter().filter(|l| !matches!(l.k, K::Line | K::Block)).collect()
}

//! Rendering of generated pieces to source text under different layouts, and injection of
//! comments at chosen places.
use crate::gen::{Slot, P};
use crate::rng::Rng;

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}
/// must the two tokens be separated to lex as two tokens?
pub fn need_sep(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else { return false };
    if wordy(x) && wordy(y) {
        return true;
    }
    // 1 . 5 / `1.` must not join
    if x.is_ascii_digit() && y == '.' || x == '.' && y.is_ascii_digit() {
        return true;
    }
    let ops = "+-*/=<>!&|^?:%~";
    if ops.contains(x) && ops.contains(y) {
        return true;
    }
    // 'a' 'b' string neighbours cannot join, `'` after identifier is fine
    if a == "." && y == '.' {
        return true;
    }
    if a == "?" && y == '.' {
        return true;
    }
    // keyword followed by a bind or string keeps a blank for the parser's keyword tokens
    if x == '?' && y == '[' {
        return false;
    }
    false
}

#[derive(Clone, Debug, PartialEq)]
pub enum Gap {
    /// no whitespace allowed
    Glue,
    /// exactly one blank
    One,
    Free,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub gap: Gap, // gap before
    pub slot: Option<Slot>,
    /// case-insensitive keyword
    pub kw: bool,
}

pub fn toks(ps: &[P]) -> Vec<Tok> {
    let mut v = vec![];
    let mut gap = Gap::Free;
    let mut slot = None;
    for p in ps {
        match p {
            P::T(s) | P::K(s) => {
                v.push(Tok { s: s.clone(), gap: gap.clone(), slot: slot.take(), kw: matches!(p, P::K(_)) });
                gap = Gap::Free;
            }
            P::Glue => gap = Gap::Glue,
            P::OneSpace => gap = Gap::One,
            P::Slot(s) => slot = Some(*s),
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layout {
    /// minimal whitespace, one line
    Compact,
    /// new line at every slot, blanks elsewhere
    Pretty,
    /// random blanks, tabs and line breaks between all tokens (never an empty line)
    Wild,
    /// pretty, with random empty lines at slots
    Blanks,
    /// every token on its own line
    Tall,
}

/// A comment to inject before a token that carries a slot.
#[derive(Clone, Debug)]
pub struct Cm {
    /// index of the token it is placed before
    pub at: usize,
    /// on the line of the previous token
    pub trailing: bool,
    pub text: String,
}

pub fn render(ts: &[Tok], l: Layout, r: &mut Rng) -> String {
    render_c(ts, l, r, &[])
}

/// Comments are only honoured by the layouts that break lines at slots.
pub fn render_c(ts: &[Tok], l: Layout, r: &mut Rng, cms: &[Cm]) -> String {
    let mut o = String::new();
    let mut ind = 0usize;
    for (i, t) in ts.iter().enumerate() {
        if t.s == "}" {
            ind = ind.saturating_sub(1);
        }
        if i == 0 {
            for c in cms.iter().filter(|c| c.at == 0) {
                own_line(&mut o, &c.text, 0);
                if l == Layout::Blanks && r.pct(25) {
                    o.push('\n');
                }
            }
        }
        if i > 0 {
            match t.gap {
                Gap::Glue => {}
                Gap::One => o.push(' '),
                Gap::Free => {
                    let sep = need_sep(&ts[i - 1].s, &t.s);
                    match l {
                        Layout::Compact => {
                            if sep {
                                o.push(' ')
                            }
                        }
                        Layout::Pretty | Layout::Blanks => {
                            if t.slot.is_some() {
                                for c in cms.iter().filter(|c| c.at == i && c.trailing) {
                                    o.push_str(if r.pct(80) { " " } else { "   " });
                                    o.push_str(&c.text);
                                }
                                o.push('\n');
                                if l == Layout::Blanks && r.pct(35) {
                                    // seldom very many
                                    let n = if r.pct(2) { r.range(250, 260) } else { r.range(1, 3) };
                                    for _ in 0..n {
                                        if r.pct(20) {
                                            o.push_str("   ");
                                        }
                                        o.push('\n');
                                    }
                                }
                                for c in cms.iter().filter(|c| c.at == i && !c.trailing) {
                                    own_line(&mut o, &c.text, ind + (t.s == "}") as usize);
                                    if l == Layout::Blanks && r.pct(25) {
                                        o.push('\n');
                                    }
                                }
                                for _ in 0..ind {
                                    o.push_str("    ");
                                }
                            } else if sep || r.pct(60) {
                                o.push(' ');
                            }
                        }
                        Layout::Tall => {
                            if sep || t.slot.is_some() || !r.pct(15) {
                                o.push('\n');
                            }
                        }
                        Layout::Wild => {
                            let n = if sep { r.range(1, 3) } else { r.below(3) };
                            let mut had_nl = false;
                            for _ in 0..n {
                                match r.below(6) {
                                    0 if !had_nl => {
                                        o.push('\n');
                                        had_nl = true;
                                    }
                                    1 => o.push('\t'),
                                    _ => o.push(' '),
                                }
                            }
                        }
                    }
                }
            }
        }
        o.push_str(&t.s);
        if t.s == "{" {
            ind += 1;
        }
    }
    for c in cms.iter().filter(|c| c.at == ts.len() && c.trailing) {
        o.push(' ');
        o.push_str(&c.text);
    }
    o.push('\n');
    for c in cms.iter().filter(|c| c.at == ts.len() && !c.trailing) {
        if l == Layout::Blanks && r.pct(25) {
            o.push('\n');
        }
        own_line(&mut o, &c.text, 0);
    }
    o
}

fn own_line(o: &mut String, text: &str, ind: usize) {
    for l in text.split('\n') {
        for _ in 0..ind {
            o.push_str("    ");
        }
        o.push_str(l);
        o.push('\n');
    }
}

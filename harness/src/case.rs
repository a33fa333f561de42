//! Workload: sources to run the formatter on, from the grammar-directed generator, from the
//! repository's own Apex files and from splices of their members and statements.
use crate::gen;
use crate::gram;
use crate::lex;
use crate::render::{self, Layout};
use crate::rng::Rng;
use crate::ts;
use std::collections::{BTreeSet, HashSet};
use tree_sitter::Node;

/// What comments the source contains.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// none
    Free,
    /// between statements, members, declarations and before the end of bodies
    Sane,
    /// anywhere
    Any,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub src: String,
    pub width: u32,
    pub indent: u32,
    /// seed of the variant a relational oracle derives from `src`
    pub vseed: u64,
    pub mode: Mode,
    pub origin: String,
}

/// constructs of the grammar the formatter does not support: it refuses them
pub const UNSUPPORTED: &str = "anonymous,typeof,with_recvis,local_class,local_method,array_init_bare,with_datacat";

pub struct Corpus {
    pub files: Vec<(String, String)>,
    pub members: Vec<String>,
    pub stmts: Vec<String>,
    pub off: HashSet<String>,
    pub gram: gram::Gram,
}

fn walk_files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk_files(&p, out);
        } else {
            out.push(p);
        }
    }
}

impl Corpus {
    pub fn load() -> Corpus {
        let root = std::env::var("AFMT_REPO").unwrap_or_else(|_| "/repo".into());
        let mut ps = vec![];
        walk_files(&std::path::Path::new(&root).join("tests"), &mut ps);
        ps.sort();
        let mut files = vec![];
        for p in ps {
            let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("");
            if !matches!(ext, "in" | "cls" | "trigger") {
                continue;
            }
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            if ts::valid(&s) {
                files.push((p.strip_prefix(&root).unwrap_or(&p).display().to_string(), s));
            }
        }
        let mut members = BTreeSet::new();
        let mut stmts = BTreeSet::new();
        for (_, s) in &files {
            let c = strip_comments(s);
            let t = ts::parse(&c);
            if t.root_node().has_error() {
                continue;
            }
            collect(&t.root_node(), &c, &mut members, &mut stmts);
        }
        Corpus {
            files,
            members: members.into_iter().collect(),
            stmts: stmts.into_iter().collect(),
            off: UNSUPPORTED.split(',').map(|s| s.to_string()).collect(),
            gram: gram::Gram::load(),
        }
    }
    fn splice(&self, r: &mut Rng) -> String {
        let sep = |r: &mut Rng| ["\n", "\n\n", " ", "\n\n\n"][r.below(4)].to_string();
        let mut o = String::from("public class Spliced {\n");
        for _ in 0..r.below(4) {
            if let Some(m) = self.members.get(r.below(self.members.len())) {
                o.push_str(m);
                o.push_str(&sep(r));
            }
        }
        for _ in 0..r.below(3) {
            o.push_str("void m");
            o.push_str(&r.below(100).to_string());
            o.push_str("() {");
            for _ in 0..r.range(1, 7) {
                if let Some(m) = self.stmts.get(r.below(self.stmts.len())) {
                    o.push_str(&sep(r));
                    o.push_str(m);
                }
            }
            o.push_str(&sep(r));
            o.push('}');
            o.push_str(&sep(r));
        }
        o.push_str("}\n");
        o
    }
}

fn collect(n: &Node, src: &str, members: &mut BTreeSet<String>, stmts: &mut BTreeSet<String>) {
    let mut w = n.walk();
    for c in n.children(&mut w) {
        let t = &src[c.start_byte()..c.end_byte()];
        if c.is_named() && t.len() < 1500 {
            match n.kind() {
                "class_body" => {
                    if t.len() > 8 {
                        members.insert(t.to_string());
                    }
                }
                "block" | "trigger_body" => {
                    if c.kind() != "block" {
                        stmts.insert(t.to_string());
                    }
                }
                _ => {}
            }
        }
        collect(&c, src, members, stmts);
    }
}

/// replace every comment by blanks (keeping line structure of line comments)
pub fn strip_comments(src: &str) -> String {
    let mut o = String::new();
    let mut at = 0;
    for l in lex::lex(src) {
        if matches!(l.k, lex::K::Line | lex::K::Block) {
            o.push_str(&src[at..l.start]);
            o.push(' ');
            at = l.end;
        }
    }
    o.push_str(&src[at..]);
    o
}

const BODIES: &[&str] = &[
    "parser_output", "class_body", "interface_body", "enum_body", "block", "constructor_body", "switch_block", "accessor_list",
];

fn comment_text(r: &mut Rng, id: usize, line: bool) -> String {
    let words = [
        "note", "TODO: check", "it's", "a * b", "// nested", "{", "}", ";", "if (x) { y(); }", "über", "日本語", "\"q\"",
        "SELECT Id FROM A", "--", "==", "a very long comment text that runs on and on well past any sensible line width limit",
        "eine längere Bemerkung über die Überschrift, in der es um Größe und Länge geht", "\\", "\\n", "@see Foo", "$", "%s", "😀", "**bold**", "* item", "*", "\ttab", "- a\t- b", "<p>",
    ];
    let mut t = format!("zq{id}");
    for _ in 0..r.below(3) {
        t.push(' ');
        if r.pct(15) {
            t.push_str(&crate::dict::get().phrase(r));
        } else {
            t.push_str(r.pick(&words));
        }
    }
    if line {
        let lead = ["// ", "//", "///", "//   ", "////// "];
        return format!("{}{}", r.pick(&lead), t);
    }
    if r.pct(25) {
        // lines of any start: tables, code, lists, markup
        let starts = [
            "| a | b |", "+---+", "# head", "> quote", "1. one", "{@code x}", "@param x", "=====", "-----", "\\", "'", "\"", ",", ";", "(", ")", "}", "{", "[x]", "&&",
            "&nbsp;", "<b>", "~", "`code`", "!", "?", ":", ".", "...", "%", "$x", "^", "_", "/", "// x", "a", "É", "日", "0", "-", "+", "=", "*", "**", "* *", "• x",
        ];
        let leads = ["", "", " ", "  ", "\t", "    ", " *", " * ", "* ", "*", "  *  ", " **", "   * ", "\t* ", " \t"];
        let mut s = format!("/*{}{}", ["", "*", "*", "**"][r.below(4)], ["", " ", "\n", "\n * "][r.below(4)]);
        for i in 0..1 + r.below(5) {
            if i > 0 {
                s += "\n";
                s += r.pick(&leads);
            }
            if i == 0 {
                s += &t;
            } else if r.pct(85) {
                s += r.pick(&starts);
                if r.pct(40) {
                    s = format!("{s} {}", r.pick(&words));
                }
            }
            if r.pct(10) {
                s += r.pick(&[" ", "\t", "  "]);
            }
        }
        s += ["*/", " */", "\n*/", "\n */", " **/", "\n  * */"][r.below(6)];
        if s.find("*/") == Some(s.len() - 2) && !s.starts_with("/*/") {
            return s;
        }
    }
    match r.below(16) {
        0 => format!("/*{t}*/"),
        1 => format!("/* {t}\n   second line */"),
        2 => format!("/**\n * {t}\n * @param x the x\n */"),
        3 => format!("/** {t} */"),
        4 => format!("/*\n{t}\n\n  indented\n*/"),
        5 => format!("/** **{t}** and more\n\t* second */"),
        6 => format!("/*\t{t}\n\ttabbed\n\t\t* twice */"),
        7 => format!("/*******\n * {t}\n *******/"),
        8 => format!("/**\n\n {t}\n\n\n   ** two stars\n   *no blank\n*/"),
        9 => format!("/**{t}\n*   - item\n*\n*   - item **/"),
        10 => format!("/* * {t} *\n * second ***/"),
        11 => format!("/*** {t} ***/"),
        12 => format!("/**\n * {t} last words */"),
        13 => format!("/**\n * {t}\n *\n *\n */"),
        14 => format!("/**\n *\n * {t}\n * \n * x\n   \n *\n **/"),
        _ => format!("/* {t} */"),
    }
}

/// a new comment, or one that was used before
fn again(r: &mut Rng, seen: &mut Vec<String>, id: usize, line: bool) -> String {
    let old: Vec<&String> = seen.iter().filter(|t| t.starts_with("//") == line).collect();
    if !old.is_empty() && r.pct(25) {
        return r.pick(&old).to_string();
    }
    let c = comment_text(r, id, line);
    seen.push(c.clone());
    c
}

/// positions between members and statements: (offset, trailing allowed, is end of body)
fn sane_points(n: &Node, src: &str, out: &mut Vec<(usize, bool)>) {
    let mut w = n.walk();
    let kids: Vec<Node> = n.children(&mut w).collect();
    if BODIES.contains(&n.kind()) {
        // a stray `;` next to a comment is outside the domain
        let has_semi = kids.iter().any(|c| c.kind() == ";");
        if !has_semi {
            for c in &kids {
                if c.is_named() || c.kind() == "}" {
                    out.push((c.start_byte(), true));
                }
            }
            if n.kind() == "parser_output" {
                out.push((src.trim_end().len(), true));
            }
        }
    }
    for c in &kids {
        sane_points(c, src, out);
    }
}

/// Inject 1..=n comments at sane points. None when the result is not the same program.
pub fn inject_sane(src: &str, r: &mut Rng, n: usize) -> Option<String> {
    let t = ts::parse(src);
    let mut pts = vec![];
    sane_points(&t.root_node(), src, &mut pts);
    if pts.is_empty() {
        return None;
    }
    let mut chosen: Vec<(usize, String)> = vec![];
    let mut texts = vec![];
    // several at the same point
    let row = r.pct(15);
    let blank = *r.pick(&["\n", "\n", "\n", "\n\n"]);
    let mut last = *r.pick(&pts);
    for id in 0..if row { r.range(3, 9.max(n)) } else { r.range(1, n) } {
        let (p, _) = if row && r.pct(80) { last } else { *r.pick(&pts) };
        last.0 = p;
        // start of the gap between this point and the previous token
        let gap = src[..p].trim_end().len();
        let trailing = r.pct(35) && gap > 0;
        let line = r.pct(60);
        let c = again(r, &mut texts, id, line);
        if trailing {
            if chosen.iter().any(|x| x.0 == gap) {
                continue;
            }
            chosen.push((gap, format!("{}{}\n", [" ", "  ", ""][r.below(3)], c)));
        } else if !line && r.pct(25) {
            // in front of the code, on its line
            chosen.push((p, format!("{}{}{}", ["\n", "\n", " "][r.below(3)], c, [" ", "", "  "][r.below(3)])));
        } else {
            chosen.push((p, format!("{}{c}{}", r.pick(&["\n", "\n", blank]), r.pick(&["\n", "\n", blank]))));
        }
    }
    chosen.sort_by_key(|c| c.0);
    let mut o = String::new();
    let mut at = 0;
    for (p, c) in chosen {
        o.push_str(&src[at..p]);
        o.push_str(&c);
        at = p;
    }
    o.push_str(&src[at..]);
    same_program(src, &o).then_some(o)
}

/// Inject comments at arbitrary token boundaries.
pub fn inject_any(src: &str, r: &mut Rng, n: usize) -> Option<String> {
    let lx = lex::lex(src);
    if lx.len() < 3 {
        return None;
    }
    let mut o = src.to_string();
    let k = r.range(1, n);
    let punc: Vec<usize> = (1..lx.len()).filter(|&i| lx[i].k == lex::K::Sym && matches!(lx[i].t.as_str(), ";" | "," | ")" | "]" | "}" | ".")).collect();
    let mut pts: Vec<usize> = vec![];
    while pts.len() < k {
        let p = if !punc.is_empty() && r.pct(30) { lx[*r.pick(&punc)].start } else { lx[r.range(1, lx.len() - 1)].start };
        // sometimes several in a row
        let row = match r.below(100) {
            0..=3 => r.range(4, 9),
            4..=19 => r.range(2, 3),
            _ => 1,
        };
        for _ in 0..row {
            pts.push(p);
        }
    }
    pts.sort();
    // not inside a version number
    let num = |c: u8| c == b'.' || c.is_ascii_digit();
    pts.retain(|&p| !(p > 0 && num(src.as_bytes()[p - 1]) && num(src.as_bytes()[p])));
    let mut any = false;
    let mut texts = vec![];
    // all line comments, all block comments, or both
    let kind = *r.pick(&[50, 50, 50, 100, 0]);
    let blank = *r.pick(&["\n", "\n", "\n", "\n\n"]);
    for (id, p) in pts.into_iter().enumerate().rev() {
        let line = r.pct(kind);
        let c = again(r, &mut texts, id, line);
        let c = match r.below(3) {
            0 => format!("{}{c}{}", r.pick(&["\n", "\n", blank]), r.pick(&["\n", "\n", blank])),
            1 if !line => format!("{c} "),
            _ => format!(" {c}\n"),
        };
        let cand = format!("{}{}{}", &o[..p], c, &o[p..]);
        if same_program(src, &cand) {
            o = cand;
            any = true;
        }
    }
    any.then_some(o)
}

pub fn same_program(a: &str, b: &str) -> bool {
    match (ts::canon(a), ts::canon(b)) {
        (Some(x), Some(y)) => x == y,
        _ => false,
    }
}

pub fn pick_width(r: &mut Rng, src: &str, indent: u32) -> u32 {
    match r.below(10) {
        0..=2 => 80,
        3..=5 => *r.pick(&[1, 10, 20, 30, 40, 50, 60, 70, 90, 100, 120, 160, 200, 1000]),
        6 | 7 => r.range(15, 130) as u32,
        _ => {
            // a width at which some line of the output just fits or just does not
            if src.len() > 20_000 {
                return 80;
            }
            let base = *r.pick(&[100_000u32, 80, 40]);
            let Ok(o) = crate::fmt::format(src, base, indent) else { return 80 };
            let ls: Vec<usize> = o.lines().map(|l| l.chars().count()).filter(|n| *n > 12).collect();
            if ls.is_empty() {
                return 80;
            }
            let l = *r.pick(&ls) as i64 + *r.pick(&[-2i64, -1, 0, 0, 1]);
            l.max(1) as u32
        }
    }
}

pub struct Build<'a> {
    pub co: &'a Corpus,
    pub seed: u64,
    pub stream: &'a str,
    /// weights: (free, sane, any)
    pub modes: (usize, usize, usize),
    /// percent of query-heavy units
    pub queries: usize,
    pub max_budget: usize,
    /// extra generator features to switch off
    pub off: &'a [&'static str],
}

impl Build<'_> {
    /// The case with this index, or None when the draw is not a valid program.
    pub fn case(&self, idx: u64) -> Option<Case> {
        let mut r = Rng::stream(self.seed, self.stream, idx);
        let (f, s, a) = self.modes;
        let k = r.below(f + s + a);
        let mode = if k < f {
            Mode::Free
        } else if k < f + s {
            Mode::Sane
        } else {
            Mode::Any
        };
        let nf = self.co.files.len() as u64;
        let kind = r.below(100);
        let (mut src, origin);
        if idx < nf || kind < 3 && nf > 0 {
            let i = if idx < nf { idx as usize } else { r.below(nf as usize) };
            let (n, t) = &self.co.files[i];
            origin = format!("corpus {n}");
            src = t.clone();
            if mode == Mode::Any {
                // keep its own comments
                let indent = *r.pick(&[2u32, 2, 2, 4, 3, 8, 1]);
                let width = if idx < nf { 80 } else { pick_width(&mut r, &src, indent) };
                return Some(Case { src, width, indent, vseed: r.next(), mode, origin });
            }
            src = strip_comments(&src);
        } else if kind < 18 {
            origin = "splice".to_string();
            src = self.co.splice(&mut r);
        } else {
            let budget = if r.pct(10) { r.range(60, self.max_budget) } else { r.range(3, 90.min(self.max_budget)) } as i64;
            let mut off = self.co.off.clone();
            for o in self.off {
                off.insert(o.to_string());
            }
            if mode != Mode::Free {
                off.insert("class_semi".into());
                off.insert("empty_stmt".into());
            }
            let q = r.pct(self.queries);
            let gram = match std::env::var("AFMT_GRAM") {
                Ok(s) => s.parse().unwrap_or(45),
                _ => 45,
            };
            let ps = if r.pct(gram) {
                let g = &self.co.gram;
                let f = *r.pick(if q { &g.query } else { &g.focus });
                origin = format!("grammar {}", g.name(f));
                g.unit(&mut r, f, budget, mode == Mode::Free)?
            } else {
                origin = "generated".to_string();
                let mut g = gen::Gen::new(&mut r, budget, &off);
                if q {
                    g.query_unit();
                } else {
                    g.unit();
                }
                g.out
            };
            let toks = render::toks(&ps);
            let l = *r.pick(&[
                Layout::Compact, Layout::Pretty, Layout::Pretty, Layout::Wild, Layout::Wild, Layout::Blanks, Layout::Blanks,
                Layout::Blanks, Layout::Tall,
            ]);
            src = render::render(&toks, l, &mut r);
        }
        if !ts::valid(&src) {
            return None;
        }
        let mut big = false;
        let mut origin = origin;
        let more = std::env::var("AFMT_STRETCH").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
        if idx >= nf && r.pct(more) {
            if let Some(s) = crate::stretch::stretch(&src, &mut r) {
                src = s;
                big = true;
                origin = format!("stretched {origin}");
            }
        }
        match mode {
            Mode::Free => {}
            Mode::Sane => {
                let n = if big && r.pct(30) { *r.pick(&[20, 80, 300]) } else { 5 };
                src = inject_sane(&src, &mut r, n)?
            }
            Mode::Any => {
                let n = if r.pct(60) { 1 } else { 4 };
                src = inject_any(&src, &mut r, n)?
            }
        }
        let indent = *r.pick(&[2u32, 2, 2, 2, 2, 2, 2, 4, 4, 4, 3, 3, 8, 8, 1, 1, 5, 7, 12, 16, 24]);
        let width = pick_width(&mut r, &src, indent);
        Some(Case { src, width, indent, vseed: r.next(), mode, origin })
    }
}

/// may blanks stand between these two?
fn loose(a: u8, b: u8) -> bool {
    let sym = |c: u8| b"(){}[];,=+-*/<>!&|".contains(&c);
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    sym(a) && (word(b) || sym(b)) && !(b"=+-*/<>!&|".contains(&a) && b"=+-*/<>!&|".contains(&b)) || word(a) && sym(b)
}

/// Replace the whitespace between tokens: `wild` at random, otherwise one blank where there
/// was any. Line structure changes, tokens do not. Comment-free sources only.
pub fn relayout(src: &str, r: &mut Rng, wild: bool) -> Option<String> {
    if wild && r.pct(50) {
        if let Some(s) = relayout_gaps(src, r, wild, true) {
            return Some(s);
        }
    }
    relayout_gaps(src, r, wild, false)
}
/// `open`: also between tokens without any space
fn relayout_gaps(src: &str, r: &mut Rng, wild: bool, open: bool) -> Option<String> {
    let t = ts::parse(src);
    let ls = ts::leaves(&t, src);
    let mut o = String::new();
    let mut at = 0;
    // a line break in every gap
    let tall = wild && r.pct(15);
    for (s, e) in ls {
        if s < at {
            continue;
        }
        let gap = &src[at..s];
        if !gap.chars().all(|c| c.is_whitespace()) {
            // text no leaf covers (inside quotes): keep
            o.push_str(gap);
        } else if !gap.is_empty() && at > 0 {
            if src[..at].ends_with('\'') || src[s..].starts_with('\'') && false {
                o.push_str(gap);
            } else if tall {
                o.push('\n');
                for _ in 0..r.below(4) {
                    o.push(' ');
                }
            } else if wild {
                let mut nl = false;
                for _ in 0..r.range(1, 4) {
                    match r.below(5) {
                        0 if !nl => {
                            o.push('\n');
                            nl = true;
                        }
                        1 => o.push('\t'),
                        _ => o.push(' '),
                    }
                }
            } else {
                o.push(' ');
            }
        }
        else if open && at > 0 && r.pct(12) && loose(src.as_bytes()[at - 1], src.as_bytes()[s]) {
            o.push(*r.pick(&[' ', ' ', '\n', '\t']));
        }
        o.push_str(&src[s..e]);
        at = e;
    }
    o.push('\n');
    same_program(src, &o).then_some(o)
}

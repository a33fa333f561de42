//! The in-process oracles: one function per property, over one execution (or a few related
//! executions) of the formatter.
use crate::case::{self, Case, Mode};
use crate::fmt;
use crate::lex::{self, K, L};
use crate::query;
use crate::rng::Rng;
use crate::ts;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub enum V {
    /// the property was decided on this case and held; the number of things compared
    Held(usize),
    /// not in the property's domain, or the formatter refused the input
    Skip(&'static str),
    Bad { sig: String, msg: String },
}

#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub kinds: BTreeSet<(String, String)>,
}
impl Obs {
    pub fn add(&mut self, k: &str, n: usize) {
        *self.counts.entry(k.to_string()).or_default() += n as u64;
    }
}

fn bad(sig: impl Into<String>, msg: impl Into<String>) -> V {
    V::Bad { sig: sig.into(), msg: msg.into() }
}

pub fn run(prop: &str, c: &Case, o: &mut Obs) -> V {
    match prop {
        "C01" => tokens(c, o),
        "C02" => comments(c, o),
        "C03" => anchored(c, o),
        "C04" => tree(c, o),
        "C05" => idempotent(c, o),
        "C06" => layout(c, o),
        "C07" => queries(c, o),
        "C12" => determinism(c, o),
        "C13" => invalid(c, o),
        "C14" => width(c, o),
        "C15" => indentation(c, o),
        "C16" => hygiene(c, o),
        "C17" => total(c, o),
        "C18" => memory(c, o),
        "C21" => keyword_case(c, o),
        "C23" => blanks(c, o),
        "C24" => crlf(c, o),
        "C27" => locality(c, o),
        "C28" => style(c, o),
        "C29" => crate::meta::naming(c, o),
        "C30" => crate::meta::place(c, o),
        "C31" => crate::meta::noise(c, o),
        _ => panic!("unknown property {prop}"),
    }
}

fn out(c: &Case, o: &mut Obs) -> Result<String, V> {
    match fmt::format(&c.src, c.width, c.indent) {
        Ok(s) => {
            o.add("formatted", 1);
            o.add("output lines", s.lines().count());
            Ok(s)
        }
        Err(_) => {
            o.add("refused by the formatter", 1);
            Err(V::Skip("refused"))
        }
    }
}
macro_rules! get {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(v) => return v,
        }
    };
}

pub fn see(c: &Case, o: &mut Obs) -> ts::Features {
    let t = ts::parse(&c.src);
    let f = ts::features(&t, &c.src, Some(&mut o.kinds));
    o.add("syntax nodes", f.nodes);
    f
}

// ---------------------------------------------------------------- C01
/// Words whose letter case the formatter may change. Everything else is compared exactly.
const CASELESS: &[&str] = &[
    "abstract", "after", "all", "and", "as", "asc", "before", "boolean", "break", "bulk", "by", "catch", "class",
    "continue", "default", "delete", "desc", "do", "else", "enum", "extends", "false", "final", "finally", "for", "from",
    "get", "global", "group", "having", "if", "implements", "in", "inherited", "insert", "instanceof", "interface", "like",
    "limit", "merge", "new", "not", "null", "nulls", "first", "last", "offset", "on", "or", "order", "override", "package",
    "private", "protected", "public", "request", "return", "runas", "select", "set", "sharing", "static", "super", "switch",
    "system", "testmethod", "then", "this", "throw", "transient", "trigger", "true", "try", "typeof", "undelete", "update",
    "upsert", "user", "using", "version", "virtual", "void", "webservice", "when", "where", "while", "with", "without",
    "rows", "find", "returning", "fields", "scope", "view", "reference", "tracking", "viewstat", "includes", "excludes",
    "security_enforced", "user_mode", "system_mode", "rollup", "cube", "count", "data", "category", "at", "above", "below",
    "above_or_below", "division", "highlight", "metadata", "network", "pricebookid", "snippet", "spell_correction",
    "phrase", "search", "advanced", "listview", "custom", "standard", "email", "name", "phone", "sidebar", "delegated",
    "everything", "mine", "team", "mine_and_my_groups", "my_territory", "my_team_territory", "lookup", "userid",
    "target_length", "distance", "geolocation", "today", "yesterday", "tomorrow", "java", "allrows", "convertcurrency",
    "tolabel", "format", "calendar_year", "sum", "avg", "min", "max", "count_distinct", "grouping",
];
pub fn caseless(l: &str) -> bool {
    CASELESS.contains(&l)
        || crate::gram::keywords().contains(l)
        || l.starts_with("last_")
        || l.starts_with("next_")
        || l.starts_with("this_")
        || l.starts_with("n_")
        || l.chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false)
}
fn same_tok(a: &L, b: &L) -> bool {
    if a.k != b.k {
        return false;
    }
    if a.t == b.t {
        return true;
    }
    a.k == K::Word && a.t.eq_ignore_ascii_case(&b.t) && caseless(&a.t.to_lowercase())
}
fn ctx_of(v: &[L], i: usize) -> String {
    let s = i.saturating_sub(3);
    v[s.min(v.len())..(i + 4).min(v.len())].iter().map(|t| t.t.as_str()).collect::<Vec<_>>().join(" ")
}
fn first_diff(a: &[L], b: &[L]) -> Option<usize> {
    let n = a.len().max(b.len());
    (0..n).find(|&i| match (a.get(i), b.get(i)) {
        (Some(x), Some(y)) => !same_tok(x, y),
        _ => true,
    })
}
fn key(t: &L) -> String {
    let l = t.t.to_lowercase();
    if t.k == K::Word && caseless(&l) {
        l
    } else {
        t.t.clone()
    }
}
fn multiset(v: &[L]) -> BTreeMap<String, i64> {
    let mut m = BTreeMap::new();
    for t in v {
        *m.entry(key(t)).or_insert(0) += 1;
    }
    m
}

fn tokens(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    let r = get!(out(c, o));
    let a = lex::code(&c.src);
    let b = lex::code(&r);
    o.add("tokens compared", a.len());
    if first_diff(&a, &b).is_none() {
        return V::Held(a.len());
    }
    // take out what the documented normalisations touch, and only where they apply
    let clean = |v: &[L]| -> Vec<L> {
        let mut w: Vec<L> = v.to_vec();
        if f.query_parens || f.datacat_paren || f.empty_anno {
            w.retain(|t| !(t.k == K::Sym && (t.t == "(" || t.t == ")")));
        }
        if f.stray_semi {
            w.retain(|t| !(t.k == K::Sym && t.t == ";"));
        }
        if f.from_as {
            w.retain(|t| !t.t.eq_ignore_ascii_case("as"));
        }
        w
    };
    let (a2, b2) = (clean(&a), clean(&b));
    match first_diff(&a2, &b2) {
        None => {
            o.add("compared modulo a normalisation", 1);
            V::Held(a.len())
        }
        Some(i) => {
            if f.late_annotation && multiset(&a2) == multiset(&b2) {
                o.add("compared as multisets (annotation after modifier)", 1);
                return V::Held(a.len());
            }
            bad("tokens", format!("token {i}: source `{}` output `{}`\n{r}", ctx_of(&a2, i), ctx_of(&b2, i)))
        }
    }
}

// ---------------------------------------------------------------- C02, C03
fn bag(v: &[String]) -> BTreeMap<&str, i64> {
    let mut m = BTreeMap::new();
    for s in v {
        *m.entry(s.as_str()).or_insert(0) += 1;
    }
    m
}
fn comments(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let a = lex::comments(&c.src);
    if a.is_empty() {
        return V::Skip("no comment");
    }
    let r = get!(out(c, o));
    let b = lex::comments(&r);
    o.add("comments followed", a.len());
    let same = if c.mode == Mode::Sane { a == b } else { bag(&a) == bag(&b) };
    if same {
        return V::Held(a.len());
    }
    let (ma, mb) = (bag(&a), bag(&b));
    for (k, n) in &ma {
        let m = mb.get(k).copied().unwrap_or(0);
        if m < *n {
            return bad("lost", format!("comment {k:?}: {n} in the source, {m} in the output\n{r}"));
        }
        if m > *n {
            return bad("duplicated", format!("comment {k:?}: {n} in the source, {m} in the output\n{r}"));
        }
    }
    for (k, n) in &mb {
        if !ma.contains_key(k) {
            return bad("invented", format!("comment {k:?}: {n} in the output, none in the source\n{r}"));
        }
    }
    bad("order", format!("comments come out in another order: {a:?} vs {b:?}\n{r}"))
}

/// (comment, significant tokens before it, shares its line with the code before it, follows `{`,
/// 2: shares its line with the code behind it, 1: with a comment or a closing brace)
fn anchors(src: &str, source: bool) -> Vec<(String, usize, bool, bool, u8)> {
    let v = lex::lex(src);
    let mut n = 0;
    let mut o = vec![];
    let mut last_code_row = usize::MAX;
    let mut after = String::new();
    let mut comma_first = false;
    // the last row of a comment that trails code: one behind it on its line trails it, too
    let mut trail_row = usize::MAX;
    for (i, t) in v.iter().enumerate() {
        if matches!(t.k, K::Line | K::Block) {
            // likewise a block comment after the comma of a list
            let free = after == "{" || after == "," && (t.k == K::Block || comma_first);
            let trails = last_code_row == t.row || trail_row == t.row;
            trail_row = if trails { t.end_row } else { usize::MAX };
            // in the source, one behind the last line of a comment may as well belong to what follows
            let free = free || source && trails && last_code_row != t.row;
            let led = match v.get(i + 1) {
                Some(u) if u.row != t.end_row => 0,
                None => 0,
                // what may as well move to the next line
                Some(u) if u.t == "}" || matches!(u.k, K::Line | K::Block) => 1,
                _ => 2,
            };
            o.push((lex::comment_key(&t.t, &t.k), n, trails, free, led));
        } else {
            comma_first = t.row != last_code_row;
            after = if t.k == K::Sym { t.t.clone() } else { String::new() };
            if !matches!(t.t.as_str(), ";" | "(" | ")") || t.k == K::Str {
                n += 1;
            }
            last_code_row = t.end_row;
            trail_row = usize::MAX;
        }
    }
    o
}
fn anchored(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if c.mode != Mode::Sane || f.late_annotation || f.from_as {
        return V::Skip("domain");
    }
    let a = anchors(&c.src, true);
    if a.is_empty() {
        return V::Skip("no comment");
    }
    let r = get!(out(c, o));
    let b = anchors(&r, false);
    if a.len() != b.len() {
        return V::Skip("comment count differs");
    }
    o.add("comments located", a.len());
    for (x, y) in a.iter().zip(&b) {
        if x.0 != y.0 {
            return V::Skip("comment order differs");
        }
        if x.1 != y.1 {
            return bad("moved", format!("comment {:?} after token {} in the source, after token {} in the output\n{r}", x.0, x.1, y.1));
        }
        // a comment after an opening brace belongs to the body: it gets its own line
        if x.2 != y.2 && !x.3 {
            let w = if x.2 { "trailing" } else { "own-line" };
            return bad(format!("line-{w}"), format!("{w} comment {:?} changed sides\n{r}", x.0));
        }
        // one on a line of its own keeps it
        if !x.2 && x.4 == 0 && y.4 != 0 {
            return bad("led", format!("own-line comment {:?} shares its line with what is behind it\n{r}", x.0));
        }
        if !x.2 && x.4 == 2 && y.4 == 0 {
            return bad("off", format!("comment {:?} no longer shares its line with what is behind it\n{r}", x.0));
        }
    }
    V::Held(a.len())
}

// ---------------------------------------------------------------- C04
fn tree(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let Some(a) = ts::canon(&c.src) else { return V::Skip("not a program") };
    let r = get!(out(c, o));
    match ts::canon(&r) {
        None => bad("unparsable", format!("the output is not a valid program\n{r}")),
        Some(b) => {
            let n = a.count();
            o.add("tree nodes compared", n);
            match ts::diff(&a, &b, "") {
                None => V::Held(n),
                Some(d) => bad("tree", format!("{d}\n{r}")),
            }
        }
    }
}

// ---------------------------------------------------------------- C05
fn idempotent(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let r = get!(out(c, o));
    match fmt::format(&r, c.width, c.indent) {
        Err(e) => bad("refused", format!("the output is refused: {}\n{r}", first_line(&e))),
        Ok(r2) if r2 == r => V::Held(r.lines().count()),
        Ok(r2) => bad("changed", format!("{}\n{r}", line_diff(&r, &r2))),
    }
}
pub fn first_line(s: &str) -> &str {
    s.lines().find(|l| !l.trim().is_empty()).unwrap_or("")
}
pub fn line_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {x:?} vs {y:?}", i + 1);
        }
    }
    format!("{} lines vs {} lines", a.lines().count(), b.lines().count())
}

// ---------------------------------------------------------------- C06
fn layout(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if f.stray_semi {
        return V::Skip("domain");
    }
    let mut r = Rng::new(c.vseed);
    let Some(base) = case::relayout(&c.src, &mut r, false) else { return V::Skip("no variant") };
    let a = match fmt::format(&base, c.width, c.indent) {
        Ok(x) => x,
        Err(_) => return V::Skip("refused"),
    };
    o.add("formatted", 1);
    let mut n = 0;
    for k in 0..2 {
        let Some(v) = case::relayout(&c.src, &mut r, true) else { continue };
        o.add("layout variants", 1);
        n += 1;
        match fmt::format(&v, c.width, c.indent) {
            Ok(b) if a == b => {}
            Ok(b) => return bad("layout", format!("variant {k}: {}\nVARIANT\n{v}\nOUTPUT\n{b}", line_diff(&a, &b))),
            Err(e) => return bad("refused", format!("variant {k} refused: {}\n{v}", first_line(&e))),
        }
    }
    if n == 0 {
        V::Skip("no variant")
    } else {
        V::Held(n)
    }
}

// ---------------------------------------------------------------- C07
fn queries(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if !f.has_query {
        return V::Skip("no query");
    }
    // an anonymous class inside a query: its members are normalised, which is not the query's matter
    if f.anon_class && (f.late_annotation || f.stray_semi) {
        return V::Skip("domain");
    }
    let a = query::queries(&lex::code(&c.src));
    if a.is_empty() {
        return V::Skip("no query");
    }
    let r = get!(out(c, o));
    let b = query::queries(&lex::code(&r));
    o.add("queries compared", a.len());
    if a.len() != b.len() {
        return bad("count", format!("{} queries in the source, {} in the output\n{r}", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(&b) {
        if x != y {
            return bad("query", format!("source {x}\noutput {y}\n{r}"));
        }
    }
    V::Held(a.len())
}

// ---------------------------------------------------------------- C14
fn lens(s: &str) -> Vec<usize> {
    s.lines().map(|l| l.chars().count()).collect()
}
/// code token index range of each line
fn line_tokens(s: &str) -> Vec<(usize, usize)> {
    let v = lex::code(s);
    let n = s.lines().count();
    let mut o = vec![(usize::MAX, 0); n];
    for (i, t) in v.iter().enumerate() {
        if t.row < n {
            let e = &mut o[t.row];
            e.0 = e.0.min(i);
            e.1 = e.1.max(i + 1);
        }
    }
    o
}
fn width(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if c.mode != Mode::Free || f.query_parens || f.anon_class {
        return V::Skip("domain");
    }
    width_of(c, o)
}
/// The listed finding about anonymous classes: is it still there?
pub fn anonymous_class_overlong() -> Option<String> {
    let c = Case {
        src: "class likeIt{private Owner(){super(new List<boolean>{new Database.Batchable<My_Obj__c>(){virtual void ids(\
              final Decimal iffy,final Id newList,List<Account>staticKey,Long acc);},elseVal},nullable);}}"
            .into(),
        width: 80,
        indent: 2,
        vseed: 1,
        mode: Mode::Free,
        origin: "finding".into(),
    };
    match width_of(&c, &mut Obs::default()) {
        V::Bad { sig, .. } if sig == "avoidable" => Some(sig),
        _ => None,
    }
}
fn width_of(c: &Case, o: &mut Obs) -> V {
    let w = c.width as usize;
    let r = get!(out(c, o));
    let l = lens(&r);
    let m = l.iter().copied().max().unwrap_or(0);
    let mut n = 0;
    if m <= w && m > 0 {
        o.add("outputs within the width", 1);
        let mut rr = Rng::new(c.vseed);
        let mut tries = vec![m];
        if w > m + 1 {
            tries.push(rr.range(m, w));
        }
        for w2 in tries {
            if w2 == w {
                continue;
            }
            n += 1;
            o.add("narrower widths compared", 1);
            match fmt::format(&c.src, w2 as u32, c.indent) {
                Ok(r2) if r2 == r => {}
                Ok(r2) => {
                    return bad("unstable", format!("fits width {m} at {w}, differs at {w2}: {}\n{r}\nAT {w2}\n{r2}", line_diff(&r, &r2)))
                }
                Err(_) => return V::Skip("refused"),
            }
        }
    }
    if m > w {
        o.add("outputs with an overlong line", 1);
        let Ok(r1) = fmt::format(&c.src, 1, c.indent) else { return V::Skip("refused") };
        let lt = line_tokens(&r);
        let lt1 = line_tokens(&r1);
        let l1 = lens(&r1);
        let long1: Vec<(usize, usize)> = (0..l1.len()).filter(|&i| l1[i] > w).map(|i| lt1[i]).collect();
        for i in 0..l.len() {
            if l[i] > w {
                n += 1;
                o.add("overlong lines explained", 1);
                if !long1.iter().any(|x| x.0 < lt[i].1 && lt[i].0 < x.1) {
                    return bad("avoidable", format!("line {} is {} wide at width {w} though a layout within it exists\n{r}\nNARROWEST\n{r1}", i + 1, l[i]));
                }
            }
        }
    }
    // a member or statement whose layout without a width limit fits is laid out that way
    if let Ok(r3) = fmt::format(&c.src, 1_000_000, c.indent) {
        let (t, t3) = (ts::parse(&r), ts::parse(&r3));
        let (a, b) = (ts::items(&t), ts::items(&t3));
        if a.len() == b.len() {
            let l3 = lens(&r3);
            for (x, y) in a.iter().zip(&b) {
                let row = r3[..y.start].matches('\n').count();
                let last = row + r3[y.start..y.end].matches('\n').count();
                if matches!(y.body.as_str(), "accessor_list" | "enum_body") || l3[row..=last].iter().any(|k| *k > w) {
                    continue;
                }
                n += 1;
                o.add("items that fit compared", 1);
                if r[x.start..x.end] != r3[y.start..y.end] {
                    return bad("needless", format!("broken at width {w} though it fits: {:?} is laid out as {:?}\n{r}", &r3[y.start..y.end], &r[x.start..x.end]));
                }
            }
        }
    }
    V::Held(n)
}

// ---------------------------------------------------------------- C15
fn lead(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}
fn indentation(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let r = get!(out(c, o));
    let ind = c.indent as usize;
    let lx = lex::lex(&r);
    // rows inside a block comment are the author's text
    let mut inside = BTreeSet::new();
    for t in &lx {
        if t.k == K::Block {
            for x in t.row + 1..=t.end_row {
                inside.insert(x);
            }
        }
    }
    let mut n = 0;
    for (i, l) in r.lines().enumerate() {
        if l.trim().is_empty() || inside.contains(&i) {
            continue;
        }
        n += 1;
        if lead(l) % ind != 0 {
            return bad("multiple", format!("line {} is indented by {}, not a multiple of {ind}\n{r}", i + 1, lead(l)));
        }
        if l[..l.len() - l.trim_start().len()].contains('\t') {
            return bad("tab", format!("line {} is indented with a tab\n{r}", i + 1));
        }
    }
    let t = ts::parse(&r);
    if t.root_node().has_error() {
        return V::Skip("output unparsable");
    }
    let rows: Vec<&str> = r.lines().collect();
    for it in ts::items(&t) {
        n += 1;
        let ls = r[..it.start].rfind('\n').map(|p| p + 1).unwrap_or(0);
        let first = r[ls..it.start].trim().is_empty();
        if !first {
            // one-line accessor lists and enums; a comment may precede
            if it.body == "accessor_list" || it.body == "enum_body" || !lx.iter().any(|t| !matches!(t.k, K::Line | K::Block) && t.start >= ls && t.start < it.start) {
                continue;
            }
            return bad(
                format!("not first {} {}", it.body, it.kind),
                format!("{} of {} does not start its line: {:?}\n{r}", it.kind, it.body, &r[ls..it.start]),
            );
        }
        let want = if it.body == "parser_output" { 0 } else { lead(rows[it.end_row]) + ind };
        if it.col != want {
            return bad(
                format!("column {} {}", it.body, it.kind),
                format!("{} starts at column {}, expected {want} (indent {ind})\n{r}", it.kind, it.col),
            );
        }
        // none of its lines is to the left of it
        let at = r[..it.start].matches('\n').count();
        let to = r[..it.end].matches('\n').count();
        for i in at + 1..=to.min(rows.len() - 1) {
            if !rows[i].trim().is_empty() && !inside.contains(&i) && lead(rows[i]) < it.col {
                return bad(
                    format!("left {} {}", it.body, it.kind),
                    format!("a line of {} is to the left of its first: {:?}\n{r}", it.kind, rows[i]),
                );
            }
        }
        // a line that goes on with what began before is to the right of it
        let goes_on = if matches!(it.kind.as_str(), "local_variable_declaration" | "field_declaration") {
            t.root_node()
                .descendant_for_byte_range(it.start, it.end)
                .and_then(|x| x.child_by_field_name("declarator"))
                .map_or(usize::MAX, |x| x.start_position().row)
        } else {
            usize::MAX
        };
        for i in at + 1..=to.min(rows.len() - 1) {
            let l = rows[i].trim_start();
            let on = l.starts_with('.') || l.starts_with("?.") || i > goes_on && !l.starts_with([')', ']', '}', '>', '{']) && !l.is_empty();
            if it.kind != "block" && on && !inside.contains(&i) && lead(rows[i]) <= it.col {
                return bad(
                    format!("continued {} {}", it.body, it.kind),
                    format!("a line that continues a {} is not to the right of it: {:?}\n{r}", it.kind, rows[i]),
                );
            }
        }
        if it.pure && it.col != it.depth * ind {
            return bad(
                format!("depth {} {}", it.body, it.kind),
                format!("{} at depth {} starts at column {}, indent {ind}\n{r}", it.kind, it.depth, it.col),
            );
        }
    }
    // so is a statement that is the body of another without braces
    let mut todo = vec![t.root_node()];
    while let Some(x) = todo.pop() {
        let mut w = x.walk();
        let ch: Vec<_> = x.children(&mut w).collect();
        for k in ch.windows(2) {
            let s = k[1];
            let row = s.start_position().row;
            let of = matches!(x.kind(), "if_statement" | "while_statement" | "for_statement" | "enhanced_for_statement");
            let at = x.start_position();
            let begins = matches!(rows[at.row][..at.column].trim(), "" | "else" | "} else");
            if of && begins && s.is_named() && s.kind().ends_with("_statement") && !k[0].is_extra() && k[0].end_position().row < row && !inside.contains(&at.row) {
                n += 1;
                let want = lead(rows[at.row]) + ind;
                let left = (row + 1..=s.end_position().row).find(|i| !rows[*i].trim().is_empty() && !inside.contains(i) && lead(rows[*i]) < want);
                let i = if s.start_position().column != want { Some(row) } else { left };
                if let Some(i) = i {
                    return bad(
                        format!("unbraced {} {}", x.kind(), s.kind()),
                        format!("a line of a {} without braces around it is left of column {want}: {:?}\n{r}", s.kind(), rows[i]),
                    );
                }
            }
        }
        todo.extend(ch);
    }
    // what a bracket at the start of a line opens is deeper than it, and not closed to the left of it
    let starts: Vec<usize> = std::iter::once(0).chain(r.match_indices('\n').map(|x| x.0 + 1)).collect();
    let mut open: Vec<&lex::L> = vec![];
    for (i, x) in lx.iter().enumerate() {
        if x.k != K::Sym {
            continue;
        }
        match x.t.as_str() {
            "(" | "[" | "{" => open.push(x),
            ")" | "]" | "}" => {
                let Some(y) = open.pop() else { break };
                let begins = lx.get(i.wrapping_sub(1)).is_none_or(|p| p.end_row < x.row);
                if y.row == x.row || !begins || y.start != starts[y.row] + lead(rows[y.row]) {
                    continue;
                }
                o.add("brackets closed on a later line", 1);
                let (a, b) = (lead(rows[y.row]), lead(rows[x.row]));
                if b < a {
                    return bad(format!("bracket {}", y.t), format!("{:?} opened at {a}, closed at {b}: {:?}\n{r}", rows[y.row], rows[x.row]));
                }
                for k in y.row + 1..x.row {
                    if !rows[k].trim().is_empty() && !inside.contains(&k) && lead(rows[k]) < a + ind {
                        return bad(format!("in bracket {}", y.t), format!("not deeper than its bracket: {:?}\n{r}", rows[k]));
                    }
                }
            }
            _ => {}
        }
    }
    o.add("lines and items checked", n);
    // the indent size only scales the indentation
    if c.mode == Mode::Free {
        let big = 1_000_000;
        let (Ok(x), Ok(y)) = (fmt::format(&c.src, big, 1), fmt::format(&c.src, big, c.indent)) else {
            return V::Skip("refused");
        };
        o.add("indent sizes compared", 1);
        let (xl, yl): (Vec<&str>, Vec<&str>) = (x.lines().collect(), y.lines().collect());
        if xl.len() != yl.len() {
            return bad("scale", format!("line counts differ between indent 1 and {ind}\n{x}\n{y}"));
        }
        for (p, q) in xl.iter().zip(&yl) {
            if p.trim_start() != q.trim_start() || lead(p) * ind != lead(q) {
                return bad("scale", format!("indent 1: {p:?} indent {ind}: {q:?}\n{y}"));
            }
        }
    }
    V::Held(n)
}

// ---------------------------------------------------------------- C16
fn hygiene(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let r = get!(out(c, o));
    let lx = lex::lex(&r);
    let mut inside = BTreeSet::new();
    for t in &lx {
        if t.k == K::Block {
            for x in t.row..t.end_row {
                inside.insert(x); // the end of this row is inside the comment
            }
        }
    }
    if !r.ends_with('\n') {
        return bad("end", format!("no newline at the end\n{r}"));
    }
    if r.ends_with("\n\n") {
        return bad("end", format!("blank line at the end\n{r}"));
    }
    if r.starts_with('\n') && r.len() > 1 {
        return bad("start", format!("blank line at the start\n{r}"));
    }
    if r.contains('\r') {
        return bad("cr", format!("carriage return in the output\n{r}"));
    }
    let ls: Vec<&str> = r.lines().collect();
    for (i, l) in ls.iter().enumerate() {
        if inside.contains(&i) {
            continue;
        }
        if l.ends_with(' ') || l.ends_with('\t') {
            return bad("trailing", format!("line {} ends in blanks: {l:?}\n{r}", i + 1));
        }
        if l.is_empty() && i + 1 < ls.len() && ls[i + 1].is_empty() && !inside.contains(&(i + 1)) {
            return bad("blank lines", format!("two blank lines at {}\n{r}", i + 1));
        }
    }
    for (a, b) in lx.iter().zip(lx.iter().skip(1)) {
        if matches!(a.k, K::Line | K::Block) || matches!(b.k, K::Line | K::Block) {
            continue;
        }
        let gap = &r[a.end..b.start];
        if gap.contains('\t') {
            return bad("tab", format!("tab between {:?} and {:?}\n{r}", a.t, b.t));
        }
        if !gap.contains('\n') && gap.len() > 1 {
            return bad("gap", format!("{} blanks between {:?} and {:?}\n{r}", gap.len(), a.t, b.t));
        }
        if a.k == K::Sym && a.t == "{" && gap.matches('\n').count() > 1 {
            return bad("blank after {", format!("blank line after an opening brace, line {}\n{r}", a.row + 1));
        }
        if b.k == K::Sym && b.t == "}" && gap.matches('\n').count() > 1 {
            return bad("blank before }", format!("blank line before a closing brace, line {}\n{r}", b.row + 1));
        }
        // spacing every style agrees on
        if b.k == K::Sym
            && (b.t == ";" || b.t == ",")
            && !gap.is_empty()
            && !(b.t == ";" && a.k == K::Sym && (a.t == ";" || a.t == "("))
        {
            return bad("before ;,", format!("space before {:?} on line {}\n{r}", b.t, b.row + 1));
        }
        if a.k == K::Sym && (a.t == ",") && gap.is_empty() {
            return bad("after ,", format!("no space after a comma on line {}\n{r}", a.row + 1));
        }
    }
    o.add("lines checked", ls.len());
    o.add("token gaps checked", lx.len());
    V::Held(ls.len())
}

// ---------------------------------------------------------------- C17
fn total(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    match fmt::format(&c.src, c.width, c.indent) {
        Ok(r) => {
            o.add("formatted", 1);
            if r.trim().is_empty() && !c.src.trim().is_empty() {
                return bad("empty", "empty output".to_string());
            }
            V::Held(f.nodes)
        }
        Err(e) => bad(format!("refused {}", first_line(&e).chars().take(60).collect::<String>()), e),
    }
}

// ---------------------------------------------------------------- C18
/// Whatever the bytes, the call comes back with text or with an error; run under sanitizers.
fn memory(c: &Case, o: &mut Obs) -> V {
    let mut r = Rng::new(c.vseed);
    let mut v = vec![("as drawn", c.src.clone())];
    for _ in 0..2 {
        v.push(("broken", break_program(&c.src, &mut r).0));
    }
    let chars: Vec<char> = c.src.chars().collect();
    let mut h: Vec<char> = chars.clone();
    for _ in 0..r.range(1, 6) {
        let at = r.below(h.len() + 1);
        let x = *r.pick(&['\u{0}', '\u{feff}', '\u{10ffff}', 'é', '\u{2028}', '\'', '\\', '/', '*', '\r', '\u{7f}', '{', '\u{301}', '"']);
        for _ in 0..r.range(1, 3) {
            h.insert(at, x);
        }
    }
    v.push(("odd characters", h.into_iter().collect()));
    let mut h = chars;
    for _ in 0..r.range(1, 4) {
        if h.len() > 2 {
            let (a, b) = (r.below(h.len()), r.below(h.len()));
            let (a, b) = (a.min(b), a.max(b));
            if r.pct(50) {
                h.drain(a..b.min(a + 40));
            } else {
                let w: Vec<char> = h[a..b.min(a + 60)].to_vec();
                let at = r.below(h.len());
                h.splice(at..at, w);
            }
        }
    }
    v.push(("pieces moved", h.into_iter().collect()));
    for (how, s) in &v {
        match fmt::format(s, c.width, c.indent) {
            Ok(t) => {
                o.add(&format!("formatted: {how}"), 1);
                if std::str::from_utf8(t.as_bytes()).is_err() {
                    return bad("utf8", "the output is not valid UTF-8".to_string());
                }
            }
            Err(_) => o.add(&format!("refused: {how}"), 1),
        }
    }
    V::Held(v.len())
}

// ---------------------------------------------------------------- C21
pub fn recase(src: &str, r: &mut Rng) -> Option<(String, usize)> {
    let t = ts::parse(src);
    let ks = ts::keywords(&t, src);
    let mut o = String::new();
    let mut at = 0;
    let mut n = 0;
    for (s, e) in ks {
        o.push_str(&src[at..s]);
        let w = &src[s..e];
        let nw: String = match r.below(4) {
            0 => w.to_uppercase(),
            1 => w.to_lowercase(),
            2 => w.to_string(),
            _ => w.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        };
        n += (nw != w) as usize;
        o.push_str(&nw);
        at = e;
    }
    o.push_str(&src[at..]);
    (n > 0 && case::same_program(src, &o)).then_some((o, n))
}
/// Words of queries and DML, and the literals, are printed as the author spelled them.
fn keeps_spelling(w: &str) -> bool {
    const KEEP: &[&str] = &[
        "all", "asc", "delegated", "desc", "else", "email", "everything", "excludes", "false", "first", "get", "in",
        "includes", "last", "like", "mine", "name", "not", "null", "nulls", "phone", "reference", "security_enforced",
        "set", "sidebar", "system", "system_mode", "team", "today", "tomorrow", "tracking", "true", "update", "user",
        "user_mode", "view", "viewstat", "void", "yesterday", "custom", "standard", "mine_and_my_groups",
        "my_territory", "my_team_territory",
    ];
    KEEP.contains(&w) || ["last_", "this_", "next_", "n_"].iter().any(|p| w.starts_with(p))
}
fn keyword_case(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let mut r = Rng::new(c.vseed);
    let Some((v, n)) = recase(&c.src, &mut r) else { return V::Skip("no variant") };
    let a = get!(out(c, o));
    o.add("keywords recased", n);
    match fmt::format(&v, c.width, c.indent) {
        Err(e) => bad("refused", format!("refused after changing the case of keywords: {}\n{v}", first_line(&e))),
        Ok(b) if a == b => V::Held(n),
        // same layout; only words whose spelling is the author's may keep their case
        Ok(b) if a.eq_ignore_ascii_case(&b) => {
            for (x, y) in lex::code(&a).iter().zip(lex::code(&b)) {
                if x.t != y.t && !keeps_spelling(&x.t.to_lowercase()) {
                    return bad("case", format!("the case of `{}` follows the source: {}\nVARIANT\n{v}", x.t, line_diff(&a, &b)));
                }
            }
            o.add("equal up to words printed as written", 1);
            V::Held(n)
        }
        Ok(b) => bad("keywords", format!("{}\nVARIANT\n{v}\nOUTPUT\n{b}", line_diff(&a, &b))),
    }
}

// ---------------------------------------------------------------- C23
fn gaps(src: &str) -> Option<Vec<(String, String, usize, usize)>> {
    let t = ts::parse(src);
    if t.root_node().has_error() {
        return None;
    }
    let mut v = vec![];
    for it in ts::items(&t) {
        let gap = &src[it.prev_end.min(it.start)..it.start];
        let nl = gap.matches('\n').count();
        v.push((it.body, it.kind, it.idx, nl));
    }
    Some(v)
}
/// the gaps between neighbours, comments included: (what, blank line)
fn around(src: &str) -> Option<Vec<(String, bool)>> {
    fn go(n: &tree_sitter::Node, src: &str, v: &mut Vec<(String, bool)>) {
        let mut w = n.walk();
        let kids: Vec<_> = n.children(&mut w).collect();
        let k = n.kind();
        let body = matches!(k, "class_body" | "interface_body" | "block" | "constructor_body" | "parser_output");
        let short = |x: &tree_sitter::Node| if x.is_extra() { x.kind().to_string() } else { "item".to_string() };
        for i in 0..kids.len() {
            if body && i > 0 && kids[i - 1].is_named() && kids[i].is_named() {
                let (a, b) = (&kids[i - 1], &kids[i]);
                let gap = &src[a.end_byte().min(b.start_byte())..b.start_byte()];
                let nl = gap.matches('\n').count();
                // a trailing comment, or code behind a block comment
                let same = nl == 0;
                if (k != "parser_output" || a.is_extra() || b.is_extra()) && !same {
                    v.push((format!("{k}: {} {}", short(a), short(b)), nl > 1));
                } else {
                    v.push(("-".into(), false));
                }
            }
            go(&kids[i], src, v);
        }
    }
    let t = ts::parse(src);
    if t.root_node().has_error() {
        return None;
    }
    let mut v = vec![];
    go(&t.root_node(), src, &mut v);
    Some(v)
}
fn blanks(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if f.stray_semi || c.mode == Mode::Any || f.late_annotation && c.mode != Mode::Free {
        return V::Skip("domain");
    }
    let r = get!(out(c, o));
    if c.mode == Mode::Sane {
        let (Some(a), Some(b)) = (around(&c.src), around(&r)) else { return V::Skip("unparsable") };
        if a.len() != b.len() {
            return V::Skip("items differ");
        }
        let mut n = 0;
        for (x, y) in a.iter().zip(&b) {
            if x.0 == "-" || y.0 == "-" {
                continue;
            }
            n += 1;
            if x.1 != y.1 {
                let w = if x.1 { "lost" } else { "added" };
                return bad(format!("{w} {}", x.0), format!("blank line {w} between neighbours: {}\n{r}", x.0));
            }
            o.add(if x.1 { "blank lines next to comments kept" } else { "adjacent next to comments kept" }, 1);
        }
        return V::Held(n);
    }
    let (Some(a), Some(b)) = (gaps(&c.src), gaps(&r)) else { return V::Skip("unparsable") };
    if a.len() != b.len() {
        return V::Skip("items differ");
    }
    let mut n = 0;
    for (x, y) in a.iter().zip(&b) {
        if x.0 != y.0 || x.2 == 0 || !matches!(x.0.as_str(), "class_body" | "interface_body" | "block" | "constructor_body") {
            continue;
        }
        n += 1;
        let (p, q) = (x.3 > 1, y.3 > 1);
        if p && !q {
            return bad(format!("lost {} {}", x.0, x.1), format!("blank line before {} of {} lost\n{r}", x.1, x.0));
        }
        if !p && q {
            return bad(format!("added {} {}", x.0, x.1), format!("blank line before {} of {} added\n{r}", x.1, x.0));
        }
        o.add(if p { "blank lines kept" } else { "adjacent kept" }, 1);
    }
    V::Held(n)
}

// ---------------------------------------------------------------- C24
fn crlf(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let a = get!(out(c, o));
    let v = c.src.replace("\r\n", "\n").replace('\n', "\r\n");
    match fmt::format(&v, c.width, c.indent) {
        Err(e) => bad("refused", format!("refused with CRLF: {}", first_line(&e))),
        Ok(b) if a == b => V::Held(c.src.matches('\n').count()),
        Ok(b) => bad("crlf", format!("{}\n{b}", line_diff(&a, &b))),
    }
}

// ---------------------------------------------------------------- C12
fn determinism(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let a = fmt::format(&c.src, c.width, c.indent).map_err(|_| ());
    // the same again while other threads format other things
    let mut r = Rng::new(c.vseed);
    let others: Vec<(String, u32)> = (0..3)
        .map(|k| {
            let s = match k {
                0 => c.src.clone(),
                1 => "class A { // c\n void m(Integer a) { return; } }".to_string(),
                _ => format!("class B {{ Integer x{} = 1; }}", r.below(100)),
            };
            (s, r.range(1, 200) as u32)
        })
        .collect();
    let again: Vec<Result<String, ()>> = std::thread::scope(|sc| {
        for (s, w) in &others {
            sc.spawn(move || {
                let _ = fmt::format(s, *w, 2);
            });
        }
        let hs: Vec<_> = (0..2).map(|_| sc.spawn(|| fmt::format(&c.src, c.width, c.indent).map_err(|_| ()))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err(()))).collect()
    });
    let last = fmt::format(&c.src, c.width, c.indent).map_err(|_| ());
    o.add("repetitions compared", 3);
    for b in again.iter().chain([&last]) {
        match (&a, b) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(_), Err(_)) => {}
            (Ok(x), Ok(y)) => return bad("differs", format!("two runs differ: {}\n{x}", line_diff(x, y))),
            _ => return bad("verdict", "formatted in one run and refused in another".to_string()),
        }
    }
    if a.is_err() {
        o.add("refused every time", 1);
    }
    // and in a process of its own, whatever surrounds it
    if r.below(12) == 0 && c.src.len() < 50_000 {
        if let Some((b, env)) = elsewhere(c, &mut r) {
            o.add("compared with a process in another environment", 1);
            match (&a, &b) {
                (Ok(x), Ok(y)) if x == y => {}
                (Err(_), Err(_)) => {}
                (Ok(x), Ok(y)) => return bad("environment", format!("with {env:?} the output differs: {}\n{x}", line_diff(x, y))),
                _ => return bad("environment verdict", format!("formatted or refused depending on {env:?}")),
            }
        }
    }
    V::Held(3)
}
fn elsewhere(c: &Case, r: &mut Rng) -> Option<(Result<String, ()>, Vec<(&'static str, String)>)> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    static HOME: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    let home = HOME.get_or_init(|| {
        let exe = std::env::current_exe().unwrap_or_default();
        crate::cli::home(exe.parent().unwrap_or(std::path::Path::new("/nonexistent")))
    });
    let mut env = crate::cli::ambient(r, home);
    env.push(("PATH", "/usr/bin:/bin".into()));
    let cwd = *r.pick(&["/", "/tmp", "/usr"]);
    let mut ch = Command::new(std::env::current_exe().ok()?)
        .args(["fmt", &c.width.to_string(), &c.indent.to_string()])
        .env_clear()
        .env("RUST_BACKTRACE", "0")
        .envs(env.clone())
        .current_dir(if r.pct(30) { home.clone() } else { cwd.into() })
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let (mut i, src) = (ch.stdin.take()?, c.src.clone());
    let t = std::thread::spawn(move || {
        let _ = i.write_all(src.as_bytes());
    });
    let mut b = String::new();
    let read = ch.stdout.take()?.read_to_string(&mut b);
    let _ = t.join();
    let code = ch.wait().ok()?.code();
    read.ok()?;
    match code {
        Some(0) => Some((Ok(b), env)),
        Some(3) => Some((Err(()), env)),
        _ => None,
    }
}

// ---------------------------------------------------------------- C13
/// One or two token-level edits of a valid program.
pub fn break_program(src: &str, r: &mut Rng) -> (String, &'static str) {
    let l = lex::lex(src);
    let l: Vec<&L> = l.iter().filter(|t| !matches!(t.k, K::Line | K::Block)).collect();
    if l.is_empty() {
        return ("}".into(), "empty");
    }
    let i = r.below(l.len());
    let t = l[i];
    let cut = |a: usize, b: usize, m: &str| format!("{}{}{}", &src[..a], m, &src[b..]);
    match r.below(9) {
        0 | 1 => {
            // one delimiter removed: often the parser inserts the missing token
            let d: Vec<&&L> = l.iter().filter(|t| t.k == K::Sym && ";{}()[],".contains(&t.t)).collect();
            if d.is_empty() {
                return (cut(t.start, t.end, " "), "token removed");
            }
            let t = d[r.below(d.len())];
            (cut(t.start, t.end, " "), "delimiter removed")
        }
        2 => (cut(t.start, t.end, " "), "token removed"),
        3 => (cut(t.end, t.end, &format!(" {}", t.t)), "token repeated"),
        4 => (cut(t.start, t.start, r.pick(&[" } ", " ) ", " { ", " ( ", " ' ", " /* ", " @ ", " # ", " ?? ", " \u{0} ", " ] ", " ; ", " , ", ",", " = ", " + ", " -> ", " :: ", " : ", " . ", "\\", "`", " \" ", " ~ ", " % ", "\u{201c}", "\u{a0}", " :x ", " 1 ", " x "])), "symbol inserted"),
        5 => {
            let w = *r.pick(&["class", "if", "else", "for", "SELECT", "FROM", "new", "return", "catch", "when"]);
            (cut(t.start, t.end, &format!(" {w} ")), "token replaced by a keyword")
        }
        6 => {
            let mut e = t.start;
            while !src.is_char_boundary(e) {
                e -= 1;
            }
            (src[..e].to_string(), "cut off")
        }
        7 if i + 1 < l.len() => {
            let u = l[i + 1];
            (format!("{}{}{}{}{}", &src[..t.start], u.t, &src[t.end..u.start], t.t, &src[u.end..]), "tokens swapped")
        }
        _ => (format!("{src}\n{}", r.pick(&["}", ")", "xyz", "class", "int x", "public", "'", ",", "@", "@x", "/*", "{", "}}", "\\", "\u{1}", "class A {", "x = 1", "1"])), "text appended"),
    }
}
fn invalid(c: &Case, o: &mut Obs) -> V {
    let mut r = Rng::new(c.vseed);
    let mut n = 0;
    for _ in 0..3 {
        let (v, how) = break_program(&c.src, &mut r);
        if ts::valid(&v) {
            o.add("edit left a valid program", 1);
            continue;
        }
        n += 1;
        o.add(&format!("invalid by: {how}"), 1);
        let missing = ts::only_missing(&v);
        if missing {
            o.add("repaired by the parser with a missing token", 1);
        }
        if let Ok(r) = fmt::format(&v, c.width, c.indent) {
            return bad("accepted", format!("an invalid program ({how}) was formatted\nINPUT\n{v}\nOUTPUT\n{r}"));
        }
    }
    if n == 0 {
        V::Skip("no invalid edit")
    } else {
        V::Held(n)
    }
}

// ---------------------------------------------------------------- C28
struct Leaf<'a> {
    n: tree_sitter::Node<'a>,
    class: String,
}
fn leaves<'a>(t: &'a tree_sitter::Tree, src: &str) -> Vec<Leaf<'a>> {
    let mut v = vec![];
    let mut c = t.walk();
    loop {
        let n = c.node();
        let whole = n.child_count() == 0 || n.is_extra() || ts::is_literal(n.kind());
        if whole {
            if n.end_byte() > n.start_byte() {
                let text = &src[n.start_byte()..n.end_byte()];
                let class = if n.is_extra() {
                    "comment".to_string()
                } else if n.is_named() && n.kind() != text.to_lowercase() {
                    format!("{}", n.kind())
                } else {
                    text.to_lowercase()
                };
                v.push(Leaf { n, class });
            }
        } else if c.goto_first_child() {
            continue;
        }
        loop {
            if c.goto_next_sibling() {
                break;
            }
            if !c.goto_parent() {
                return v;
            }
        }
    }
}
/// The gaps that the style allows between two neighbouring tokens, as a set of
/// N(othing), B(lank), L(ine break); None where the style leaves it open.
const N: u8 = 1;
const B: u8 = 2;
const L: u8 = 4;
fn allowed(up: tree_sitter::Node, a: &Leaf, b: &Leaf) -> Option<(&'static str, u8)> {
    let k = up.kind();
    let (x, y) = (a.class.as_str(), b.class.as_str());
    let direct = |l: &Leaf| l.n.parent().is_some_and(|p| p == up);
    let (ax, by) = (direct(a) && !a.n.is_named(), direct(b) && !b.n.is_named());
    let word = |s: &str| s.bytes().all(|c| c.is_ascii_alphabetic());
    let body = matches!(k, "block" | "class_body" | "constructor_body" | "interface_body" | "switch_block" | "trigger_body");
    if y == "," {
        return Some(("before a comma", N));
    }
    if y == ";" && !(k == "for_statement" && by) {
        return Some(("before a semicolon", N | if body { L } else { 0 }));
    }
    if x == "," {
        return Some(("after a comma", if matches!(k, "type_arguments" | "type_list") { B } else if k == "enum_body" { L } else { B | L }));
    }
    if ax && x == "(" || by && y == ")" {
        let open = matches!(
            k,
            "annotation_argument_list" | "argument_list" | "for_statement" | "formal_parameters" | "function_expression"
                | "parenthesized_expression" | "sobject_return" | "subquery" | "trigger_declaration" | "with_data_cat_filter"
                | "comparable_list"
        );
        return Some(("inside parentheses", if open { N | L } else { N }));
    }
    if ax && x == "[" || by && y == "]" {
        return Some(("inside brackets", if k == "query_expression" { N | L } else { N }));
    }
    if x == "." || x == "?." || x == "safe_navigation_operator" || x == "@" {
        return Some(("after a dot or an at sign", N));
    }
    if y == "." || y == "?." || y == "safe_navigation_operator" {
        return Some(("before a dot", if matches!(k, "field_access" | "method_invocation") { N | L } else { N }));
    }
    match k {
        "type_arguments" if ax && x == "<" || by && y == ">" => return Some(("inside angle brackets", N)),
        "type_parameters" if ax && x == "<" || by && y == ">" => return Some(("inside angle brackets", N | L)),
        "generic_type" if y == "<" => return Some(("before angle brackets", N)),
        "array_type" if y == "[" => return Some(("before brackets", N)),
        "array_access" | "dimensions" if y == "[" => return Some(("before brackets", N)),
        "binary_expression" if ax => return Some(("after a binary operator", B)),
        "binary_expression" if by => return Some(("before a binary operator", B | L)),
        "ternary_expression" if ax && (x == "?" || x == ":") => return Some(("after ? or : of a choice", B)),
        "ternary_expression" if by && (y == "?" || y == ":") => return Some(("before ? or : of a choice", B | L)),
        "instanceof_expression" | "map_key_initializer" => return Some(("around instanceof and =>", B)),
        "enhanced_for_statement" if ax && x == ":" || by && y == ":" => return Some(("around : of a for", B)),
        "bound_apex_expression" if ax => return Some(("after : of a bound expression", N)),
        "assignment_expression" | "variable_declarator" if y == "assignment_operator" => {
            return Some(("before an assignment operator", B))
        }
        "assignment_expression" | "variable_declarator" if x == "assignment_operator" => {
            return Some(("after an assignment operator", B | L))
        }
        "annotation_key_value" => return Some(("around = of an annotation", N)),
        "update_expression" => return Some(("around ++ and --", N)),
        "unary_expression" if ax => {
            return Some(("after a sign", if (x == "+" || x == "-") && y.starts_with(x) { B } else { N }))
        }
        "cast_expression" if ax && x == ")" => return Some(("after a cast", B)),
        _ => {}
    }
    if k.ends_with("comparison_expression") || k.starts_with("with_") || k.starts_with("using_") {
        if matches!(x, "=" | "!=" | "<>" | "<" | ">" | "<=" | ">=") || matches!(y, "=" | "!=" | "<>" | "<" | ">" | "<=" | ">=") {
            return Some(("around a comparison of a query", B));
        }
    }
    if y == "(" {
        match k {
            "method_invocation" | "method_declaration" | "constructor_declaration" | "object_creation_expression"
            | "explicit_constructor_invocation" | "annotation" | "trigger_declaration" | "run_as_statement"
            | "count_expression" | "fields_expression" | "function_expression" | "geo_location_type" => {
                return Some(("before the parenthesis of a call or declaration", N))
            }
            "if_statement" | "while_statement" | "do_statement" | "for_statement" | "enhanced_for_statement"
            | "catch_clause"
                if ax && word(x) && x != "else" =>
            {
                return Some(("between a keyword and its parenthesis", B))
            }
            _ => {}
        }
    }
    if y == "{" {
        match k {
            "array_creation_expression" | "map_creation_expression" => return Some(("before the brace of values", N)),
            "class_declaration" | "interface_declaration" | "method_declaration" | "constructor_declaration"
            | "trigger_declaration" | "if_statement" | "while_statement" | "do_statement" | "for_statement"
            | "enhanced_for_statement" | "try_statement" | "catch_clause" | "finally_clause" | "run_as_statement"
            | "static_initializer" | "switch_expression" | "switch_rule" | "field_declaration" | "accessor_declaration" => {
                return Some(("before the brace of a body", B))
            }
            _ => {}
        }
    }
    if x == "}" && matches!(y, "else" | "catch" | "finally" | "while") && matches!(k, "if_statement" | "try_statement" | "do_statement")
        && b.n.prev_sibling().is_none_or(|p| p.kind() == "block")
    {
        return Some(("between a body and else, catch, finally or while", B));
    }
    match k {
        "array_initializer" | "map_initializer" if ax && x == "{" || by && y == "}" => {
            return Some(("inside the braces of values", if x == "{" && y == "}" { N } else { B | L }))
        }
        "accessor_list" if ax || by => return Some(("inside the braces of a property", B | L)),
        "accessor_list" => return Some(("between accessors", B | L)),
        _ if body || k == "enum_body" && (x == "{" || y == "}") => return Some(("between the items of a body", L)),
        _ => {}
    }
    if !a.n.is_named()
        && matches!(
            x,
            "abstract" | "as" | "class" | "delete" | "do" | "enum" | "extends" | "find" | "for" | "from" | "global"
                | "implements" | "in" | "insert" | "interface" | "like" | "limit" | "merge" | "new" | "not" | "offset"
                | "override" | "private" | "protected" | "public" | "return" | "static" | "switch" | "testmethod" | "throw"
                | "transient" | "trigger" | "try" | "undelete" | "upsert" | "using" | "virtual" | "webservice" | "when"
                | "while" | "with" | "final" | "finally" | "catch"
        )
        && y != "<"
        && (x != "class" || k == "class_declaration")
    {
        return Some(("after a keyword", B));
    }
    None
}
fn style(c: &Case, o: &mut Obs) -> V {
    see(c, o);
    let r = get!(out(c, o));
    let t = ts::parse(&r);
    let v = leaves(&t, &r);
    let mut first: Option<(String, String)> = None;
    // comments are set off by one blank or on lines of their own; where a comment splits an
    // expression, only what ends a piece of code is kept apart from it
    let lx = crate::lex::lex(&r);
    let is = |x: &crate::lex::L| matches!(x.k, crate::lex::K::Line | crate::lex::K::Block);
    for p in lx.windows(2) {
        let (a, b) = (&p[0], &p[1]);
        if !is(a) && !is(b) || c.mode == Mode::Any && !(is(b) && matches!(a.t.as_str(), ";" | ",")) {
            continue;
        }
        o.add("comment gaps", 1);
        let gap = &r[a.end..b.start];
        if gap != " " && !gap.contains('\n') {
            let s = format!("{} {} a comment", if gap.is_empty() { "nothing" } else { "several blanks" }, if is(b) { "in front of" } else { "behind" });
            first.get_or_insert((s, lines_at(&r, a.start)));
        }
    }
    for p in v.windows(2) {
        let (a, b) = (&p[0], &p[1]);
        if a.class == "comment" || b.class == "comment" || c.mode == Mode::Any {
            continue;
        }
        let gap = &r[a.n.end_byte()..b.n.start_byte()];
        if gap.bytes().any(|c| !c.is_ascii_whitespace()) {
            continue; // a token that the grammar hides
        }
        let g = if gap.contains('\n') { L } else if gap.is_empty() { N } else if gap == " " { B } else { 0 };
        let mut up = a.n;
        while up.end_byte() < b.n.end_byte() {
            match up.parent() {
                Some(x) => up = x,
                None => break,
            }
        }
        o.add("gaps", 1);
        let name = |g: u8| match g { N => "nothing", B => "one blank", L => "a line break", _ => "several blanks" };
        let rule = allowed(up, a, b);
        if let Some((rule, set)) = rule {
            o.add("gaps judged", 1);
            o.kinds.insert((rule.to_string(), format!("{} {} {}", up.kind(), a.class, b.class)));
            if g & set == 0 {
                let s = format!("{rule}: {} in {}", name(g), up.kind());
                first.get_or_insert((s, format!("between {} and {}:\n{}", a.class, b.class, lines_at(&r, a.n.end_byte()))));
            }
        } else if g == 0 {
            let s = format!("several blanks in {} {} | {}", up.kind(), a.class, b.class);
            first.get_or_insert((s, format!("between {} and {}:\n{}", a.class, b.class, lines_at(&r, a.n.end_byte()))));
        }
    }
    if c.mode != Mode::Any {
        pairs(t.root_node(), &r, o, &mut first);
    }
    match first {
        Some((s, m)) => bad(s, m),
        None => V::Held(1),
    }
}
/// What a bracket opens on a line of its own is also closed on one, and the other way round.
fn pairs(n: tree_sitter::Node, r: &str, o: &mut Obs, first: &mut Option<(String, String)>) {
    let mut c = n.walk();
    let ch: Vec<_> = n.children(&mut c).collect();
    if matches!(
        n.kind(),
        "annotation_argument_list" | "argument_list" | "formal_parameters" | "function_expression" | "parenthesized_expression"
            | "subquery" | "trigger_declaration" | "with_data_cat_filter" | "comparable_list" | "query_expression"
            | "array_initializer" | "map_initializer" | "accessor_list" | "type_parameters" | "annotation"
    ) {
        let at = |s: &[&str]| ch.iter().position(|x| !x.is_named() && s.contains(&x.kind()));
        let open = at(&["(", "[", "{", "<"]);
        let close = at(&[")", "]", "}", ">"]);
        if let (Some(i), Some(j)) = (open, close) {
            if j > i + 1 && !ch.iter().any(|x| x.is_extra()) && !ch[i + 1].is_extra() {
                let a = r[ch[i].end_byte()..ch[i + 1].start_byte()].contains('\n');
                let b = r[ch[j - 1].end_byte()..ch[j].start_byte()].contains('\n');
                o.add("brackets", 1);
                if a != b {
                    let s = format!("one end of a bracket on its own line: {}", n.kind());
                    first.get_or_insert((s, lines_at(r, ch[i].end_byte())));
                }
            }
        }
    }
    // the elements of a list are parted in one way, that of its brackets if those may be broken
    if !ch.iter().any(|x| x.is_extra()) {
        let br = |x: &tree_sitter::Node, y: &tree_sitter::Node| r[x.end_byte()..y.start_byte()].contains('\n');
        // the two lists of a for loop are apart
        for ch in ch.split(|x| x.kind() == ";") {
            let gaps: Vec<bool> = ch.windows(2).filter(|p| !p[0].is_named() && p[0].kind() == ",").map(|p| br(&p[0], &p[1])).collect();
            if gaps.is_empty() {
                continue;
            }
            o.add("lists", 1);
            if gaps.iter().any(|g| *g != gaps[0]) {
                first.get_or_insert((format!("a list broken in part: {}", n.kind()), lines_at(r, n.start_byte())));
            }
            if ch.len() > 2 && !ch[0].is_named() && matches!(ch[0].kind(), "(" | "{" | "[" | "<") && br(&ch[0], &ch[1]) != gaps[0] {
                first.get_or_insert((format!("brackets and commas broken apart: {}", n.kind()), lines_at(r, n.start_byte())));
            }
        }
        let all = |name: &str, gaps: Vec<bool>, o: &mut Obs, first: &mut Option<(String, String)>| {
            if gaps.len() > 1 {
                o.add(name, 1);
                if gaps.iter().any(|g| *g != gaps[0]) {
                    first.get_or_insert((format!("{name} broken in part"), lines_at(r, n.start_byte())));
                }
            }
        };
        match n.kind() {
            "for_statement" => {
                let end = ch.iter().position(|x| x.kind() == ")");
                if let Some(e) = end.filter(|e| *e > 2) {
                    let after = |i: &usize| (matches!(ch[*i].kind(), ";" | "local_variable_declaration") || *i == 1) && *i + 1 < e && ch[i + 1].kind() != ";";
                    let mut g: Vec<bool> = (1..e).filter(after).map(|i| br(&ch[i], &ch[i + 1])).collect();
                    g.push(br(&ch[e - 1], &ch[e]));
                    all("parts of a for", g, o, first)
                }
            }
            "ternary_expression" if ch.len() == 5 => all("choices", vec![br(&ch[0], &ch[1]), br(&ch[2], &ch[3])], o, first),
            "soql_query_body" | "sosl_query_body" => all("query clauses", ch.windows(2).map(|p| br(&p[0], &p[1])).collect(), o, first),
            "query_expression" if ch.len() == 3 && ch[1].child_count() > 1 => {
                let k = ch[1];
                all("query brackets and clauses", vec![br(&ch[0], &ch[1]), br(&k.child(0).unwrap(), &k.child(1).unwrap())], o, first)
            }
            "and_expression" | "or_expression" => {
                all("query conditions", ch.windows(2).filter(|p| matches!(p[1].kind().to_lowercase().as_str(), "and" | "or")).map(|p| br(&p[0], &p[1])).collect(), o, first)
            }
            "method_invocation" | "field_access" => {
                // the links of one chain
                if !n.parent().is_some_and(|p| matches!(p.kind(), "method_invocation" | "field_access")) {
                    let mut g = vec![];
                    let mut x = n;
                    loop {
                        let d = (0..x.child_count()).find(|i| matches!(x.child(*i).unwrap().kind(), "." | "?." | "safe_navigation_operator"));
                        let Some(d) = d else { break };
                        if d == 0 { break }
                        let a = x.child(d - 1).unwrap();
                        g.push(br(&a, &x.child(d).unwrap()));
                        x = x.child(0).unwrap();
                        if !matches!(x.kind(), "method_invocation" | "field_access") { break }
                    }
                    all("chains of links", g, o, first)
                }
            }
            _ => {}
        }
        if n.kind() == "binary_expression" && ch.len() == 3 && ch[0].kind() == "binary_expression" && ch[0].child_count() == 3 {
            let (i, j) = (ch[0].child(0).unwrap(), ch[0].child(1).unwrap());
            if level(j.kind()) == level(ch[1].kind()) {
                o.add("chains", 1);
                if br(&i, &j) != br(&ch[0], &ch[1]) {
                    first.get_or_insert(("a chain broken in part".into(), lines_at(r, n.start_byte())));
                }
            }
        }
    }
    for x in ch {
        pairs(x, r, o, first);
    }
}
fn level(op: &str) -> u8 {
    match op {
        "||" | "??" => 0,
        "&&" => 1,
        "|" => 2,
        "^" => 3,
        "&" => 4,
        "==" | "!=" | "===" | "!==" | "<>" => 5,
        "<" | ">" | "<=" | ">=" => 6,
        "<<" | ">>" | ">>>" => 7,
        "+" | "-" => 8,
        _ => 9,
    }
}
fn lines_at(r: &str, at: usize) -> String {
    let lo = r[..at].rfind('\n').map_or(0, |i| i + 1);
    let lo = r[..lo.saturating_sub(1)].rfind('\n').map_or(0, |i| i + 1);
    let hi = r[at..].match_indices('\n').nth(1).map_or(r.len(), |x| at + x.0);
    r[lo..hi].to_string()
}

// ---------------------------------------------------------------- C27
fn sorted(mut v: Vec<ts::Item>) -> Vec<ts::Item> {
    v.sort_by_key(|i| (i.start, std::cmp::Reverse(i.end)));
    v
}
fn locality(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if f.stray_semi || f.anon_class || c.mode != Mode::Free {
        return V::Skip("domain");
    }
    let r = get!(out(c, o));
    let t = ts::parse(&c.src);
    let a = sorted(ts::items(&t));
    let ok = |i: &ts::Item| matches!(i.body.as_str(), "class_body" | "interface_body" | "block" | "constructor_body" | "parser_output");
    let picks: Vec<usize> = (0..a.len()).filter(|&i| ok(&a[i])).collect();
    if picks.is_empty() {
        return V::Skip("no item");
    }
    let tr = ts::parse(&r);
    let ra = sorted(ts::items(&tr));
    if ra.len() != a.len() {
        return V::Skip("items differ");
    }
    let mut rr = Rng::new(c.vseed);
    let mut n = 0;
    for _ in 0..2 {
        let i = picks[rr.below(picks.len())];
        let (s, e) = (a[i].start, a[i].end);
        let inside: Vec<bool> = a.iter().map(|x| x.start >= s && x.end <= e).collect();
        let k = inside.iter().filter(|x| **x).count();
        let double = rr.pct(40);
        let v = if double {
            format!("{}\n{}", &c.src[..e], &c.src[s..])
        } else {
            format!("{} {}", &c.src[..s], &c.src[e..])
        };
        if !ts::valid(&v) {
            continue;
        }
        let Ok(r2) = fmt::format(&v, c.width, c.indent) else { continue };
        let t2 = ts::parse(&r2);
        let b = sorted(ts::items(&t2));
        if b.len() != if double { a.len() + k } else { a.len() - k } {
            continue;
        }
        // the items of the original, and for each its counterpart in the variant
        let first = inside.iter().position(|x| *x).unwrap_or(0);
        for (j, x) in ra.iter().enumerate() {
            let encloses = a[j].start <= s && a[j].end >= e && !(a[j].start == s && a[j].end == e);
            if encloses || (inside[j] && !double) {
                continue;
            }
            let js: Vec<usize> = if double {
                if inside[j] {
                    vec![j, j + k]
                } else {
                    vec![if j < first { j } else { j + k }]
                }
            } else {
                vec![if j < first { j } else { j - k }]
            };
            for q in js {
                let y = &b[q];
                n += 1;
                if x.kind != y.kind {
                    return V::Skip("items differ");
                }
                if r[x.start..x.end] != r2[y.start..y.end] || x.col != y.col {
                    return bad(
                        format!("{} {}", x.body, x.kind),
                        format!(
                            "the layout of a {} changed when a neighbour was {}\n--- was\n{}\n--- is\n{}\n--- source\n{v}",
                            x.kind,
                            if double { "repeated" } else { "removed" },
                            &r[x.start..x.end],
                            &r2[y.start..y.end]
                        ),
                    );
                }
            }
        }
        o.add(if double { "neighbours repeated" } else { "neighbours removed" }, 1);
    }
    o.add("items compared", n);
    if n == 0 {
        V::Skip("no variant")
    } else {
        V::Held(n)
    }
}

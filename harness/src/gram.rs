//! Second generator of Apex sources: random derivations of the grammar itself, read from the
//! grammar file of the parser. One symbol is chosen as the focus of each program; it is
//! reached along a random path and expanded richly, the rest stays small. So every production
//! is drawn, whatever the hand-written generator thinks of.
use crate::gen::{Slot, P};
use crate::rng::Rng;
use serde_json::Value;
use std::collections::HashMap;

#[derive(Debug, Clone)]
enum R {
    Sym(usize),
    /// symbol token, printed as it is
    Lit(String),
    /// keyword
    Kw(String),
    Seq(Vec<R>),
    Choice(Vec<R>),
    Rep(Box<R>, bool),
    Blank,
    /// exactly one blank
    One,
}

pub struct Gram {
    names: Vec<String>,
    rules: Vec<R>,
    min: Vec<usize>,
    /// focus -> distance of each symbol to it
    dist: Vec<Vec<usize>>,
    pub focus: Vec<usize>,
    /// the symbols of queries
    pub query: Vec<usize>,
}

const FAR: usize = 1_000_000;

/// (symbol, part of it) the formatter does not support and refuses, or which the grammar
/// accepts although it is not Apex. `!X` : symbol X is never drawn.
const NOT: &[(&str, &str)] = &[
    // no anonymous Apex, no local classes and methods
    ("declaration", "method_declaration"),
    ("statement", "declaration"),
    ("_variable_initializer", "array_initializer"),
    ("_type", "annotated_type"),
    ("_selectable_expression", "type_of_clause"),
    ("soql_with_type", "with_record_visibility_expression"),
    ("soql_with_type", "with_data_cat_expression"),
    // Java, not Apex: annotated parts of types, anonymous classes
    ("scoped_type_identifier", "annotation"),
    ("type_parameter", "annotation"),
    ("object_creation_expression", "class_body"),
    // DML is a statement
    ("expression", "dml_expression"),
];

/// leaf symbols whose text comes from a list
const LEAF: &[(&str, &[&str])] = &[
    ("identifier", &["a", "b", "foo", "acc", "myVariable", "x1", "Total__c", "_x", "$d", "Owner", "whenDone", "T", "K", "Überschrift",
        "aVeryLongVariableNameThatTakesALotOfRoom", "opportunityLineItemIdsToProcess"]),
    ("int", &["0", "1", "42", "100L", "007", "1_000", "9l"]),
    ("decimal", &["1.5", "-1.50", "10", "37.775"]),
    ("date", &["2024-01-02", "1999-12-31"]),
    ("date_time", &["2024-01-02T03:04:05Z"]),
    ("currency_literal", &["USD500", "EUR10.50"]),
    ("decimal_floating_point_literal", &["1.5", "3.14d", "1e5", "2.5E-3", ".5", "1.50F", "0.10"]),
    ("string_literal", &["''", "'a'", "'hello world'", "'it\\'s'", "'// no'", "'/* no */'", "'{0}'", "'SELECT Id'", "'a  b '", "'日本'",
        "'日本語の長い文字列です。日本語の長い文字列です。日本語の長い文字列です。'"]),
    ("term", &["some Term*", "a", "x AND \"y z\""]),
    ("version_number", &["1.2", "10.0"]),
];

impl Gram {
    pub fn load() -> Gram {
        let v: Value = serde_json::from_str(include_str!("../data/apex-grammar.json")).expect("grammar");
        let rs = v["rules"].as_object().expect("rules");
        let names: Vec<String> = rs.keys().cloned().collect();
        let ix: HashMap<String, usize> = names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
        let mut rules = vec![];
        for n in &names {
            let mut r = conv(&rs[n], &ix);
            prune(&mut r, n, &names);
            let s = |x: &str| R::Sym(ix[x]);
            match n.as_str() {
                "expression_statement" => {
                    r = R::Seq(vec![R::Choice(vec![s("expression"), s("expression"), s("dml_expression")]), R::Lit(";".into())])
                }
                // annotation names have no dots
                "_name" => r = s("identifier"),
                // annotations stand before declarations and statements
                "formal_parameter" | "enum_constant" | "accessor_declaration" | "enhanced_for_statement" => plain(&mut r, ix["modifiers"], ix["modifier"]),
                "for_statement" => {
                    let l = ix["local_variable_declaration"];
                    let mut d = conv(&rs["local_variable_declaration"], &ix);
                    plain(&mut d, ix["modifiers"], ix["modifier"]);
                    put(&mut r, l, &d)
                }
                // the operands of `merge` are set apart by one blank and nothing else
                "dml_expression" => {
                    let e = s("identifier");
                    if let R::Choice(v) = &mut r {
                        for m in v.iter_mut() {
                            if matches!(m, R::Seq(w) if w.iter().any(|x| matches!(x, R::One))) {
                                put(m, ix["expression"], &e)
                            }
                        }
                    }
                }
                // the value of an annotation is a constant
                "_element_value" => r = R::Choice(vec![s("string_literal"), s("boolean"), s("identifier"), s("int")]),
                // `<>` is an operator
                "type_arguments" => {
                    let more = R::Seq(vec![R::Lit(",".into()), s("_type")]);
                    r = R::Seq(vec![R::Lit("<".into()), s("_type"), R::Rep(Box::new(more), false), R::Lit(">".into())])
                }
                _ => {}
            }
            rules.push(r);
        }
        let mut g = Gram { names, rules, min: vec![], dist: vec![], focus: vec![], query: vec![] };
        let n = g.names.len();
        g.min = vec![FAR; n];
        loop {
            let m: Vec<usize> = (0..n).map(|i| if g.leaf(i).is_some() { 1 } else { 1 + g.depth(&g.rules[i]) }).collect();
            if m == g.min {
                break;
            }
            g.min = m;
        }
        for f in 0..n {
            let mut d = vec![FAR; n];
            d[f] = 0;
            loop {
                let e: Vec<usize> = (0..n)
                    .map(|i| if i == f { 0 } else if g.leaf(i).is_some() { FAR } else { (1 + far(&g.rules[i], &d)).min(FAR) })
                    .collect();
                if e == d {
                    break;
                }
                d = e;
            }
            g.dist.push(d);
        }
        let root = g.ix("declaration");
        g.focus = (0..n).filter(|&f| g.dist[f][root] < FAR && g.min[f] < FAR && g.leaf(f).is_none()).collect();
        let (q, b) = (g.ix("query_expression"), g.ix("bound_apex_expression"));
        let mut seen = vec![q];
        let mut k = 0;
        while k < seen.len() {
            if seen[k] != b {
                syms(&g.rules[seen[k]], &mut seen);
            }
            k += 1;
        }
        g.query = g.focus.iter().copied().filter(|f| seen.contains(f)).collect();
        g
    }
    pub fn name(&self, i: usize) -> &str {
        &self.names[i]
    }
    fn ix(&self, n: &str) -> usize {
        self.names.iter().position(|x| x == n).expect("symbol")
    }
    fn leaf(&self, i: usize) -> Option<&'static [&'static str]> {
        LEAF.iter().find(|l| l.0 == self.names[i]).map(|l| l.1)
    }
    fn depth(&self, r: &R) -> usize {
        match r {
            R::Sym(i) => self.min[*i],
            R::Seq(v) => v.iter().map(|x| self.depth(x)).max().unwrap_or(0),
            R::Choice(v) => v.iter().map(|x| self.depth(x)).min().unwrap_or(FAR),
            R::Rep(x, one) => if *one { self.depth(x) } else { 0 },
            _ => 0,
        }
    }
    /// a program with the given focus
    pub fn unit(&self, r: &mut Rng, focus: usize, budget: i64, semi: bool) -> Option<Vec<P>> {
        let root = self.ix("declaration");
        let case = if r.pct(30) { 1 } else { 0 };
        let mut d = Draw { g: self, r, out: vec![], budget, focus: Some(focus), depth: 0, case, semi };
        d.out.push(P::Slot(Slot::TopStart));
        d.sym(root, "", true);
        // a number cannot be navigated
        let num = |p: &P| matches!(p, P::T(s) if s.starts_with(|c: char| c.is_ascii_digit() || c == '.' && s.len() > 1));
        if d.out.windows(2).any(|w| num(&w[0]) && matches!(&w[1], P::T(s) if s == "." || s == "?.")) {
            return None;
        }
        Some(d.out)
    }
}

/// every keyword of the grammar, in lower case, word by word
pub fn keywords() -> &'static std::collections::HashSet<String> {
    static K: std::sync::OnceLock<std::collections::HashSet<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        fn go(r: &R, o: &mut std::collections::HashSet<String>) {
            match r {
                R::Kw(s) => o.extend(s.to_lowercase().split([' ', '.']).map(String::from)),
                R::Seq(v) | R::Choice(v) => v.iter().for_each(|x| go(x, o)),
                R::Rep(x, _) => go(x, o),
                _ => {}
            }
        }
        let mut o = Default::default();
        Gram::load().rules.iter().for_each(|r| go(r, &mut o));
        o
    })
}
/// replaces a symbol
fn put(r: &mut R, i: usize, by: &R) {
    match r {
        R::Sym(k) if *k == i => *r = by.clone(),
        R::Seq(v) | R::Choice(v) => v.iter_mut().for_each(|x| put(x, i, by)),
        R::Rep(x, _) => put(x, i, by),
        _ => {}
    }
}
fn plain(r: &mut R, modifiers: usize, modifier: usize) {
    put(r, modifiers, &R::Rep(Box::new(R::Sym(modifier)), true))
}
fn syms(r: &R, o: &mut Vec<usize>) {
    match r {
        R::Sym(i) => {
            if !o.contains(i) {
                o.push(*i)
            }
        }
        R::Seq(v) | R::Choice(v) => v.iter().for_each(|x| syms(x, o)),
        R::Rep(x, _) => syms(x, o),
        _ => {}
    }
}
fn far(r: &R, d: &[usize]) -> usize {
    match r {
        R::Sym(i) => d[*i],
        R::Seq(v) | R::Choice(v) => v.iter().map(|x| far(x, d)).min().unwrap_or(FAR),
        R::Rep(x, _) => far(x, d),
        _ => FAR,
    }
}

fn conv(v: &Value, ix: &HashMap<String, usize>) -> R {
    let m = || v["members"].as_array().expect("members").iter().map(|x| conv(x, ix)).collect::<Vec<_>>();
    match v["type"].as_str().expect("type") {
        "SYMBOL" => R::Sym(ix[v["name"].as_str().unwrap()]),
        "STRING" => {
            let s = v["value"].as_str().unwrap();
            if s == " " { R::One } else if s.chars().all(|c| c.is_alphabetic()) { R::Kw(s.into()) } else { R::Lit(s.into()) }
        }
        "PATTERN" => R::Lit(v["value"].as_str().unwrap().into()),
        "SEQ" => R::Seq(m()),
        "CHOICE" => R::Choice(m()),
        "REPEAT" => R::Rep(Box::new(conv(&v["content"], ix)), false),
        "REPEAT1" => R::Rep(Box::new(conv(&v["content"], ix)), true),
        "BLANK" => R::Blank,
        "ALIAS" if v["named"] == false => {
            let s = v["value"].as_str().unwrap();
            let t = v["content"].to_string();
            if s.chars().any(|c| c.is_alphabetic()) {
                R::Kw(if t.contains("[\\\\s\\\\n]+") { s.replace('_', " ") } else { s.into() })
            } else {
                R::Lit(s.into())
            }
        }
        "TOKEN" | "IMMEDIATE_TOKEN" => {
            // a token made of parts: `<<=` and `java:`
            match conv(&v["content"], ix) {
                R::Seq(p) => {
                    let mut s = String::new();
                    for x in p {
                        match x {
                            R::Lit(t) if !t.contains('[') => s.push_str(&t),
                            R::Kw(t) => s.push_str(&t),
                            _ => {}
                        }
                    }
                    R::Lit(s)
                }
                x => x,
            }
        }
        _ => conv(&v["content"], ix),
    }
}

/// drop what NOT names
fn prune(r: &mut R, name: &str, names: &[String]) {
    let gone = |x: &R| match x {
        R::Sym(i) => NOT.iter().any(|n| (n.0 == name || n.0 == "*") && n.1 == names[*i]),
        R::Kw(s) | R::Lit(s) => NOT.iter().any(|n| n.0 == name && n.1 == s),
        _ => false,
    };
    fn has(x: &R, gone: &dyn Fn(&R) -> bool) -> bool {
        gone(x) || match x {
            R::Seq(v) => v.iter().any(|y| has(y, gone)),
            R::Rep(y, true) => has(y, gone),
            R::Choice(v) => v.iter().all(|y| has(y, gone)),
            _ => false,
        }
    }
    fn go(r: &mut R, gone: &dyn Fn(&R) -> bool, name: &str, names: &[String]) {
        match r {
            R::Seq(v) => v.iter_mut().for_each(|x| go(x, gone, name, names)),
            R::Choice(v) => {
                let dec = |x: &R| matches!(x, R::Sym(i) if names[*i] == "decimal");
                if name == "geo_location_type" && v.iter().any(dec) {
                    // no bind expressions inside GEOLOCATION()
                    v.retain(dec);
                }
                v.retain(|x| !has(x, gone));
                v.iter_mut().for_each(|x| go(x, gone, name, names));
                if v.is_empty() {
                    *r = R::Blank;
                }
            }
            R::Rep(x, _) => {
                if has(x, gone) {
                    *r = R::Blank;
                } else {
                    go(x, gone, name, names);
                }
            }
            _ => {}
        }
    }
    go(r, &gone, name, names);
}

struct Draw<'a> {
    g: &'a Gram,
    r: &'a mut Rng,
    out: Vec<P>,
    budget: i64,
    focus: Option<usize>,
    depth: usize,
    case: u8,
    /// stray semicolons
    semi: bool,
}

impl Draw<'_> {
    fn slot_of(&self, sym: &str, of: &str) -> Option<Slot> {
        match of {
            "class_body" | "interface_body" => Some(Slot::MemberStart),
            "enum_body" if sym == "enum_constant" => Some(Slot::MemberStart),
            "block" | "constructor_body" | "switch_block" => Some(Slot::StmtStart),
            "accessor_list" => Some(Slot::AccStart),
            _ => None,
        }
    }
    /// `lead`: the way to the focus goes through here
    fn sym(&mut self, i: usize, of: &str, lead: bool) {
        let name = self.g.names[i].clone();
        if let Some(s) = self.slot_of(&name, of) {
            self.out.push(P::Slot(s));
        }
        self.budget -= 1;
        if let Some(l) = self.g.leaf(i) {
            let s = match name.as_str() {
                "identifier" if self.r.pct(10) => crate::dict::get().id(&mut self.r),
                "string_literal" if self.r.pct(10) => format!("'{}'", crate::dict::get().phrase(&mut self.r)),
                _ => self.r.pick(l).to_string(),
            };
            if name == "term" {
                self.out.push(P::Glue);
            }
            self.out.push(P::T(s));
            if name == "term" {
                self.out.push(P::Glue);
            }
            return;
        }
        if lead && self.focus == Some(i) {
            self.focus = None;
        }
        let lead = lead && self.focus.is_some();
        self.depth += 1;
        // inlined rules belong to the rule that uses them
        let of = if name.starts_with('_') && !of.is_empty() { of.to_string() } else { name };
        let r = &self.g.rules[i];
        self.rule(r, &of, lead);
        self.depth -= 1;
    }
    fn poor(&self) -> bool {
        self.budget <= 0 || self.depth > 40
    }
    fn near(&self, r: &R) -> usize {
        match self.focus {
            Some(f) => far(r, &self.g.dist[f]),
            None => FAR,
        }
    }
    fn rule(&mut self, r: &R, of: &str, lead: bool) {
        let lead = lead && self.focus.is_some();
        // away from the focus everything stays small until it has been reached
        let tight = self.focus.is_some() && !lead || self.poor();
        match r {
            R::Blank => {}
            R::One => self.out.push(P::OneSpace),
            R::Lit(s) => {
                if s == "'" {
                    self.out.push(P::T(s.clone()));
                    return;
                }
                if s == "}" && matches!(of, "class_body" | "interface_body" | "enum_body" | "block" | "constructor_body" | "switch_block") {
                    self.out.push(P::Slot(Slot::BodyEnd));
                }
                if s == "}" && of == "accessor_list" {
                    self.out.push(P::Slot(Slot::AccEnd));
                }
                if s == ":" && of == "date_literal_with_param" {
                    self.out.push(P::Glue);
                }
                self.out.push(P::T(s.clone()));
                if s == ":" && of == "date_literal_with_param" || s == "@" {
                    self.out.push(P::Glue);
                }
            }
            R::Kw(s) => {
                let s = self.recase(s);
                self.out.push(P::K(s));
            }
            R::Sym(i) => self.sym(*i, of, lead),
            R::Seq(v) => {
                let best = if lead { self.pick_lead(v) } else { None };
                for (k, x) in v.iter().enumerate() {
                    self.rule(x, of, best == Some(k));
                }
            }
            R::Choice(v) => {
                let k = match if lead { self.pick_lead(v) } else { None } {
                    Some(k) => k,
                    None => self.pick_alt(v, of, tight),
                };
                self.rule(&v[k], of, lead);
            }
            R::Rep(x, one) => {
                let lead = lead && self.near(x) < FAR;
                let lo = (*one || lead) as usize;
                let n = if tight || self.poor() {
                    lo.max((self.r.pct(15) && self.budget > -40) as usize)
                } else {
                    if self.r.pct(3) {
                        self.r.range(6, 14)
                    } else {
                        lo.max([0, 1, 1, 1, 2, 2, 3, 4, 5][self.r.below(9)])
                    }
                };
                let at = self.r.below(n.max(1));
                for k in 0..n {
                    self.rule(x, of, lead && k == at);
                }
            }
        }
    }
    /// the member through which to go on to the focus: mostly the nearest
    fn pick_lead(&mut self, v: &[R]) -> Option<usize> {
        let d: Vec<usize> = v.iter().map(|x| self.near(x)).collect();
        let best = *d.iter().min()?;
        if best >= FAR {
            return None;
        }
        let slack = if self.r.pct(25) && self.depth < 12 { self.r.below(5) } else { 0 };
        let c: Vec<usize> = (0..v.len()).filter(|&k| d[k] <= best + slack).collect();
        Some(*self.r.pick(&c))
    }
    fn pick_alt(&mut self, v: &[R], of: &str, tight: bool) -> usize {
        let ds: Vec<usize> = v.iter().map(|x| self.g.depth(x)).collect();
        let best = *ds.iter().min().unwrap();
        let room = if tight { best + self.r.below(3) * (self.budget > -30) as usize } else { FAR - 1 };
        let c: Vec<usize> = (0..v.len()).filter(|&k| ds[k] <= room.max(best) && !self.stray(&v[k], of)).collect();
        if c.is_empty() {
            return (0..v.len()).find(|&k| !self.stray(&v[k], of)).unwrap_or(0);
        }
        *self.r.pick(&c)
    }
    fn stray(&self, x: &R, of: &str) -> bool {
        !self.semi && matches!(of, "class_body" | "interface_body" | "statement") && matches!(x, R::Lit(s) if s == ";")
    }
    fn recase(&mut self, s: &str) -> String {
        if self.case == 0 || s == "boolean" {
            return s.to_string();
        }
        match self.r.below(3) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            _ => s.to_string(),
        }
    }
}

/// development aid: what happens to programs with each focus
pub fn stats(n: usize, seed: u64) -> String {
    use crate::render::{self, Layout};
    let g = Gram::load();
    let mut o = String::new();
    for &f in &g.focus {
        let (mut bad, mut ok) = (0, 0);
        let mut no: std::collections::BTreeMap<String, (usize, String)> = Default::default();
        let mut sample = String::new();
        for i in 0..n {
            let mut r = Rng::stream(seed, g.name(f), i as u64);
            let b = r.range(5, 60) as i64;
            let Some(ps) = g.unit(&mut r, f, b, true) else { continue };
            let src = render::render(&render::toks(&ps), Layout::Compact, &mut r);
            if !crate::ts::valid(&src) {
                bad += 1;
                if sample.is_empty() || src.len() < sample.len() {
                    sample = src;
                }
                continue;
            }
            match crate::fmt::format(&src, 80, 2) {
                Ok(_) => ok += 1,
                Err(e) => {
                    let k: String = e.lines().filter(|l| !l.trim().is_empty()).take(2).collect::<Vec<_>>().join(" ").chars().take(150).collect();
                    let x = no.entry(k).or_insert((0, src.clone()));
                    x.0 += 1;
                    if src.len() < x.1.len() {
                        x.1 = src;
                    }
                }
            }
        }
        o.push_str(&format!("## {} ok {ok} refused {} invalid {bad}   {}\n", g.name(f), n - ok - bad, if ok == 0 || bad * 2 > n { sample.as_str() } else { "" }));
        for (k, (c, s)) in no {
            o.push_str(&format!("   {c} {k}\n      {s}\n"));
        }
    }
    o
}

//! An independent reader of SOQL / SOSL, over the hand-written scanner's tokens. It reduces a
//! query to its clauses in order, and conditions to their atoms and truth table, so two
//! queries compare equal when they ask the same thing however parentheses were rebuilt.
use crate::lex::{L, K};

/// words of the query language: compared without case
const KW: &[&str] = &[
    "select", "from", "where", "with", "group", "by", "having", "order", "limit", "offset", "for", "update", "all",
    "rows", "and", "or", "not", "in", "includes", "excludes", "like", "asc", "desc", "nulls", "first", "last", "true",
    "false", "null", "find", "returning", "fields", "using", "scope", "view", "reference", "tracking", "viewstat",
    "rollup", "cube", "security_enforced", "user_mode", "system_mode", "data", "category", "at", "above", "below",
    "above_or_below", "division", "highlight", "metadata", "network", "pricebookid", "snippet", "spell_correction",
    "phrase", "search", "advanced", "listview", "custom", "standard", "email", "name", "phone", "sidebar", "as",
    "delegated", "everything", "mine", "team", "mine_and_my_groups", "my_territory", "my_team_territory", "userid",
    "lookup", "target_length", "today", "yesterday", "tomorrow", "distance", "geolocation", "bind",
];
fn low(t: &L) -> String {
    if t.k == K::Word {
        t.t.to_lowercase()
    } else {
        t.t.clone()
    }
}
fn tok(t: &L) -> String {
    if t.k == K::Word {
        let l = t.t.to_lowercase();
        if KW.contains(&l.as_str()) || crate::props::caseless(&l) {
            return l;
        }
    }
    t.t.clone()
}
fn starts_query(ts: &[L]) -> bool {
    ts.first().map(|t| matches!(low(t).as_str(), "select" | "find")).unwrap_or(false)
}
/// index of the token closing the bracket at `i`
fn close(ts: &[L], i: usize) -> Option<usize> {
    let mut d = 0i32;
    for (j, t) in ts.iter().enumerate().skip(i) {
        if t.k == K::Sym {
            match t.t.as_str() {
                "(" | "[" | "{" => d += 1,
                ")" | "]" | "}" => {
                    d -= 1;
                    if d == 0 {
                        return Some(j);
                    }
                }
                _ => {}
            }
        }
    }
    None
}

/// All outermost queries of a source, canonical.
pub fn queries(code: &[L]) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while i < code.len() {
        if code[i].k == K::Sym && code[i].t == "[" && starts_query(&code[i + 1..]) {
            if let Some(j) = close(code, i) {
                v.push(query(&code[i + 1..j]));
                i = j;
            }
        }
        i += 1;
    }
    v
}

fn query(ts: &[L]) -> String {
    let find = low(&ts[0]) == "find";
    clauses(ts, find, "?")
}

fn clauses(ts: &[L], sosl: bool, first: &str) -> String {
    // split at clause keywords outside brackets
    let mut parts: Vec<(String, Vec<L>)> = vec![(first.to_string(), vec![])];
    let mut i = 0;
    let mut prev = String::new();
    while i < ts.len() {
        let t = &ts[i];
        if t.k == K::Sym && (t.t == "(" || t.t == "[") {
            let j = close(ts, i).unwrap_or(ts.len() - 1);
            parts.last_mut().unwrap().1.extend_from_slice(&ts[i..=j]);
            i = j + 1;
            prev = ")".into();
            continue;
        }
        let l = low(t);
        let cur = parts.last().unwrap().0.clone();
        let nx = ts.get(i + 1).map(low).unwrap_or_default();
        // a word after `.` or `:` is a name, and so is one before `.`
        let name = prev == "." || prev == ":" || nx == ".";
        let start = !name
            && match l.as_str() {
                "select" | "find" => i == 0,
                "from" | "where" | "with" | "having" | "limit" | "offset" | "for" => true,
                "group" | "order" => nx == "by",
                "using" => true,
                "update" => cur != "for" || parts.last().unwrap().1.len() > 1,
                "all" => nx == "rows",
                "in" => sosl && cur == "find",
                "returning" => sosl,
                _ => false,
            };
        if start {
            parts.push((l.clone(), vec![]));
        } else {
            parts.last_mut().unwrap().1.push(t.clone());
        }
        prev = l;
        i += 1;
    }
    let mut o = String::new();
    for (n, ts) in parts {
        if n == "?" && ts.is_empty() {
            continue;
        }
        let body = match n.as_str() {
            "where" | "having" => cond(&ts),
            "from" => {
                let ts: Vec<L> = ts.into_iter().filter(|t| low(t) != "as").collect();
                flat(&ts, false)
            }
            "with" => {
                // a single category needs no parentheses
                let mut v: Vec<L> = vec![];
                let mut i = 0;
                while i < ts.len() {
                    if ts[i].t == "(" && close(&ts, i) == Some(i + 2) && i > 0 && low(&ts[i - 1]) != "snippet" {
                        v.push(ts[i + 1].clone());
                        i += 3;
                    } else {
                        v.push(ts[i].clone());
                        i += 1;
                    }
                }
                flat(&v, false)
            }
            "returning" => flat(&ts, true),
            _ => flat(&ts, false),
        };
        o.push_str(&format!("{{{n}: {body}}}"));
    }
    o
}

fn flat(ts: &[L], returning: bool) -> String {
    let mut o = vec![];
    let mut i = 0;
    while i < ts.len() {
        if ts[i].k == K::Sym && (ts[i].t == "(" || ts[i].t == "[") {
            if let Some(j) = close(ts, i) {
                if starts_query(&ts[i + 1..j]) {
                    o.push(format!("{}{}{}", ts[i].t, query(&ts[i + 1..j]), ts[j].t));
                    i = j + 1;
                    continue;
                }
                if returning && ts[i].t == "(" {
                    o.push(format!("({})", clauses(&ts[i + 1..j], true, "fields")));
                    i = j + 1;
                    continue;
                }
            }
        }
        o.push(tok(&ts[i]));
        i += 1;
    }
    o.join(" ")
}

#[derive(Debug)]
enum B {
    A(usize),
    Not(Box<B>),
    And(Vec<B>),
    Or(Vec<B>),
}
struct Pc<'a> {
    ts: &'a [L],
    i: usize,
    atoms: Vec<String>,
}
impl Pc<'_> {
    fn peek(&self) -> String {
        self.ts.get(self.i).map(low).unwrap_or_default()
    }
    fn or(&mut self) -> B {
        let mut v = vec![self.and()];
        while self.peek() == "or" {
            self.i += 1;
            v.push(self.and());
        }
        if v.len() == 1 { v.pop().unwrap() } else { B::Or(v) }
    }
    fn and(&mut self) -> B {
        let mut v = vec![self.not()];
        while self.peek() == "and" {
            self.i += 1;
            v.push(self.not());
        }
        if v.len() == 1 { v.pop().unwrap() } else { B::And(v) }
    }
    fn not(&mut self) -> B {
        if self.peek() == "not" {
            self.i += 1;
            return B::Not(Box::new(self.not()));
        }
        if self.peek() == "(" {
            self.i += 1;
            let b = self.or();
            if self.peek() == ")" {
                self.i += 1;
            }
            return b;
        }
        let s = self.i;
        while self.i < self.ts.len() {
            let t = &self.ts[self.i];
            if t.k == K::Sym && (t.t == "(" || t.t == "[" || t.t == "{") {
                self.i = close(self.ts, self.i).unwrap_or(self.ts.len() - 1) + 1;
                continue;
            }
            if t.k == K::Sym && t.t == ")" || self.i > s && matches!(self.peek().as_str(), "and" | "or") {
                break;
            }
            self.i += 1;
        }
        let mut a = flat(&self.ts[s..self.i], false);
        if s == self.i {
            a = format!("?{s}");
            self.i += 1;
        }
        let k = self.atoms.iter().position(|x| *x == a).unwrap_or_else(|| {
            self.atoms.push(a);
            self.atoms.len() - 1
        });
        B::A(k)
    }
}
fn eval(b: &B, m: u32) -> bool {
    match b {
        B::A(i) => m >> i & 1 == 1,
        B::Not(b) => !eval(b, m),
        B::And(v) => v.iter().all(|b| eval(b, m)),
        B::Or(v) => v.iter().any(|b| eval(b, m)),
    }
}
/// structure with same-operator nests flattened
fn shape(b: &B) -> String {
    fn items(b: &B, and: bool, o: &mut Vec<String>) {
        match (b, and) {
            (B::And(v), true) | (B::Or(v), false) => v.iter().for_each(|x| items(x, and, o)),
            _ => o.push(shape(b)),
        }
    }
    let mut o = vec![];
    match b {
        B::A(i) => return format!("{i}"),
        B::Not(b) => return format!("!{}", shape(b)),
        B::And(_) => items(b, true, &mut o),
        B::Or(_) => items(b, false, &mut o),
    }
    format!("{}[{}]", if matches!(b, B::And(_)) { "&" } else { "|" }, o.join(","))
}
fn cond(ts: &[L]) -> String {
    let mut p = Pc { ts, i: 0, atoms: vec![] };
    let mut b = vec![p.or()];
    while p.i < ts.len() {
        p.i += 1;
        if p.i < ts.len() {
            b.push(p.or());
        }
    }
    let b = if b.len() == 1 { b.pop().unwrap() } else { B::And(b) };
    let n = p.atoms.len();
    let table = if n <= 11 {
        let mut h: u64 = 0xcbf29ce484222325;
        for m in 0..1u32 << n {
            h = (h ^ eval(&b, m) as u64).wrapping_mul(0x100000001b3);
        }
        format!("table {h:x}")
    } else {
        shape(&b)
    };
    format!("<{}> {table}", p.atoms.join(" | "))
}

#[cfg(test)]
mod t {
    use super::*;
    fn q(s: &str) -> Vec<String> {
        queries(&crate::lex::code(s))
    }
    #[test]
    fn forms() {
        let a = q("x = [SELECT Id FROM A WHERE (NOT a = 1) AND ((b = 2) OR c IN (1, 2))];");
        assert_eq!(a, q("x = [select Id from A where NOT (a = 1) and (b = 2 OR c IN (1,2))];"));
        assert_ne!(a, q("x = [SELECT Id FROM A WHERE NOT (a = 1 AND (b = 2 OR c IN (1, 2)))];"));
        assert_ne!(a, q("x = [SELECT Id FROM A WHERE (NOT a = 1) AND ((b = 2) OR c IN (1, 3))];"));
    }
}

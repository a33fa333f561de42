//! Words and phrases for names, strings and comments: those the formatter's own source holds as string
//! literals (code that looks at names does so by comparing with one of them) and common Apex names.
use crate::ts;
use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Dict {
    pub ids: Vec<String>,
    pub common: usize,
    pub phrases: Vec<String>,
}
const COMMON: &[&str] = &[
    "builder", "instance", "getInstance", "build", "get", "put", "add", "size", "isEmpty", "contains", "debug", "System", "Test", "Database", "Account",
    "Contact", "Id", "Name", "String", "Integer", "List", "Map", "Set", "SObject", "Object", "result", "results", "value", "values", "key", "item", "items",
    "record", "records", "e", "ex", "i", "j", "it", "self", "args", "assertEquals", "assert", "runAs", "startTest", "stopTest", "isTest", "TestSetup", "Future",
    "InvocableMethod", "AuraEnabled", "JsonAccess", "HttpGet", "RestResource", "SuppressWarnings", "Override", "Logger", "Schema", "JSON", "Math", "Exception",
    "DmlException", "Custom__c", "Parent__r", "MyNs__Field__c", "of", "from_", "main", "execute", "start", "finish", "valueOf", "toString", "equals", "hashCode",
    "newInstance", "Builder", "Request", "Response", "fflib_SObjectDomain", "sObjectType", "fields", "Label", "Page", "UserInfo", "ApexPages",
];
const PHRASES: &[&str] = &[
    "SELECT Id FROM Account", "select", "FIND", "TODO", "FIXME", "NOPMD", "@formatter:off", "@formatter:on", "prettier-ignore", "afmt-ignore", "region", "endregion", "noinspection",
    "http://a.b/c", "https://", "://", "{0}", "%s", "--", "eslint-disable", "#", "@", "@deprecated", "fmt: off", "clang-format off", "test", "TEST", "1", "null", "true",
    "Copyright", "License", "===", "---", "***", "...", "end", "eof",
];
// words a query reads as its own
const QUERY: &[&str] = &[
    "select", "find", "from", "where", "order", "by", "group", "having", "limit", "offset", "for", "update", "view", "reference", "tracking", "viewstat", "with", "using", "scope",
    "lookup", "bind", "and", "or", "not", "like", "in", "includes", "excludes", "asc", "desc", "nulls", "first", "last", "typeof", "when", "then", "else", "end", "all", "rows",
    "returning", "data", "category", "at", "above", "below", "above_or_below", "above_or_at", "cube", "rollup", "count", "fields", "format", "calendar", "distance", "geolocation", "division", "network", "snippet",
    "highlight", "metadata", "pricebookid", "security_enforced", "user_mode", "system_mode", "true", "false", "null", "new", "this", "super", "java", "on", "switch",
];

fn literals(src: &str) -> Vec<String> {
    let mut v = vec![];
    for l in src.lines() {
        let l = l.trim_start();
        if l.starts_with("//") {
            continue;
        }
        let mut open: Option<String> = None;
        let mut it = l.chars();
        while let Some(c) = it.next() {
            match (&mut open, c) {
                (Some(s), '\\') => match it.next() {
                    Some('"') => s.push('"'),
                    Some('\\') => s.push('\\'),
                    _ => s.push(' '),
                },
                (Some(_), '"') => v.extend(open.take()),
                (Some(s), c) => s.push(c),
                (None, '"') => open = Some(String::new()),
                (None, '\'') => {
                    // a char literal
                    let mut k = it.clone();
                    match (k.next(), k.next(), k.next()) {
                        (Some('\\'), _, Some('\'')) => it = k,
                        (Some(_), Some('\''), _) => {
                            it.next();
                            it.next();
                        }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
    v
}
fn files(d: &std::path::Path, o: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, o);
        } else if p.extension().is_some_and(|e| e == "rs") {
            o.push(p);
        }
    }
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut fs = vec![];
        files(std::path::Path::new("/repo/src"), &mut fs);
        let mut own: BTreeSet<String> = Default::default();
        for f in fs {
            own.extend(literals(&std::fs::read_to_string(f).unwrap_or_default()));
        }
        let ok = |w: &str| {
            !QUERY.contains(&w.to_lowercase().as_str())
                && ts::valid(&format!("class A {{ void m(B {w}) {{ Integer {w} = {w}.{w}({w}).c; {w}({w}); {w}[0] = b; d.{w} = {w} + 1; }} }}"))
        };
        let mut ids: Vec<String> = COMMON.iter().filter(|w| ok(w)).map(|w| w.to_string()).collect();
        let common = ids.len();
        let mut words: BTreeSet<String> = Default::default();
        for p in &own {
            for w in p.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
                if (1..=30).contains(&w.len()) && w.starts_with(|c: char| c.is_ascii_alphabetic()) {
                    words.insert(w.to_string());
                }
            }
        }
        ids.extend(words.into_iter().filter(|w| ok(w)));
        let fine = |p: &str| (1..=60).contains(&p.len()) && p.trim() == p && p.chars().all(|c| c == ' ' || c.is_ascii_graphic()) && !p.contains(['\'', '\\']) && !p.contains("*/") && !p.contains("/*");
        let mut phrases: Vec<String> = PHRASES.iter().map(|p| p.to_string()).collect();
        phrases.extend(own.into_iter().filter(|p| fine(p)));
        Dict { ids, common, phrases }
    })
}
impl Dict {
    pub fn id(&self, r: &mut crate::rng::Rng) -> String {
        if r.pct(40) || self.ids.len() == self.common {
            self.ids[r.below(self.common)].clone()
        } else {
            self.ids[self.common + r.below(self.ids.len() - self.common)].clone()
        }
    }
    pub fn phrase(&self, r: &mut crate::rng::Rng) -> String {
        self.phrases[r.below(self.phrases.len())].clone()
    }
}

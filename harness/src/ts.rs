//! Syntax oracle: parse with the grammar and reduce the tree to a canonical form in which
//! only the documented normalisations of the formatter are quotiented out.
use tree_sitter::{Node, Parser, Tree};

pub fn parse(src: &str) -> Tree {
    let mut p = Parser::new();
    p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).expect("language");
    p.parse(src, None).expect("parse")
}
pub fn valid(src: &str) -> bool {
    !parse(src).root_node().has_error()
}

/// Leaves whose text is the program (identifiers, literals): compared byte for byte.
pub fn is_literal(k: &str) -> bool {
    exact_leaf(k)
}
fn exact_leaf(k: &str) -> bool {
    matches!(
        k,
        "identifier" | "type_identifier" | "string_literal" | "int" | "decimal" | "date" | "date_time"
            | "currency_literal" | "version_number" | "term"
    )
}

#[derive(Clone, Debug, PartialEq)]
pub struct C {
    pub k: String,
    pub t: String,
    pub ch: Vec<C>,
}
impl C {
    pub fn show(&self, o: &mut String, d: usize) {
        for _ in 0..d {
            o.push(' ');
        }
        o.push_str(&self.k);
        if !self.t.is_empty() {
            o.push('=');
            o.push_str(&self.t);
        }
        o.push('\n');
        for c in &self.ch {
            c.show(o, d + 1);
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s, 0);
        s
    }
    pub fn leaves(&self, o: &mut Vec<(String, String)>) {
        if self.ch.is_empty() {
            o.push((self.k.clone(), self.t.clone()));
        }
        for c in &self.ch {
            c.leaves(o);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.ch.iter().map(|c| c.count()).sum::<usize>()
    }
}

pub fn canon(src: &str) -> Option<C> {
    let t = parse(src);
    if t.root_node().has_error() {
        return None;
    }
    Some(canon_node(&t.root_node(), src.as_bytes()))
}

fn text<'a>(n: &Node, src: &'a [u8]) -> &'a str {
    std::str::from_utf8(&src[n.start_byte()..n.end_byte()]).unwrap_or("<non-utf8>")
}

fn canon_node(n: &Node, src: &[u8]) -> C {
    let kind = n.kind();
    if n.child_count() == 0 {
        let t = text(n, src);
        let t = if n.is_named() && exact_leaf(kind) {
            t.to_string()
        } else {
            // keywords, operators: case and inner whitespace are layout
            t.chars().filter(|c| !c.is_whitespace()).collect::<String>().to_lowercase()
        };
        return C { k: kind.to_string(), t: if t == kind { String::new() } else { t }, ch: vec![] };
    }
    let mut ch = vec![];
    let mut w = n.walk();
    for c in n.children(&mut w) {
        if c.is_extra() {
            continue;
        }
        let ck = c.kind();
        // extra `;` members of type bodies and empty statements of blocks carry no meaning
        if ck == ";" && matches!(kind, "class_body" | "interface_body" | "block" | "constructor_body") {
            continue;
        }
        // `FROM A AS x` is `FROM A x`
        if kind == "storage_alias" && text(&c, src).eq_ignore_ascii_case("as") && !c.is_named() {
            continue;
        }
        // `@A()` is `@A`
        if ck == "annotation_argument_list" && c.named_child_count() == 0 {
            continue;
        }
        ch.push(canon_node(&c, src));
    }
    // the order between annotations and keyword modifiers carries no meaning: annotations first
    if kind == "modifiers" {
        ch.sort_by_key(|c| c.k != "annotation");
    }
    // `AT (a)` is `AT a`
    if kind == "with_data_cat_filter" && ch.iter().filter(|c| c.k == "identifier").count() == 2 {
        ch.retain(|c| c.k != "(" && c.k != ")");
    }
    // query conditions: parentheses are redundant with the tree, same-operator nests are flat
    if matches!(kind, "where_clause" | "having_clause" | "and_expression" | "or_expression" | "not_expression") {
        ch.retain(|c| !(c.ch.is_empty() && (c.k == "(" || c.k == ")")));
        if matches!(kind, "and_expression" | "or_expression") {
            let mut flat = vec![];
            for c in ch {
                if c.k == kind {
                    flat.extend(c.ch);
                } else {
                    flat.push(c);
                }
            }
            ch = flat;
        }
    }
    C { k: kind.to_string(), t: String::new(), ch }
}

/// first difference of two canonical trees: path + the two sides
pub fn diff(a: &C, b: &C, path: &str) -> Option<String> {
    if a.k != b.k || a.t != b.t {
        return Some(format!("{path}: {}={} vs {}={}", a.k, a.t, b.k, b.t));
    }
    let p = format!("{path}/{}", a.k);
    for i in 0..a.ch.len().max(b.ch.len()) {
        match (a.ch.get(i), b.ch.get(i)) {
            (Some(x), Some(y)) => {
                if let Some(d) = diff(x, y, &p) {
                    return Some(d);
                }
            }
            (Some(x), None) => return Some(format!("{p}: lost {}={}", x.k, x.t)),
            (None, Some(y)) => return Some(format!("{p}: added {}={}", y.k, y.t)),
            _ => {}
        }
    }
    None
}

/// syntactic context of a byte offset: parent kind / previous child / next child at that point
pub fn context(src: &str, at: usize) -> String {
    let t = parse(src);
    let mut n = t.root_node();
    loop {
        let mut w = n.walk();
        let inner = n.children(&mut w).find(|c| c.start_byte() < at && at < c.end_byte());
        match inner {
            Some(c) => n = c,
            None => break,
        }
    }
    let mut w = n.walk();
    let mut prev = "^".to_string();
    let mut next = "$".to_string();
    for c in n.children(&mut w) {
        if c.end_byte() <= at {
            prev = c.kind().to_string();
        }
        if c.start_byte() >= at {
            next = c.kind().to_string();
            break;
        }
    }
    format!("{}[{} . {}]", n.kind(), prev, next)
}

/// Atomic tokens of the tree, in order (string literals are one token).
pub fn leaves(t: &Tree, _src: &str) -> Vec<(usize, usize)> {
    fn go(n: &Node, o: &mut Vec<(usize, usize)>) {
        if n.child_count() == 0 || n.kind() == "string_literal" {
            if n.end_byte() > n.start_byte() {
                o.push((n.start_byte(), n.end_byte()));
            }
            return;
        }
        let mut w = n.walk();
        for c in n.children(&mut w) {
            go(&c, o);
        }
    }
    let mut o = vec![];
    go(&t.root_node(), &mut o);
    o
}

/// Alphabetic anonymous leaves: the keywords of the program.
pub fn keywords(t: &Tree, src: &str) -> Vec<(usize, usize)> {
    fn go(n: &Node, src: &str, o: &mut Vec<(usize, usize)>) {
        if n.child_count() == 0 {
            let s = &src[n.start_byte()..n.end_byte()];
            if !n.is_named() && s.chars().next().map(|c| c.is_ascii_alphabetic()).unwrap_or(false) {
                o.push((n.start_byte(), n.end_byte()));
            }
            return;
        }
        let mut w = n.walk();
        for c in n.children(&mut w) {
            go(&c, src, o);
        }
    }
    let mut o = vec![];
    go(&t.root_node(), src, &mut o);
    o
}

/// What the source contains that the documented normalisations touch.
#[derive(Default, Debug, Clone)]
pub struct Features {
    pub late_annotation: bool,
    pub from_as: bool,
    pub query_parens: bool,
    pub stray_semi: bool,
    pub empty_anno: bool,
    pub datacat_paren: bool,
    pub has_query: bool,
    /// a class body inside an expression
    pub anon_class: bool,
    pub nodes: usize,
}
pub fn features(t: &Tree, src: &str, kinds: Option<&mut std::collections::BTreeSet<(String, String)>>) -> Features {
    fn go(n: &Node, src: &str, f: &mut Features, kinds: &mut Option<&mut std::collections::BTreeSet<(String, String)>>) {
        f.nodes += 1;
        let k = n.kind();
        let mut w = n.walk();
        let kids: Vec<Node> = n.children(&mut w).collect();
        match k {
            "modifiers" => {
                let mut seen_kw = false;
                for c in &kids {
                    if c.kind() == "annotation" {
                        f.late_annotation |= seen_kw;
                    } else if !c.is_extra() {
                        seen_kw = true;
                    }
                }
            }
            "storage_alias" => {
                f.from_as |= kids.iter().any(|c| !c.is_named() && text(c, src.as_bytes()).eq_ignore_ascii_case("as"))
            }
            "where_clause" | "having_clause" | "and_expression" | "or_expression" | "not_expression" => {
                f.query_parens |= kids.iter().any(|c| c.kind() == "(")
            }
            "class_body" | "interface_body" | "block" | "constructor_body" | "trigger_body" | "parser_output" => {
                f.stray_semi |= kids.iter().any(|c| c.kind() == ";")
            }
            "annotation_argument_list" => f.empty_anno |= n.named_child_count() == 0,
            "with_data_cat_filter" => f.datacat_paren |= kids.iter().any(|c| c.kind() == "("),
            "object_creation_expression" => f.anon_class |= kids.iter().any(|c| c.kind() == "class_body"),
            "soql_query_body" | "sosl_query_body" => f.has_query = true,
            _ => {}
        }
        for c in &kids {
            if c.is_named() {
                if let Some(ks) = kinds.as_mut() {
                    ks.insert((k.to_string(), c.kind().to_string()));
                }
            }
            go(c, src, f, kinds);
        }
    }
    let mut f = Features::default();
    let mut kinds = kinds;
    go(&t.root_node(), src, &mut f, &mut kinds);
    f
}

pub const BODIES: &[&str] = &[
    "class_body", "interface_body", "enum_body", "block", "constructor_body", "switch_block", "accessor_list",
];

/// Every member / statement of every body, in order: (body kind, child kind, depth, start, end, index in body)
#[derive(Clone, Debug)]
pub struct Item {
    pub body: String,
    pub kind: String,
    pub depth: usize,
    pub start: usize,
    pub end: usize,
    pub idx: usize,
    pub col: usize,
    /// start of the previous item's end in the same body (or the body's opening brace end)
    pub prev_end: usize,
    /// row of the end of the body
    pub end_row: usize,
    /// nested through braces only
    pub pure: bool,
}
pub fn items(t: &Tree) -> Vec<Item> {
    const CTRL: &[&str] = &["if_statement", "while_statement", "for_statement", "enhanced_for_statement", "do_statement"];
    fn go(n: &Node, depth: usize, pure: bool, o: &mut Vec<Item>) {
        let mut w = n.walk();
        let kids: Vec<Node> = n.children(&mut w).collect();
        let k = n.kind();
        let body = BODIES.contains(&k) || k == "parser_output";
        let d = depth + (body && k != "parser_output") as usize;
        // depth is only counted through braces: expressions and unbraced bodies indent on their own
        let pure = pure
            && (body
                || k.ends_with("_declaration")
                || k.ends_with("_statement") && !CTRL.contains(&k)
                || matches!(k, "static_initializer" | "trigger_body" | "switch_rule" | "catch_clause" | "finally_clause" | "switch_expression")
                || CTRL.contains(&k)
                    && ["body", "consequence", "alternative"].iter().all(|f| {
                        n.child_by_field_name(f).map(|c| {
                            c.kind() == "block" || *f == "alternative" && c.kind() == "if_statement"
                        }) != Some(false)
                    }));
        if body {
            let mut idx = 0;
            let mut prev_end = n.start_byte();
            for c in &kids {
                if c.is_named() && !c.is_extra() {
                    o.push(Item {
                        body: k.to_string(),
                        kind: c.kind().to_string(),
                        depth: d,
                        start: c.start_byte(),
                        end: c.end_byte(),
                        idx,
                        col: c.start_position().column,
                        prev_end,
                        end_row: n.end_position().row,
                        pure,
                    });
                    idx += 1;
                }
                prev_end = c.end_byte();
            }
        }
        for c in &kids {
            go(c, d, pure, o);
        }
    }
    let mut o = vec![];
    go(&t.root_node(), 0, true, &mut o);
    o
}

/// The tree has no ERROR node: the parser only inserted missing tokens.
pub fn only_missing(src: &str) -> bool {
    fn any(n: &Node) -> bool {
        if n.is_error() {
            return true;
        }
        let mut w = n.walk();
        let r = n.children(&mut w).any(|c| any(&c));
        r
    }
    let t = parse(src);
    t.root_node().has_error() && !any(&t.root_node())
}

/// The byte ranges of the ERROR and MISSING nodes.
pub fn errors(src: &str) -> Vec<(usize, usize)> {
    fn go(n: &Node, o: &mut Vec<(usize, usize)>) {
        if n.is_error() || n.is_missing() {
            o.push((n.start_byte(), n.end_byte()));
        }
        if n.has_error() {
            for i in 0..n.child_count() {
                if let Some(c) = n.child(i) {
                    go(&c, o);
                }
            }
        }
    }
    let mut o = vec![];
    go(&parse(src).root_node(), &mut o);
    o
}

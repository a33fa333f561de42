//! Relations between a program and one that must be laid out alike: other names of the same
//! length (C29), the same code at another place with the same room (C30).
use crate::case::{Case, Mode};
use crate::fmt;
use crate::props::{see, Obs, V};
use crate::rng::Rng;
use crate::ts;
use tree_sitter::Node;

fn bad(sig: impl Into<String>, msg: impl Into<String>) -> V {
    V::Bad { sig: sig.into(), msg: msg.into() }
}
fn out(c: &Case, o: &mut Obs) -> Option<String> {
    let r = fmt::format(&c.src, c.width, c.indent).ok();
    o.add(if r.is_some() { "formatted" } else { "refused by the formatter" }, 1);
    r
}
/// kinds of all nodes, in order
fn shape(src: &str) -> Option<Vec<u16>> {
    fn go(n: Node, o: &mut Vec<u16>) {
        o.push(n.kind_id());
        let mut w = n.walk();
        for c in n.children(&mut w) {
            go(c, o);
        }
        o.push(0);
    }
    let t = ts::parse(src);
    if t.root_node().has_error() {
        return None;
    }
    let mut v = vec![];
    go(t.root_node(), &mut v);
    Some(v)
}
/// what a program may name or say freely
fn free(k: &str) -> bool {
    matches!(k, "identifier" | "type_identifier" | "string_literal" | "int" | "decimal_floating_point_literal" | "line_comment" | "block_comment")
}
fn words<'a>(n: Node<'a>, o: &mut Vec<Node<'a>>) {
    if n.is_named() && free(n.kind()) {
        o.push(n);
        return;
    }
    let mut w = n.walk();
    for c in n.children(&mut w).collect::<Vec<_>>() {
        words(c, o);
    }
}
/// another word of the same kind and length
fn other(k: &str, t: &str, r: &mut Rng) -> Option<String> {
    let from = |r: &mut Rng, s: &str| *r.pick(&s.chars().collect::<Vec<_>>());
    let n = t.chars().count();
    Some(match k {
        "identifier" | "type_identifier" => {
            let mut s = String::new();
            for (i, c) in t.chars().enumerate() {
                // the affixes of custom names stay
                if c == '_' && i > 0 {
                    s.push('_');
                } else if i == 0 {
                    s.push(from(r, "abcdefgklmpqrstuvwxyzABCDEFGKLMPQRSTUVWXYZ"));
                } else {
                    s.push(from(r, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"));
                }
            }
            s
        }
        "string_literal" => {
            if n < 3 || t.contains('\\') {
                return None;
            }
            let set = *r.pick(&["abc", " ", "(){}[];,", "//**/", "\"`#@$%", "éß日本", "aB1 .-", "&|+=<>!?:", "SELECT FROM"]);
            let mut s = String::from("'");
            for _ in 0..n - 2 {
                s.push(from(r, set));
            }
            s.push('\'');
            s
        }
        "int" => {
            let mut s = String::new();
            for (i, c) in t.chars().enumerate() {
                s.push(if !c.is_ascii_digit() { c } else if i == 0 && n > 1 { from(r, "123456789") } else { from(r, "0123456789") });
            }
            s
        }
        "line_comment" | "block_comment" => {
            // the letters and digits of it
            if t.contains('\n') {
                return None;
            }
            let s: String = t
                .chars()
                .map(|c| if c.is_ascii_alphanumeric() { from(r, "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789") } else { c })
                .collect();
            s
        }
        _ => return None,
    })
}

/// Words of the dictionary in place of some of the program's, where they leave it the same program:
/// what follows gives those places other words again.
fn retitle(src: &str, r: &mut Rng) -> Option<String> {
    let t = ts::parse(src);
    let mut ws = vec![];
    words(t.root_node(), &mut ws);
    let d = crate::dict::get();
    let share = *r.pick(&[10, 40, 90]);
    let alike = r.pct(50);
    let mut map: std::collections::HashMap<String, String> = Default::default();
    let mut at = 0;
    let mut o = String::new();
    for n in ws {
        let t = &src[n.start_byte()..n.end_byte()];
        if !r.pct(share) {
            continue;
        }
        let v = match n.kind() {
            "identifier" | "type_identifier" if alike => map.entry(t.to_string()).or_insert_with(|| d.id(r)).clone(),
            "identifier" | "type_identifier" => d.id(r),
            "string_literal" if t.len() > 2 => format!("'{}{}'", d.phrase(r), r.pick(&["", "", " ", " abc def", " abc, def ghi jkl mno pqr stu vwx"])),
            "line_comment" => format!("//{}{}", r.pick(&["", " ", " ", " abc "]), d.phrase(r)),
            "block_comment" if !t.contains('\n') => format!("/*{}{} */", r.pick(&["", " ", " ", " abc "]), d.phrase(r)),
            _ => continue,
        };
        o.push_str(&src[at..n.start_byte()]);
        o.push_str(&v);
        at = n.start_byte() + t.trim_end().len();
    }
    o.push_str(&src[at..]);
    (shape(&o) == shape(src)).then_some(o)
}

// ---------------------------------------------------------------- C29
pub fn naming(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if f.late_annotation {
        return V::Skip("domain");
    }
    let mut r = Rng::new(c.vseed);
    let c = &if r.pct(50) {
        let mut k = c.clone();
        if let Some(s) = retitle(&c.src, &mut r) {
            o.add("programs with words of the formatter's source", 1);
            k.src = s;
        }
        k
    } else {
        c.clone()
    };
    let Some(a) = out(c, o) else { return V::Skip("refused") };
    let (ts_, ta) = (ts::parse(&c.src), ts::parse(&a));
    let (mut ws, mut wa) = (vec![], vec![]);
    words(ts_.root_node(), &mut ws);
    words(ta.root_node(), &mut wa);
    if ws.len() != wa.len() || ws.is_empty() {
        return V::Skip("words differ");
    }
    let txt = |s: &str, n: &Node| s[n.start_byte()..n.end_byte()].to_string();
    for (x, y) in ws.iter().zip(&wa) {
        if x.kind() != y.kind() || !x.is_extra() && txt(&c.src, x) != txt(&a, y) || x.is_extra() && txt(&c.src, x).trim_end() != txt(&a, y) && !txt(&a, y).contains('\n') {
            return V::Skip("words differ");
        }
    }
    // consistently, each on its own, or all alike
    let how = r.below(4);
    let share = *r.pick(&[100, 100, 50, 15]);
    let mut map: std::collections::HashMap<(String, String), Option<String>> = Default::default();
    let mut new: Vec<Option<String>> = vec![];
    for (x, y) in ws.iter().zip(&wa) {
        let t = txt(&a, y);
        let k = x.kind().to_string();
        let hit = r.pct(share);
        let mut fresh = |r: &mut Rng| if hit { other(&k, &t, r) } else { None };
        let v = match how {
            // every word of this length gets the same name
            0 if !x.is_extra() && k != "int" => map.entry((k.clone(), t.chars().map(|c| if c == '_' { '_' } else { 'x' }).collect())).or_insert_with(|| other(&k, &t, &mut r)).clone(),
            0 | 1 => fresh(&mut r),
            _ => map.entry((k.clone(), t.clone())).or_insert_with(|| fresh(&mut r)).clone(),
        };
        new.push(v);
    }
    let put = |s: &str, w: &[Node], new: &[Option<String>]| {
        let mut o = String::new();
        let mut at = 0;
        for (n, v) in w.iter().zip(new) {
            if let Some(v) = v {
                o.push_str(&s[at..n.start_byte()]);
                o.push_str(v);
                at = n.start_byte() + txt(s, n).trim_end().len();
            }
        }
        o.push_str(&s[at..]);
        o
    };
    let want = shape(&c.src);
    let mut b = put(&c.src, &ws, &new);
    if shape(&b) != want {
        // some new name is a word of the language: keep those
        let keep: Vec<Option<String>> = new.clone();
        for half in 0..2 {
            for (i, v) in new.iter_mut().enumerate() {
                *v = if i % 2 == half { keep[i].clone() } else { None };
            }
            b = put(&c.src, &ws, &new);
            if shape(&b) == want {
                break;
            }
        }
        if shape(&b) != want {
            return V::Skip("no variant");
        }
    }
    let n = new.iter().filter(|x| x.is_some()).count();
    if n == 0 || b == c.src {
        return V::Skip("no variant");
    }
    let exp = put(&a, &wa, &new);
    o.add("words replaced", n);
    match fmt::format(&b, c.width, c.indent) {
        Ok(got) if got == exp => V::Held(n),
        Ok(got) => bad(
            "layout",
            format!("with other words of the same length the layout differs\n--- expected\n{}\n--- got\n{}\n--- source\n{b}", near(&exp, &got).0, near(&exp, &got).1),
        ),
        Err(e) => bad("refused", format!("refused with other words: {e}\n{b}")),
    }
}
fn near(a: &str, b: &str) -> (String, String) {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    let lo = i.saturating_sub(2);
    let cut = |v: &Vec<&str>| v[lo.min(v.len())..(i + 6).min(v.len())].join("\n");
    (cut(&x), cut(&y))
}

// ---------------------------------------------------------------- C30
/// (opening lines, closing lines, levels)
type Wrap = (&'static str, &'static str, usize);
const HEADS: &[Wrap] = &[
    ("class A {\nvoid f() {\n", "}\n}\n", 2),
    ("public class A {\nA(Integer i) {\n", "}\n}\n", 2),
    ("class A {\nstatic {\n", "}\n}\n", 2),
    ("class A {\n{\n", "}\n}\n", 2),
    ("trigger T on Account (before insert) {\n", "}\n", 1),
    ("class A {\nInteger x {\nget {\n", "}\n}\n}\n", 3),
    ("class A {\nInteger x {\nget;\nset {\n", "}\n}\n}\n", 3),
    ("class A {\nclass B {\nvoid f() {\n", "}\n}\n}\n", 3),
    ("@isTest\nprivate class A {\n@isTest\nstatic void f() {\n", "}\n}\n", 2),
    ("class A {\nenum E { X, Y }\npublic virtual void f(Integer i) {\n", "}\nInteger k;\n}\n", 2),
];
const INNER: &[Wrap] = &[
    ("if (a) {\n", "}\n", 1),
    ("if (a) {\nb();\n} else {\n", "}\n", 1),
    ("if (a) {\nb();\n} else if (c) {\n", "} else {\nd();\n}\n", 1),
    ("while (a) {\n", "}\n", 1),
    ("for (Integer i = 0; i < 3; i++) {\n", "}\n", 1),
    ("for (A a : b) {\n", "}\n", 1),
    ("do {\n", "} while (a);\n", 1),
    ("try {\n", "} catch (E e) {\n}\n", 1),
    ("try {\na();\n} catch (E e) {\n", "}\n", 1),
    ("try {\na();\n} finally {\n", "}\n", 1),
    ("{\n", "}\n", 1),
    ("System.runAs(u) {\n", "}\n", 1),
    ("switch on a {\nwhen 1 {\n", "}\nwhen else {\nb();\n}\n}\n", 2),
    ("switch on a {\nwhen 1, 2 {\nb();\n}\nwhen else {\n", "}\n}\n", 2),
    ("a();\nif (b) {\n", "}\nc();\n", 1),
];
const OUTER: &[Wrap] = &[
    ("class A {\n", "}\n", 1),
    ("public with sharing class A {\nInteger i;\n", "void f() {\n}\n}\n", 1),
    ("class A {\nclass B {\n", "}\n}\n", 2),
    ("class A extends B implements C {\nclass D {\nclass E {\n", "}\nInteger k;\n}\n}\n", 3),
];
/// In anonymous classes: within an expression nothing is broken for its width (a listed finding of C14),
/// so these are places without a limit on the width.
const ANON: &[Wrap] = &[
    ("f(new B() {\nvoid g() {\n", "}\n});\n", 3),
    ("f(a, new B() {\nvoid g() {\n", "}\n});\n", 3),
    ("f(new B() {\nvoid g() {\n", "}\n}, a);\n", 3),
    ("a.f(new B() {\npublic override void g() {\n", "}\n});\n", 3),
    ("a.f(new B() {\nvoid g() {\n", "}\n}).c();\n", 4),
    ("return new B(i) {\nvoid g() {\n", "}\n};\n", 2),
    ("B b = new B() {\nInteger i;\nvoid g() {\n", "}\n};\n", 3),
    ("b = new B() {\nvoid g() {\n", "}\n};\n", 3),
    ("throw new B() {\nvoid g() {\n", "}\nvoid h() {\n}\n};\n", 2),
    ("new B() {\nvoid g() {\n", "}\n};\n", 2),
];
const ANON_OUTER: &[Wrap] = &[
    ("class A {\nB b = new B() {\n", "};\n}\n", 3),
    ("class A {\nvoid f() {\nf(new B() {\nInteger i;\n", "});\n}\n}\n", 4),
    ("class A {\nvoid f() {\nf(a, new B(i) {\n", "void g() {\n}\n});\n}\n}\n", 4),
    ("class A {\nvoid f() {\nreturn new B() {\n", "};\n}\n}\n", 3),
    ("class A {\nvoid f() {\nb = new B() {\n", "};\n}\n}\n", 4),
];
const M1: &str = "Integer zqmarka;";
const M2: &str = "Integer zqmarkb;";

fn inside(o: &str, room: usize) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut on = false;
    for l in o.lines() {
        match l.trim() {
            M1 => on = true,
            M2 => return Some(v),
            _ if on => {
                let b = l.len() - l.trim_start_matches(' ').len();
                v.push(if l.trim().is_empty() { String::new() } else if b >= room { l[room..].to_string() } else { format!("<-{}>{}", room - b, l.trim_start()) });
            }
            _ => {}
        }
    }
    None
}

pub fn place(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    if c.mode == Mode::Any {
        return V::Skip("domain");
    }
    let _ = f;
    let t = ts::parse(&c.src);
    let all = ts::items(&t);
    let mut r = Rng::new(c.vseed);
    let stmts = r.pct(75);
    let ok = |i: &&ts::Item| {
        let s = &c.src[i.start..i.end];
        (if stmts { matches!(i.body.as_str(), "block" | "constructor_body") } else { i.body == "class_body" && i.kind != "constructor_declaration" && i.kind != "static_initializer" && i.kind != "block" }) && s.len() < 3000
    };
    let mut picks: Vec<&ts::Item> = all.iter().filter(ok).collect();
    if picks.is_empty() {
        return V::Skip("no item");
    }
    // rather large ones
    picks.sort_by_key(|i| std::cmp::Reverse(i.end - i.start));
    let mut n = 0;
    for _ in 0..2 {
        let i = picks[r.below(picks.len()).min(r.below(picks.len()))];
        // up to the end of its last token, with what belongs to it
        let mut s = c.src[i.start..i.end].to_string();
        if c.src[i.end..].starts_with(';') {
            s.push(';');
        }
        let anon = r.pct(30);
        let make = |r: &mut Rng, plain: bool| -> (String, usize) {
            let (h, inner) = match (stmts, plain || !anon) {
                (true, _) => (HEADS, INNER),
                (false, true) => (OUTER, OUTER),
                (false, false) => (ANON_OUTER, OUTER),
            };
            let mut pre = String::new();
            let mut post = String::new();
            let mut d = 0;
            let mut add = |w: &Wrap, pre: &mut String, post: &mut String| {
                pre.push_str(w.0);
                *post = format!("{}{}", w.1, post);
                d += w.2;
            };
            if plain {
                add(&h[0], &mut pre, &mut post);
            } else {
                add(r.pick(h), &mut pre, &mut post);
                let k = *r.pick(&[0usize, 1, 1, 2, 3, 5, 9, 17, 35]);
                for _ in 0..k {
                    add(r.pick(inner), &mut pre, &mut post);
                }
                if anon && stmts {
                    add(r.pick(ANON), &mut pre, &mut post);
                    for _ in 0..r.below(3) {
                        add(r.pick(INNER), &mut pre, &mut post);
                    }
                }
            }
            let gap = if plain { "\n" } else { *r.pick(&["\n", "\n  ", "\n\t\t\t"]) };
            (format!("{pre}{M1}{gap}{s}\n{M2}\n{post}"), d)
        };
        let (p, dp) = make(&mut r, true);
        let (q, dq) = make(&mut r, false);
        if !ts::valid(&p) || !ts::valid(&q) {
            continue;
        }
        // the room of the shallowest place is c.width
        let w = |d: usize| if anon { 1_000_000 } else { c.width + d as u32 * c.indent };
        let Ok(a) = fmt::format(&p, w(dp), c.indent) else { continue };
        let b = match fmt::format(&q, w(dq), c.indent) {
            Ok(b) => b,
            Err(e) => return bad(format!("refused {}", i.kind), format!("formatted at one place, refused at another: {e}\n{q}")),
        };
        let (Some(x), Some(y)) = (inside(&a, dp * c.indent as usize), inside(&b, dq * c.indent as usize)) else { continue };
        n += 1;
        o.add("places compared", 1);
        o.add("levels", dq);
        o.add("places in an anonymous class", anon as usize);
        if x != y {
            let (x, y) = near(&x.join("\n"), &y.join("\n"));
            return bad(
                i.kind.to_string(),
                format!("laid out differently at a place with the same room\n--- at depth {dp}\n{x}\n--- at depth {dq}\n{y}\n--- source\n{q}"),
            );
        }
    }
    if n == 0 {
        V::Skip("no variant")
    } else {
        V::Held(n)
    }
}

// ---------------------------------------------------------------- C31
/// The lines that hold code: its columns unless a comment stands before it, and the code.
fn code_lines(s: &str, mixed: &mut bool) -> Vec<(Option<usize>, String)> {
    let mut hide = vec![false; s.len()];
    for t in crate::lex::lex(s) {
        if matches!(t.k, crate::lex::K::Line | crate::lex::K::Block) {
            hide[t.start..t.end].fill(true);
        }
    }
    let mut v = vec![];
    let mut at = 0;
    for l in s.split('\n') {
        let code: String = l.char_indices().filter(|(i, _)| !hide[at + i]).map(|x| x.1).collect();
        let any = (0..l.len()).any(|i| hide[at + i]);
        let body = l.len() - l.trim_start_matches(' ').len();
        let first = body < l.len() && !hide[at + body];
        if !code.trim().is_empty() {
            *mixed |= any;
            v.push((first.then_some(body), code.trim().to_string()));
        }
        at += l.len() + 1;
    }
    v
}
pub fn noise(c: &Case, o: &mut Obs) -> V {
    let f = see(c, o);
    let mut r = Rng::new(c.vseed);
    let (with, without) = match c.mode {
        Mode::Any => return V::Skip("domain"),
        Mode::Free => {
            let n = *r.pick(&[1, 3, 8, 30]);
            match crate::case::inject_sane(&c.src, &mut r, n) {
                Some(s) => (s, c.src.clone()),
                None => return V::Skip("no place for a comment"),
            }
        }
        Mode::Sane => {
            let mut s = String::new();
            let mut at = 0;
            for t in crate::lex::lex(&c.src) {
                if matches!(t.k, crate::lex::K::Line | crate::lex::K::Block) {
                    s.push_str(&c.src[at..t.start]);
                    s.push(' ');
                    at = t.end;
                }
            }
            s.push_str(&c.src[at..]);
            (c.src.clone(), s)
        }
    };
    let _ = f;
    if !ts::valid(&without) {
        return V::Skip("domain");
    }
    // comments that decide whether what holds them is written on one line
    let t = ts::parse(&with);
    let (mut todo, mut n) = (vec![t.root_node()], 0);
    while let Some(x) = todo.pop() {
        let mut w = x.walk();
        for k in x.children(&mut w) {
            if k.is_extra() {
                n += 1;
                if matches!(x.kind(), "accessor_list" | "enum_body" | "enum_constant" | "accessor_declaration") {
                    return V::Skip("comment in a list that may be on one line");
                }
            }
            todo.push(k);
        }
    }
    if n == 0 {
        return V::Skip("no comment");
    }
    let mut w = c.width;
    for _ in 0..2 {
        let Ok(a) = fmt::format(&without, w, c.indent) else { return V::Skip("refused") };
        let b = match fmt::format(&with, w, c.indent) {
            Ok(b) => b,
            Err(e) => return bad("refused", format!("refused with comments, formatted without: {e}\n{with}")),
        };
        let (mut mixed, mut no) = (false, false);
        let (y, x) = (code_lines(&b, &mut mixed), code_lines(&a, &mut no));
        if mixed && w < 1_000_000 {
            // what stands on the line of a comment has less room
            w = 1_000_000;
            continue;
        }
        o.add("comments taken away", n);
        o.add("code lines compared", x.len());
        o.add("with the drawn width", (w == c.width) as usize);
        let same = x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.1 == q.1 && q.0.is_none_or(|k| p.0 == Some(k)));
        if !same {
            let i = x.iter().zip(&y).take_while(|(p, q)| p.1 == q.1 && q.0.is_none_or(|k| p.0 == Some(k))).count();
            let show = |v: &Vec<(Option<usize>, String)>| v[i.saturating_sub(2).min(v.len())..(i + 5).min(v.len())].iter().map(|l| format!("{:?} {}", l.0, l.1)).collect::<Vec<_>>().join("\n");
            return bad("layout", format!("comments change the layout of code\n--- without\n{}\n--- with\n{}\n--- source\n{with}\n--- output\n{b}", show(&x), show(&y)));
        }
        return V::Held(n);
    }
    V::Skip("no variant")
}

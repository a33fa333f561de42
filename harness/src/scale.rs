//! Depth and size: nested programs through the real program with its real stacks, and the
//! growth of the executed instructions with the length of the input.
use crate::cli::{Out, Sand, St};
use crate::lex;
use crate::rng::Rng;
use crate::run::{self, Report};
use crate::ts;
use serde_json::json;
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ nesting
pub const EXPR: &[(&str, &str, &str)] = &[
    ("parentheses", "(", ")"),
    ("call", "f(", ")"),
    ("second argument", "g(1, ", ")"),
    ("method call", "a.m(", ")"),
    ("index", "xs[", "]"),
    ("not", "!", ""),
    ("minus", "-", ""),
    ("cast", "(Integer) ", ""),
    ("sum", "1 + (", ")"),
    ("conjunction", "b && (", ")"),
    ("ternary then", "c ? ", " : 0"),
    ("ternary else", "c ? 0 : ", ""),
    ("assignment", "y = ", ""),
    ("list", "new List<Integer>{ ", " }"),
    ("map", "new Map<A, B>{ k => ", " }"),
    ("new", "new Foo(", ")"),
    ("named argument", "new Foo(a = ", ")"),
    ("query bind", "[SELECT Id FROM A WHERE x = :", "]"),
    ("then call", "", ".m()"),
    ("then field", "", ".f"),
    ("safe call", "", "?.m(1)"),
    ("then plus", "", " + z"),
    ("then coalesce", "", " ?? z"),
    ("instanceof", "(", " instanceof T)"),
];
pub const STMT: &[(&str, &str, &str)] = &[
    ("block", "{ ", " }"),
    ("if", "if (a) { ", " }"),
    ("else", "if (a) { x(); } else { ", " }"),
    ("else if", "if (a) { x(); } else ", ""),
    ("for", "for (Integer i = 0; i < 1; i++) { ", " }"),
    ("for each", "for (A a : b) { ", " }"),
    ("while", "while (a) { ", " }"),
    ("do", "do { ", " } while (a);"),
    ("try", "try { ", " } catch (E e) { y(); }"),
    ("catch", "try { y(); } catch (E e) { ", " }"),
    ("finally", "try { y(); } finally { ", " }"),
    ("switch", "switch on a { when 1 { ", " } }"),
    ("run as", "System.runAs(u) { ", " }"),
    ("bare if", "if (a) ", ""),
    ("bare while", "while (a) ", ""),
];
pub const COND: &[(&str, &str, &str)] = &[
    ("and", "a = 1 AND (", ")"),
    ("or", "a = 1 OR (", ")"),
    ("not", "NOT (", ")"),
    ("paren", "(", ")"),
];

fn wrap(ws: &[(&str, &str, &str)], core: &str) -> String {
    let mut o = String::new();
    for w in ws {
        o.push_str(w.1);
    }
    o.push_str(core);
    for w in ws.iter().rev() {
        o.push_str(w.2);
    }
    o
}
fn expr(ws: &[(&str, &str, &str)]) -> String {
    format!("class A {{ void m() {{ x = {}; }} }}\n", wrap(ws, "q"))
}
fn stmt(ws: &[(&str, &str, &str)]) -> String {
    format!("class A {{ void m() {{ {} }} }}\n", wrap(ws, "q();"))
}
fn cond(ws: &[(&str, &str, &str)]) -> String {
    format!("class A {{ void m() {{ x = [SELECT Id FROM B WHERE {}]; }} }}\n", wrap(ws, "b = 2"))
}
fn class(d: usize) -> String {
    let mut o = String::new();
    for i in 0..d {
        o.push_str(&format!("class C{i} {{ Integer a{i}; "));
    }
    o.push_str(&"}".repeat(d));
    o.push('\n');
    o
}
fn types(d: usize) -> String {
    format!("class A {{ {}Integer{} a; }}\n", "List<".repeat(d), ">".repeat(d))
}

/// (what, depth, source)
fn nest_case(i: u64, seed: u64) -> (String, usize, String) {
    let fixed = EXPR.len() + STMT.len() + COND.len() + 2;
    let depths = [100usize, 99, 50, 25];
    let k = i as usize;
    if k < fixed * depths.len() {
        let d = depths[k / fixed];
        let j = k % fixed;
        if j < EXPR.len() {
            // chains are common and go further
            let d = if EXPR[j].0.starts_with("then") || EXPR[j].0 == "parentheses" { d * 5 / 2 } else { d };
            return (EXPR[j].0.into(), d, expr(&vec![EXPR[j]; d]));
        }
        let j = j - EXPR.len();
        if j < STMT.len() {
            return (STMT[j].0.into(), d, stmt(&vec![STMT[j]; d]));
        }
        let j = j - STMT.len();
        if j < COND.len() {
            return (format!("query {}", COND[j].0), d, cond(&vec![COND[j]; d]));
        }
        return if j == COND.len() { ("class".into(), d, class(d)) } else { ("type argument".into(), d, types(d)) };
    }
    let mut r = Rng::stream(seed, "C20", i);
    let d = r.range(10, 100);
    let pick = |t: &[(&'static str, &'static str, &'static str)], r: &mut Rng| -> Vec<(&'static str, &'static str, &'static str)> {
        // a few kinds alternating
        let k: Vec<_> = (0..r.range(2, 5)).map(|_| *r.pick(t)).collect();
        (0..d).map(|_| *r.pick(&k)).collect()
    };
    match r.below(10) {
        0..=4 => ("mixed expressions".into(), d, expr(&pick(EXPR, &mut r))),
        5..=8 => ("mixed statements".into(), d, stmt(&pick(STMT, &mut r))),
        _ => ("mixed conditions".into(), d, cond(&pick(COND, &mut r))),
    }
}

fn same_code(a: &str, b: &str, parens: bool) -> bool {
    let f = |s: &str| -> Vec<String> {
        lex::code(s).into_iter().map(|t| t.t.to_lowercase()).filter(|t| !parens || t != "(" && t != ")").collect()
    };
    f(a) == f(b)
}

fn nest_one(s: &Sand, seed: u64, i: u64, st: &mut St) {
    let (what, d, src) = nest_case(i, seed);
    let rp = json!({"property": "C20", "kind": "nest", "seed": seed.to_string(), "case": i});
    let ok = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || ts::valid(&src)).map(|h| h.join().unwrap_or(false)).unwrap_or(false)
    });
    if !ok {
        st.add("draws that are not a program", 1);
        return;
    }
    let w = s.work(&format!("{i}"));
    let f = w.join("A.cls");
    s.put(&f, src.as_bytes(), 0o644);
    let o = s.run(&s.afmt, &["-w", "A.cls"], &w, &[], None);
    let say = |m: &str| format!("{m}\n{what}, {d} levels\n{}\n{}", o.show(), run::clip(&src, 600));
    let now = std::fs::read_to_string(&f).unwrap_or_default();
    st.see("nesting kinds", what.clone());
    st.add("levels", d as u64);
    let e = st.counts.entry("deepest".into()).or_default();
    *e = (*e).max(d as u64);
    if o.watchdog() {
        st.undecided += 1;
    } else if o.sig == Some(libc::SIGXCPU) || o.sig == Some(libc::SIGKILL) {
        st.bad(format!("no end: {what}"), say("not done after 100 s of CPU time"), rp);
    } else if o.code != Some(0) {
        if now != src {
            st.bad(format!("touched: {what}"), say("the run failed and the file changed"), rp);
        } else {
            st.bad(format!("failed: {what}"), say("a nested program was not formatted"), rp);
        }
    } else {
        let q = what.starts_with("query") || what.contains("conditions");
        if !same_code(&src, &now, q) {
            st.bad(format!("tokens: {what}"), say("the output is another program"), rp);
        } else {
            let o2 = s.run(&s.afmt, &["--check", "A.cls"], &w, &[], None);
            if o2.code != Some(0) && !o2.watchdog() {
                st.bad(format!("unstable: {what}"), say(&format!("the output is not accepted as formatted: {}", o2.show())), rp);
            }
        }
    }
    st.decided(&src);
    if st.samples.is_empty() {
        st.samples.push(json!({"case": i, "what": what, "depth": d, "exit": o.code, "output_lines": now.lines().count()}));
    }
    s.drop_work(&w);
}

fn plan(prop: &str, tier: &str) -> (u64, u64) {
    let n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    let (c, s) = match (prop, tier) {
        ("C20", "thorough") => (20_000, 600),
        ("C20", _) => (500, 60),
        (_, "thorough") => (100_000, 600),
        _ => (100_000, 60),
    };
    (n("AFMT_CASES").unwrap_or(c), n("AFMT_SECS").unwrap_or(s))
}

fn pool<F: Fn(u64, &mut St) + Sync>(n: u64, secs: u64, f: F) -> St {
    let next = AtomicUsize::new(0);
    let start = Instant::now();
    let mut all = St::default();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..run::ncpu())
            .map(|_| {
                sc.spawn(|| {
                    let mut st = St::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                        if i >= n || start.elapsed() > Duration::from_secs(secs) || st.bad.len() >= 4 {
                            break;
                        }
                        f(i, &mut st);
                    }
                    st
                })
            })
            .collect();
        for h in hs {
            if let Ok(s) = h.join() {
                all.merge(s);
            }
        }
    });
    all
}

pub fn depth(tier: &str) -> Report {
    let (n, secs) = plan("C20", tier);
    let seed = run::seed();
    let s = Sand::new("C20");
    let mut st = pool(n, secs, |i, st| nest_one(&s, seed, i, st));
    // the listed finding: far deeper nesting exhausts the stack
    let w = s.work("probe");
    let src = format!("class A {{ void m() {{ x = {}q{}; }} }}\n", "(".repeat(20_000), ")".repeat(20_000));
    s.put(&w.join("A.cls"), src.as_bytes(), 0o644);
    let o = s.run(&s.afmt, &["-w", "A.cls"], &w, &[], None);
    let now = std::fs::read(w.join("A.cls")).unwrap_or_default();
    st.add("probe of 20000 levels", 1);
    if !o.watchdog() {
        if o.code != Some(0) && now != src.as_bytes() {
            st.bad("touched: probe", format!("the run failed and the file changed\n{}", o.show()), json!({"kind": "nest", "property": "C20", "case": 0, "seed": "1"}));
        } else if o.sig.is_some() {
            *st.known.entry("stack-20000".into()).or_default() += 1;
        }
    }
    s.drop_work(&w);
    crate::cli::report("C20", st, n, &s)
}

// ------------------------------------------------------------------ instructions
type Family = (&'static str, fn(usize) -> String);
/// families whose syntax tree gets deeper with their length: bounded by quadratic growth
const DEEP: &[&str] = &["method chain", "sum", "conjunction", "conditions", "else if chain", "string concatenation"];
fn body(s: String) -> String {
    format!("class A {{ void m() {{\n{s}\n}} }}\n")
}
fn rep(n: usize, f: impl Fn(usize) -> String, sep: &str) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}
pub const FAMILIES: &[Family] = &[
    ("fields", |n| format!("class A {{\n{}\n}}\n", rep(n, |i| format!("Integer f{i} = {i};"), "\n"))),
    ("methods", |n| format!("class A {{\n{}\n}}\n", rep(n / 4, |i| format!("public void m{i}(Integer a) {{ return; }}"), "\n\n"))),
    ("properties", |n| format!("class A {{\n{}\n}}\n", rep(n / 4, |i| format!("public Integer p{i} {{ get; set; }}"), "\n"))),
    ("inner classes", |n| format!("class A {{\n{}\n}}\n", rep(n / 4, |i| format!("class B{i} {{ Integer x; }}"), "\n"))),
    ("annotations", |n| format!("class A {{\n{}\n}}\n", rep(n / 4, |i| format!("@IsTest(SeeAllData=true) static void m{i}() {{}}"), "\n"))),
    ("enum constants", |n| format!("enum A {{ {} }}\n", rep(n, |i| format!("C{i}"), ", "))),
    ("statements", |n| body(rep(n, |i| format!("x{i} = {i};"), "\n"))),
    ("calls", |n| body(rep(n, |i| format!("foo{i}(a, b, {i});"), "\n"))),
    ("declarations", |n| body(rep(n, |i| format!("Map<Id, String> v{i} = new Map<Id, String>();"), "\n"))),
    ("ifs", |n| body(rep(n / 4, |i| format!("if (a{i}) {{ b(); }} else {{ c(); }}"), "\n"))),
    ("loops", |n| body(rep(n / 4, |i| format!("for (Integer i{i} = 0; i{i} < 9; i{i}++) {{ b(); }}"), "\n"))),
    ("tries", |n| body(rep(n / 4, |_| "try { a(); } catch (E e) { b(); } finally { c(); }".into(), "\n"))),
    ("when blocks", |n| body(format!("switch on a {{ {} }}", rep(n / 4, |i| format!("when {i} {{ b(); }}"), "\n")))),
    ("arguments", |n| body(format!("f({});", rep(n, |i| format!("a{i}"), ", ")))),
    ("parameters", |n| format!("class A {{ void m({}) {{}} }}\n", rep(n, |i| format!("Integer a{i}"), ", "))),
    ("list elements", |n| body(format!("List<Integer> x = new List<Integer>{{ {} }};", rep(n, |i| format!("{i}"), ", ")))),
    ("map entries", |n| body(format!("x = new Map<A, B>{{ {} }};", rep(n, |i| format!("{i} => 'v{i}'"), ", ")))),
    ("declarators", |n| body(format!("Integer {};", rep(n, |i| format!("a{i} = {i}"), ", ")))),
    ("selected fields", |n| body(format!("x = [SELECT {} FROM A];", rep(n, |i| format!("F{i}__c"), ", ")))),
    ("queries", |n| body(rep(n / 4, |i| format!("x{i} = [SELECT Id FROM A WHERE b = :c{i} LIMIT 1];"), "\n"))),
    ("bind lists", |n| body(format!("x = [SELECT Id FROM A WHERE b IN ({})];", rep(n, |i| format!("'v{i}'"), ", ")))),
    ("line comments", |n| body(rep(n, |i| format!("x{i}(); // note {i}"), "\n"))),
    ("comments before statements", |n| body(rep(n, |i| format!("// note {i}\nx{i}();"), "\n"))),
    ("block comments", |n| format!("class A {{\n{}\n}}\n", rep(n / 4, |i| format!("/**\n * doc {i}\n */\nInteger f{i};"), "\n"))),
    ("doc comment lines", |n| format!("/**\n{}\n */\nclass A {{}}\n", rep(n, |i| format!(" * line {i}"), "\n"))),
    ("long string", |n| body(format!("x = '{}';", "abcdefgh ".repeat(n)))),
    ("long comment", |n| format!("// {}\nclass A {{}}\n", "abcdefgh ".repeat(n))),
    ("blank lines", |n| body(format!("a();{}b();", "\n".repeat(n * 8)))),
    ("blanks", |n| body(format!("a();{}b();", " ".repeat(n * 8)))),
    ("stray semicolons", |n| format!("class A {{ {} }}\n", ";".repeat(n))),
    ("interface methods", |n| format!("interface A {{\n{}\n}}\n", rep(n / 2, |i| format!("void m{i}();"), "\n"))),
    ("trigger events", |n| format!("trigger T on A ({}) {{}}\n", rep(n, |_| "before insert".into(), ", "))),
    ("implemented types", |n| format!("class A implements {} {{}}\n", rep(n, |i| format!("I{i}"), ", "))),
    ("type arguments", |n| format!("class A {{ Foo<{}> x; }}\n", rep(n, |i| format!("T{i}"), ", "))),
    ("top-level comments", |n| format!("{}\nclass A {{}}\n", rep(n, |i| format!("// note {i}"), "\n"))),
    ("order by", |n| body(format!("x = [SELECT Id FROM A ORDER BY {}];", rep(n, |i| format!("F{i}"), ", ")))),
    ("subqueries", |n| body(format!("x = [SELECT {} FROM A];", rep(n / 4, |i| format!("(SELECT Id FROM B{i}s)"), ", ")))),
    ("modifiers", |n| format!("class A {{\n{}\n}}\n", rep(n / 2, |i| format!("public static final transient Integer f{i};"), "\n"))),
    ("a run of comments between statements", |n| body(format!("a();\n{}\nb();", rep(n, |i| format!("// note {i}"), "\n")))),
    ("a run of comments between members", |n| format!("class A {{\nInteger a;\n{}\nInteger b;\n}}\n", rep(n, |i| format!("// note {i}"), "\n"))),
    ("a run of block comments behind the last member", |n| format!("class A {{\nInteger a;\n{}\n}}\n", rep(n, |i| format!("/* note {i} */"), "\n"))),
    ("a run of comments between arguments", |n| body(format!("f(a,\n{}\nb);", rep(n, |i| format!("// note {i}"), "\n")))),
    ("members after runs of comments", |n| format!("class A {{\n{}\n}}\n", rep(n / 20, |i| format!("{}\nInteger f{i};", "// note\n".repeat(20).trim_end()), "\n"))),
    ("comments only in a block", |n| body(rep(n, |i| format!("// note {i}"), "\n"))),
    ("method chain", |n| body(format!("x{};", rep(n / 8, |i| format!(".m{i}()"), "")))),
    ("sum", |n| body(format!("x = {};", rep(n / 8, |i| format!("a{i}"), " + ")))),
    ("conjunction", |n| body(format!("x = {};", rep(n / 8, |i| format!("a{i}"), " && ")))),
    ("conditions", |n| body(format!("x = [SELECT Id FROM A WHERE {}];", rep(n / 8, |i| format!("a{i} = 1"), " AND ")))),
    ("else if chain", |n| body(rep(n / 8, |i| format!("if (a{i}) {{ b(); }}"), " else "))),
    ("string concatenation", |n| body(format!("x = {};", rep(n / 8, |i| format!("'part {i}'"), " + ")))),
    ("catch clauses", |n| body(format!("try {{ a(); }} {}", rep(n / 4, |i| format!("catch (E{i} e) {{ b(); }}"), " ")))),
    ("when values", |n| body(format!("switch on a {{ when {} {{ b(); }} }}", rep(n, |i| format!("{i}"), ", ")))),
    ("sosl returning", |n| body(format!("x = [FIND 'a' RETURNING {}];", rep(n / 4, |i| format!("A{i}(Id)"), ", ")))),
];

/// instructions the program executes on this text
fn instructions(s: &Sand, w: &Path, src: &str, tag: &str) -> Result<u64, Out> {
    let f = w.join(format!("{tag}.cls"));
    s.put(&f, src.as_bytes(), 0o644);
    let a = s.afmt.display().to_string();
    let args = ["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", "--main-stacksize=8388608", a.as_str(), f.to_str().unwrap_or("")];
    let o = s.run(Path::new("/usr/bin/valgrind"), &args, w, &[], None);
    if o.code != Some(0) {
        return Err(o);
    }
    let e = String::from_utf8_lossy(&o.err).into_owned();
    e.lines().find_map(|l| {
        let p = l.find("I refs:").or_else(|| l.find("I   refs:"))?;
        let d: String = l[p + 8..].chars().filter(|c| c.is_ascii_digit()).collect();
        d.parse().ok()
    })
    .ok_or(o)
}

/// Largest accepted ratio of the growth from 2n to 4n to the growth from n to 2n: 2 for
/// linear cost, 4 for quadratic, 8 for cubic.
const LINEAR: f64 = 2.4;
const QUADRATIC: f64 = 4.8;

type W = (&'static str, &'static str, &'static str);
/// nesting of one or two kinds in turn: (name, builder by depth)
fn nest_pair(k: usize) -> (String, Box<dyn Fn(usize) -> String>) {
    fn turn(a: W, b: W, d: usize) -> Vec<W> {
        (0..d).map(|i| if i % 2 == 0 { a } else { b }).collect()
    }
    let (e, s, c) = (EXPR.len(), STMT.len(), COND.len());
    let (mut k, t) = if k < e * e {
        (k, 0)
    } else if k < e * e + s * s {
        (k - e * e, 1)
    } else if k < e * e + s * s + c * c {
        (k - e * e - s * s, 2)
    } else {
        return match k - e * e - s * s - c * c {
            0 => ("classes".into(), Box::new(class)),
            _ => ("type arguments within each other".into(), Box::new(types)),
        };
    };
    let tab: &'static [W] = [EXPR, STMT, COND][t];
    let n = tab.len();
    // the plain ones first
    let (i, j) = if k < n {
        (k, k)
    } else {
        k -= n;
        let (i, j) = (k / (n - 1), k % (n - 1));
        (i, if j >= i { j + 1 } else { j })
    };
    let (a, b) = (tab[i], tab[j]);
    let name = if i == j { format!("nested {}", a.0) } else { format!("nested {} and {}", a.0, b.0) };
    let f: fn(&[W]) -> String = [|w: &[W]| expr(w), |w: &[W]| stmt(w), |w: &[W]| cond(w)][t];
    (name, Box::new(move |d| f(&turn(a, b, d))))
}
const NESTS: usize = 24 * 24 + 15 * 15 + 4 * 4 + 2;
/// where the plain ones are
fn plain_nests() -> Vec<usize> {
    let (e, s, c) = (EXPR.len(), STMT.len(), COND.len());
    assert_eq!(NESTS, e * e + s * s + c * c + 2);
    let o = e * e + s * s;
    (0..e).chain(e * e..e * e + s).chain(o..o + c).chain(o + c * c..o + c * c + 2).collect()
}

/// one measurement of a family: base, twice and four times the size
fn cost_one(s: &Sand, name: &str, f: &dyn Fn(usize) -> String, base: usize, deep: bool, tag: u64, st: &mut St) {
    let w = s.work(&format!("{tag}"));
    let mut c: Vec<u64> = vec![];
    let rp = json!({"property": "C19", "kind": "cost", "family": name, "size": base});
    let what = if deep { "growth ratio by nesting" } else { "growth ratio by family" };
    for k in [1, 2, 4] {
        let src = f(base * k);
        if k == 1 && !ts::valid(&src) {
            s.drop_work(&w);
            st.add("draws that are not a program", 1);
            return;
        }
        match instructions(s, &w, &src, &format!("s{k}")) {
            Ok(n) => c.push(n),
            Err(o) if o.sig == Some(libc::SIGXCPU) || o.sig == Some(libc::SIGKILL) => {
                st.bad(format!("no end {name}"), format!("{name}: at size {} no result within 100 s of CPU time; before: {c:?}\n{}", base * k, run::clip(&src, 600)), rp);
                st.decided(&name);
                s.drop_work(&w);
                return;
            }
            Err(o) => {
                st.undecided += 1;
                st.see("not measured", format!("{name} at {}: {}", base * k, run::clip(&o.show(), 300)));
                s.drop_work(&w);
                return;
            }
        }
    }
    s.drop_work(&w);
    let (a, b, d) = (c[0], c[1], c[2]);
    let q = (d as f64 - b as f64) / (b as f64 - a as f64).max(1.0);
    st.add("instructions counted", a + b + d);
    let key = format!("superlinear-{}", name.replace(' ', "-"));
    let known = run::known_findings("C19").iter().any(|k| k.0 == key);
    st.see(what, format!("{q:.2} {name} ({a} {b} {d})"));
    let limit = if deep || DEEP.contains(&name) || known { QUADRATIC } else { LINEAR };
    // below this the growth is that of the fixed cost of a run
    let floor = if deep { 20_000_000 } else { 0 };
    if q > LINEAR && known && q <= QUADRATIC {
        *st.known.entry(key).or_default() += 1;
    } else if q > limit && d - b > floor {
        st.bad(
            format!("superlinear {name}"),
            format!("{name}: {a} instructions at size {base}, {b} at twice, {d} at four times: growth ratio {q:.2}\n{}", run::clip(&f(base), 600)),
            rp,
        );
    }
    st.decided(&name);
    if st.samples.is_empty() {
        st.samples.push(json!({"family": name, "size": base, "instructions": [a, b, d], "ratio": q}));
    }
}

pub fn cost(tier: &str) -> Report {
    let thorough = tier == "thorough";
    let base = if thorough { 1600 } else { 400 };
    let s = Sand::new("C19");
    let nf = FAMILIES.len() as u64;
    // all plain nestings, and pairs in an order drawn by the seed
    let mut nests = plain_nests();
    let mut rest: Vec<usize> = (0..NESTS).filter(|k| !nests.contains(k)).collect();
    let mut r = Rng::stream(run::seed(), "C19", 0);
    while !rest.is_empty() {
        nests.push(rest.swap_remove(r.below(rest.len())));
    }
    let first = nests.len().min(plain_nests().len());
    let total = nf + nests.len() as u64;
    let secs = if thorough { 800 } else { 100 };
    let st = pool(total, secs, |i, st| {
        if (i as usize) < first {
            let (name, f) = nest_pair(nests[i as usize]);
            cost_one(&s, &name, &f, NEST_BASE, true, i, st)
        } else if (i as usize) < first + FAMILIES.len() {
            let (name, f) = FAMILIES[i as usize - first];
            cost_one(&s, name, &f, base, false, i, st)
        } else {
            let (name, f) = nest_pair(nests[i as usize - FAMILIES.len()]);
            cost_one(&s, &name, &f, NEST_BASE, true, i, st)
        }
    });
    crate::cli::report("C19", st, total, &s)
}
const NEST_BASE: usize = 8;

pub fn replay(v: &serde_json::Value) -> (bool, String) {
    let s = Sand::new("replay");
    let mut st = St::default();
    let seed: u64 = v["seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(1);
    if v["kind"] == "nest" {
        nest_one(&s, seed, v["case"].as_u64().unwrap_or(0), &mut st);
    } else {
        let name = v["family"].as_str().unwrap_or("");
        let base = v["size"].as_u64().unwrap_or(8) as usize;
        if let Some(f) = FAMILIES.iter().find(|f| f.0 == name) {
            cost_one(&s, name, &f.1, base, false, 0, &mut st);
        } else if let Some(f) = (0..NESTS).map(nest_pair).find(|f| f.0 == name) {
            cost_one(&s, name, &f.1, base, true, 0, &mut st);
        }
    }
    match st.bad.first() {
        Some(b) => (true, format!("{}\n{}", b.sig, b.msg)),
        None => (false, "no violation".into()),
    }
}

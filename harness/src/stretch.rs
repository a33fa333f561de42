//! One dimension of a program made large: what a formatter counts in a small integer, keeps in a
//! buffer or looks ahead for shows only there.
use crate::{rng::Rng, ts};
use tree_sitter::Node;

fn sites<'a>(n: Node<'a>, f: &dyn Fn(&Node) -> bool, o: &mut Vec<Node<'a>>) {
    if f(&n) {
        o.push(n);
    }
    let mut c = n.walk();
    for x in n.children(&mut c).collect::<Vec<_>>() {
        sites(x, f, o);
    }
}
fn list(k: &str) -> bool {
    matches!(
        k,
        "argument_list" | "formal_parameters" | "array_initializer" | "map_initializer" | "type_arguments" | "select_clause"
            | "enum_body" | "comparable_list" | "order_by_clause" | "group_by_clause" | "type_list" | "switch_label"
            | "local_variable_declaration" | "field_declaration" | "returning_clause" | "selected_fields" | "type_parameters"
            | "from_clause" | "function_expression"
    )
}
fn body(k: &str) -> bool {
    matches!(k, "class_body" | "interface_body" | "block" | "constructor_body" | "switch_block" | "parser_output" | "trigger_block")
}
fn long(r: &mut Rng, n: usize, ascii: bool) -> String {
    let cs: Vec<char> = if ascii || r.pct(50) { "abcXYZ019_".chars().collect() } else { "ab é ß ж 日本 😀 \u{301} 9 ! // /* */ {}".chars().collect() };
    let mut s = String::from("q");
    while s.chars().count() < n {
        s.push(*r.pick(&cs));
    }
    if ascii {
        // no doubled or final underscore
        s = s.replace('_', "u");
    }
    s
}

pub fn stretch(src: &str, r: &mut Rng) -> Option<String> {
    let t = ts::parse(src);
    let root = t.root_node();
    let txt = |n: &Node| &src[n.start_byte()..n.end_byte()];
    let mut v = vec![];
    let put = |a: usize, b: usize, s: &str| format!("{}{}{}", &src[..a], s, &src[b..]);
    let many = |r: &mut Rng| *r.pick(&[12usize, 20, 30, 33, 50, 65, 100, 129, 200, 260]);
    let o = match r.below(10) {
        0 | 1 => {
            sites(root, &|n| n.is_named() && !n.is_extra() && n.parent().is_some_and(|p| list(p.kind())), &mut v);
            v.retain(|n| n.byte_range().len() < 120);
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let k = many(r);
            put(n.end_byte(), n.end_byte(), &format!(", {}", txt(&n)).repeat(k))
        }
        2 | 3 => {
            sites(root, &|n| n.is_named() && !n.is_extra() && n.parent().is_some_and(|p| body(p.kind())), &mut v);
            v.retain(|n| n.byte_range().len() < 200);
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let k = many(r);
            let sep = *r.pick(&["\n", "\n", "\n\n", " "]);
            let end = if src[n.end_byte()..].starts_with(';') { ";" } else { "" };
            put(n.start_byte(), n.start_byte(), &format!("{}{end}{sep}", txt(&n)).repeat(k))
        }
        4 => {
            sites(root, &|n| matches!(n.kind(), "string_literal" | "identifier" | "type_identifier"), &mut v);
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let k = *r.pick(&[33usize, 64, 65, 100, 128, 129, 250, 255, 256, 257, 600, 1030, 5000]);
            if n.kind() == "string_literal" {
                let s = long(r, k, false);
                put(n.start_byte() + 1, n.start_byte() + 1, &s)
            } else {
                put(n.start_byte(), n.end_byte(), &long(r, k, true))
            }
        }
        5 | 6 => {
            sites(
                root,
                &|n| {
                    n.is_named() && !n.is_extra() && n.kind().ends_with("_expression") | matches!(n.kind(), "identifier" | "method_invocation")
                        && n.parent().is_some_and(|p| {
                            matches!(
                                p.kind(),
                                "argument_list" | "parenthesized_expression" | "variable_declarator" | "return_statement"
                                    | "expression_statement" | "binary_expression" | "assignment_expression" | "ternary_expression"
                            )
                        })
                },
                &mut v,
            );
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let e = txt(&n);
            let k = *r.pick(&[7usize, 9, 12, 17, 20, 26, 33]);
            let w = *r.pick(&["a", "bb", "aLongerName"]);
            let s = match r.below(9) {
                0 => format!("{}{e}{}", format!("{w}(").repeat(k), ")".repeat(k)),
                1 => format!("{}{e}{}", "(".repeat(k.min(12)), ")".repeat(k.min(12))),
                2 => format!("{}{e}", format!("{w} {} ", r.pick(&["+", "-", "&&", "||", "??", "*", "|"])).repeat(k)),
                3 => format!("{}{e}", format!("{w} ? b : ").repeat(k.min(17))),
                4 => format!("{w}{}.c({e})", [".b()", "?.b(x)", ".b", ".b(1)[2]", "[0]"][r.below(5)].repeat(k)),
                5 => {
                    let o = *r.pick(&["!", "-", "~"]);
                    format!("{}({e})", format!("{o} ").repeat(k))
                }
                6 => format!("{}{e}", "(Integer) ".repeat(k)),
                7 => format!("{}{e}{}", format!("{w}[").repeat(k), "]".repeat(k)),
                _ => format!("{}{e}{}", "new List<Object>{ ".repeat(k.min(17)), " }".repeat(k.min(17))),
            };
            put(n.start_byte(), n.end_byte(), &s)
        }
        7 => {
            sites(root, &|n| n.kind().ends_with("_statement") && n.parent().is_some_and(|p| p.kind() == "block"), &mut v);
            v.retain(|n| n.byte_range().len() < 400);
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let e = txt(&n);
            let k = *r.pick(&[7usize, 12, 17, 26, 33]);
            let s = match r.below(6) {
                0 => format!("{}{e}{}", "if (a) {\n".repeat(k), "}\n".repeat(k)),
                1 => format!("{}{{ {e} }}", "if (a) { b(); } else ".repeat(k)),
                2 => format!("{}{e}{}", "while (a) {\n".repeat(k), "}\n".repeat(k)),
                3 => format!("{}{e}{}", "try {\n".repeat(k), "} catch (E x) {\n}\n".repeat(k)),
                4 => format!("{}{e}{}", "{\n".repeat(k), "}\n".repeat(k)),
                _ => format!("switch on a {{\n{}when else {{ {e} }} }}", "when 1, 2 { b(); }\n".repeat(k)),
            };
            put(n.start_byte(), n.end_byte(), &s)
        }
        8 => {
            sites(root, &|n| n.is_named() && matches!(n.kind(), "type_identifier" | "class_declaration" | "generic_type"), &mut v);
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let e = txt(&n);
            if n.kind() == "class_declaration" {
                if e.len() > 600 {
                    return None;
                }
                let k = *r.pick(&[4usize, 7, 12]);
                put(n.start_byte(), n.end_byte(), &format!("{}{e}{}", "public class N {\n".repeat(k), "}\n".repeat(k)))
            } else {
                let k = *r.pick(&[4usize, 7, 12, 20]);
                let o = *r.pick(&["List<", "Map<String, ", "a.b.C<"]);
                put(n.start_byte(), n.end_byte(), &format!("{}{e}{}", o.repeat(k), ">".repeat(k)))
            }
        }
        _ => {
            // deep columns or many lines between items
            sites(root, &|n| n.is_named() && n.parent().is_some_and(|p| body(p.kind())), &mut v);
            let n = if v.is_empty() { return None } else { *r.pick(&v) };
            let k = *r.pick(&[3usize, 40, 130, 255, 256, 257, 300, 520]);
            let s = if r.pct(50) { "\n".repeat(k) } else { " ".repeat(k) };
            put(n.start_byte(), n.start_byte(), &s)
        }
    };
    (o.len() < 60_000 && ts::valid(&o)).then_some(o)
}

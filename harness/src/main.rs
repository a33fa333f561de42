macro_rules! wl { ($f:expr, $($x:tt)*) => { { use std::io::Write; writeln!($f, $($x)*).unwrap(); } } }
mod case;
mod cli;
mod dict;
mod fmt;
mod gen;
mod gram;
mod install;
mod lex;
mod meta;
mod multi;
mod props;
mod query;
mod render;
mod rng;
mod run;
mod san;
mod scale;
mod stretch;
mod ts;
use std::collections::BTreeMap;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "explore" => explore(&args[1..]),
        "gram" => std::fs::write(&args[1], gram::stats(args[2].parse().unwrap(), args[3].parse().unwrap())).unwrap(),
        "multi" => multi::worker(&args[1..]),
        "worker" => run::worker(&args[1..]),
        "fmt" => {
            // one text from stdin through the library
            let mut t = String::new();
            use std::io::{Read, Write};
            if std::io::stdin().read_to_string(&mut t).is_err() {
                std::process::exit(3);
            }
            match fmt::format(&t, args[1].parse().unwrap(), args[2].parse().unwrap()) {
                Ok(r) => {
                    let _ = std::io::stdout().write_all(r.as_bytes());
                    std::process::exit(0)
                }
                Err(_) => std::process::exit(3),
            }
        }
        "check" => std::process::exit(check(&args[1], &args[2])),
        "replay" => std::process::exit(replay(&args[1])),
        _ => {
            eprintln!("usage: monitor check PROPERTY quick|thorough | replay FILE");
            std::process::exit(2);
        }
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let start = std::time::Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let mut r = match prop {
        "C08" | "C09" | "C10" | "C22" | "C25" => cli::check(prop, tier),
        "C11" => multi::check(tier),
        "C18" => san::check(tier),
        "C19" => scale::cost(tier),
        "C20" => scale::depth(tier),
        "C26" => install::check(tier),
        _ => run::in_process(prop, tier, &exe, &[], None),
    };
    about(prop, &mut r);
    run::finish(prop, tier, r, start)
}

fn about(prop: &str, r: &mut run::Report) {
    let draw = "cases: grammar-directed programs, the repository's Apex files and splices of their members and statements, \
                drawn with random layout, comments, width and indent by VERIF_SEED";
    let rule = match prop {
        "C01" => "non-trivial: accepted, and its token sequence was compared with that of the output",
        "C02" => "non-trivial: accepted and at least one comment was followed into the output",
        "C03" => "non-trivial: accepted and at least one comment was located between its tokens on both sides",
        "C04" => "non-trivial: accepted, and the output was parsed and its tree compared node by node",
        "C05" => "non-trivial: accepted, and its output was formatted a second time",
        "C06" => "non-trivial: at least one whitespace variant of the same tokens was formatted and compared",
        "C07" => "non-trivial: at least one query was read from the source and the output by an independent reader and compared",
        "C12" => "non-trivial: formatted again three times, in other threads beside other work, and compared",
        "C13" => "non-trivial: at least one edit made the program invalid by the grammar and its refusal was checked",
        "C14" => "non-trivial: outputs at two widths were compared, or an overlong line explained",
        "C15" => "non-trivial: the indentation of at least one line was checked",
        "C16" => "non-trivial: at least one line of output was checked",
        "C17" => "non-trivial: a valid supported program that was formatted",
        "C18" => "non-trivial: a program and four damaged forms of it went through the instrumented build; under \
                  ThreadSanitizer, a list of files in one call",
        "C21" => "non-trivial: at least one keyword was recased and both results compared",
        "C23" => "non-trivial: at least one pair of neighbours in a body was compared",
        "C24" => "non-trivial: the CRLF form was formatted and compared",
        "C27" => "non-trivial: at least one other item was compared after a neighbour was removed or repeated",
        "C28" => "non-trivial: the gap between every two neighbouring tokens of the output was judged by construct",
        "C29" => "non-trivial: at least one name, literal or comment was replaced by another of the same length",
        "C31" => "non-trivial: comments between members or statements were added or taken away and the code lines compared",
        "C30" => "non-trivial: a statement or member was laid out at two places with the same room",
        "C11" => "cases: lists of 2 to 80 files, valid, invalid, missing and repeated, made readable in an order of the monitor's \
                  choice through named pipes; non-trivial: the results were compared; distinct by (files, order)",
        "C19" => "cases: families of programs growing in one direction, formatted under cachegrind at doubling sizes; \
                  non-trivial: a ratio of instruction counts was judged",
        "C20" => "cases: (construct, depth) pairs formatted from the command line; non-trivial: the verdict and the file were checked",
        "C26" => "cases: runs of the install script by an unprivileged user with a scratch HOME, on machines, releases, faults, \
                  shells and answers drawn by VERIF_SEED; non-trivial: status, messages, the installed file and all of HOME \
                  and TMPDIR were judged; distinct by scenario",
        _ => "cases: runs of the program by an unprivileged user in a scratch directory on files, configurations, faults and \
              arguments drawn by VERIF_SEED; non-trivial: exit status, streams and file system were all judged; distinct by input",
    };
    let process = matches!(prop, "C08" | "C09" | "C10" | "C11" | "C19" | "C20" | "C22" | "C25" | "C26");
    if r.rule.is_empty() {
        r.rule = if process {
            rule.to_string()
        } else {
            format!("{draw}; {rule}; distinct by (source, width, indent)")
        };
    }
    let mut a: Vec<String> = vec![
        "what was not drawn was not observed: the verdict is about the executions counted here".into(),
    ];
    if !process {
        a.push("the tree-sitter grammar decides what is a valid program; the constructs the formatter does not support are not drawn".into());
    }
    if matches!(prop, "C08" | "C09" | "C10" | "C22" | "C25") {
        a.push("file-system calls go through the C library, where faults are injected; power loss is not simulated".into());
    }
    r.assumptions.extend(a);
    if prop == "C14" {
        if let Some(l) = run::known_findings("C14").into_iter().find(|l| l.0 == "anonymous-class-in-arguments") {
            if props::anonymous_class_overlong().is_some() {
                r.known.push(l.1);
            }
        }
    }
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("file")).expect("json");
    if v["kind"] == "nest" || v["kind"] == "cost" {
        let (bad, m) = scale::replay(&v);
        println!("{m}");
        return bad as i32;
    }
    if v["kind"] == "cli" || v["kind"] == "multi" || v["kind"] == "install" {
        let (bad, m) = match v["kind"].as_str() {
            Some("cli") => cli::replay(&v),
            Some("multi") => multi::replay(&v),
            _ => install::replay(&v),
        };
        println!("{m}");
        if bad {
            println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or(""));
        }
        return bad as i32;
    }
    let prop = v["property"].as_str().unwrap_or("").to_string();
    let mut o = props::Obs::default();
    let c = run::case_of(&v).expect("case");
    match props::run(&prop, &c, &mut o) {
        props::V::Bad { sig, msg } => {
            println!("{sig}\n{msg}\nVIOLATION property={prop} replay={path}");
            1
        }
        x => {
            println!("{x:?}");
            0
        }
    }
}

fn explore(a: &[String]) {
    let mut f = std::fs::File::create(std::env::var("OUT").unwrap()).unwrap();
    let prop = &a[0];
    let n: u64 = a[1].parse().unwrap();
    let seed: u64 = a.get(2).map(|s| s.parse().unwrap()).unwrap_or(1);
    let co = case::Corpus::load();
    let b = run::build(prop, &co, seed);
    let mut obs = props::Obs::default();
    let mut sigs: BTreeMap<String, (usize, case::Case, String)> = BTreeMap::new();
    let (mut held, mut none) = (0, 0);
    let mut skips: BTreeMap<&str, usize> = BTreeMap::new();
    for i in 0..n {
        let Some(c) = b.case(i) else { none += 1; continue };
        match props::run(prop, &c, &mut obs) {
            props::V::Held(_) => held += 1,
            props::V::Skip(s) => *skips.entry(s).or_default() += 1,
            props::V::Bad { sig, msg } => {
                let e = sigs.entry(format!("{sig} [{:?}] {}", c.mode, if std::env::var("BYORIGIN").is_ok() { c.origin.as_str() } else { "" })).or_insert((0, c.clone(), msg.clone()));
                e.0 += 1;
                if c.src.len() < e.1.src.len() { e.1 = c; e.2 = msg; }
            }
        }
    }
    wl!(f, "cases {n} none {none} held {held} skips {skips:?}\n{:?} kinds {}", obs.counts, obs.kinds.len());
    let mut v: Vec<_> = sigs.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (s, (k, c, m)) in v {
        wl!(f, "=== {k} {s} w{} i{} {}\n{}\n--> {}", c.width, c.indent, c.origin, c.src.chars().take(700).collect::<String>(), m.chars().take(1200).collect::<String>());
    }
}

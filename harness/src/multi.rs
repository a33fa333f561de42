//! Several files in one call: the order in which the files become readable, and with it the
//! order in which the work ends, is forced through named pipes.
use crate::case::{Build, Corpus};
use crate::cli::St;
use crate::fmt;
use crate::rng::Rng;
use crate::run::{self, Report};
use serde_json::json;
use sf_afmt::formatter::Formatter;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

fn plan(tier: &str) -> (u64, u64) {
    let n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    let (c, s) = if tier == "thorough" { (100_000, 600) } else { (1600, 40) };
    (n("AFMT_CASES").unwrap_or(c), n("AFMT_SECS").unwrap_or(s))
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn mkfifo(p: &Path) {
    let c = std::ffi::CString::new(p.display().to_string()).expect("path");
    unsafe {
        libc::mkfifo(c.as_ptr(), 0o600);
    }
}

/// Wait for a reader, then hand the whole text over. False when no reader came.
fn feed(p: &Path, text: &[u8], wait: Duration) -> bool {
    use std::os::unix::fs::OpenOptionsExt;
    let t = Instant::now();
    loop {
        match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(p) {
            Ok(mut f) => {
                use std::io::Write;
                use std::os::fd::AsRawFd;
                unsafe {
                    let fl = libc::fcntl(f.as_raw_fd(), libc::F_GETFL);
                    libc::fcntl(f.as_raw_fd(), libc::F_SETFL, fl & !libc::O_NONBLOCK);
                }
                let _ = f.write_all(text);
                return true;
            }
            Err(_) if t.elapsed() < wait => std::thread::sleep(Duration::from_micros(200)),
            Err(_) => return false,
        }
    }
}

/// All permutations of 0..n in lexicographic order, by index.
fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut o = vec![];
    let mut f: usize = (1..=n).product();
    for i in (1..=n).rev() {
        f /= i;
        o.push(left.remove(k / f % i));
        k %= f.max(1);
    }
    o
}

pub fn one(co: &Corpus, dir: &Path, seed: u64, i: u64, st: &mut St) {
    let mut r = Rng::stream(seed, "C11", i);
    let b = Build { co, seed, stream: "C11", modes: (70, 30, 0), queries: 8, max_budget: 60, off: &[] };
    // small cases enumerate every order of two, three and four files
    let (n, order): (usize, Vec<usize>) = match i % 4 {
        0 => (2, perm(2, (i / 4) as usize % 2)),
        1 => (3, perm(3, (i / 4) as usize % 6)),
        2 => (4, perm(4, (i / 4) as usize % 24)),
        _ => {
            let n = match r.below(100) {
                0..=9 => r.range(20, 80),
                10 | 11 => r.range(250, 400),
                _ => r.range(5, 12),
            };
            let mut o: Vec<usize> = (0..n).collect();
            for k in (1..n).rev() {
                let j = r.below(k + 1);
                o.swap(k, j);
            }
            (n, o)
        }
    };
    // under the race detector nothing may order the threads
    let race = std::env::var("AFMT_RACE").is_ok();
    let piped = n <= 12 && r.pct(80) && !race;
    let (width, indent) = (*r.pick(&[80u32, 40, 100, 20]), *r.pick(&[2u32, 2, 4]));
    // what each file holds and what must come back for it
    let mut names: Vec<PathBuf> = vec![];
    let mut texts: Vec<Option<String>> = vec![];
    let mut want: Vec<Option<String>> = vec![];
    let mut kinds = vec![];
    let mut k = co.files.len() as u64 + i * 13;
    for j in 0..n {
        // files of the same name in different folders
        let p = if r.pct(30) { dir.join(format!("d{j}")).join("f.cls") } else { dir.join(format!("f{j}.cls")) };
        let _ = std::fs::create_dir_all(p.parent().unwrap_or(dir));
        let kind = match r.below(100) {
            0..=69 => "valid",
            70..=84 => "invalid",
            85..=92 => "missing",
            _ => "same file again",
        };
        let kind = if kind == "same file again" && (j == 0 || piped) { "valid" } else { kind };
        match kind {
            "valid" => {
                let whole = race && r.pct(40) && !co.files.is_empty();
                let src = loop {
                    k += 1;
                    if whole {
                        let f = &r.pick(&co.files).1;
                        if f.len() < 20_000 {
                            break f.clone();
                        }
                        continue;
                    }
                    if let Some(c) = b.case(k) {
                        if c.src.len() < 6000 {
                            break c.src;
                        }
                    }
                };
                want.push(fmt::format(&src, width, indent).ok());
                texts.push(Some(src));
            }
            "invalid" => {
                let bad = ["class A { void m() { x = ; } ", "class A { Überschrift /* é */ \n } )", "x", "class A { String s = 'a; }"];
                texts.push(Some(r.pick(&bad).to_string()));
                want.push(None);
            }
            "missing" => {
                texts.push(None);
                want.push(None);
            }
            _ => {
                let q = r.below(j);
                names.push(names[q].clone());
                texts.push(texts[q].clone());
                want.push(want[q].clone());
                kinds.push(kind);
                continue;
            }
        }
        kinds.push(kind);
        names.push(p);
    }
    for (p, t) in names.iter().zip(&texts) {
        let _ = std::fs::remove_file(p);
        if let Some(t) = t {
            if piped {
                mkfifo(p);
            } else {
                let _ = std::fs::write(p, t);
            }
        }
    }
    let files: Vec<String> = names.iter().map(|p| p.display().to_string()).collect();
    let f = Formatter::new(fmt::cfg(width, indent), files);
    let before = tasks();
    let mut forced = true;
    let got = std::thread::scope(|sc| {
        let h = sc.spawn(|| sf_afmt::format(f.clone()));
        if piped {
            // the caller and every file without a reader yet
            let mut todo: Vec<usize> = order.iter().copied().filter(|j| texts[*j].is_some()).collect();
            let mut rounds = 0;
            // start only when all are being read, where that ever happens
            let t = Instant::now();
            while tasks() < before + 1 + todo.len() && t.elapsed() < Duration::from_millis(300) && !h.is_finished() {
                std::thread::sleep(Duration::from_micros(100));
            }
            while !todo.is_empty() && rounds < 10_000 {
                rounds += 1;
                let mut kk = 0;
                while kk < todo.len() {
                    let j = todo[kk];
                    let alive = tasks();
                    if feed(&names[j], texts[j].as_deref().unwrap_or("").as_bytes(), Duration::from_millis(if rounds == 1 { 60 } else { 5 })) {
                        todo.remove(kk);
                        // the next one only when the work on this one is over
                        let t = Instant::now();
                        while tasks() >= alive && t.elapsed() < Duration::from_millis(150) && !h.is_finished() {
                            std::thread::sleep(Duration::from_micros(100));
                        }
                        if tasks() >= alive && !h.is_finished() {
                            forced = false;
                        }
                        break;
                    }
                    forced = false;
                    kk += 1;
                }
                if h.is_finished() {
                    break;
                }
            }
        }
        h.join()
    });
    if piped && forced {
        st.add("completion orders forced", 1);
        st.see("forced orders of up to four files", if n <= 4 { format!("{order:?}") } else { "longer".into() });
    }
    st.add("files", n as u64);
    for k in &kinds {
        st.add(&format!("file {k}"), 1);
    }
    let rp = json!({"property": "C11", "kind": "multi", "seed": seed.to_string(), "case": i});
    let say = |m: String| format!("{m}\nfiles {kinds:?} made readable in order {order:?} (pipes: {piped})");
    match got {
        Err(_) => st.bad("panic", say("the call panicked".into()), rp),
        Ok(v) if v.len() != n => st.bad("count", say(format!("{n} files, {} results", v.len())), rp),
        Ok(v) => {
            for (j, (x, y)) in v.iter().zip(&want).enumerate() {
                match (x, y) {
                    (Ok(a), Some(b)) if a == b => {}
                    (Err(e), None) if !e.is_empty() => {}
                    (Ok(a), Some(b)) => {
                        let who = want.iter().position(|w| w.as_deref() == Some(a.as_str()));
                        st.bad("wrong result", say(format!("result {j} is not that of file {j} (it is that of {who:?})\n{a}\nEXPECTED\n{b}")), rp.clone());
                        break;
                    }
                    (Ok(_), None) => {
                        st.bad("accepted", say(format!("result {j} is a success for a file that cannot be formatted")), rp.clone());
                        break;
                    }
                    (Err(e), _) => {
                        st.bad("failed", say(format!("result {j} is an error: {e}")), rp.clone());
                        break;
                    }
                }
            }
            // the same formatter again, nothing left over from the first call
            if !piped && i % 3 == 0 {
                let again = f.format();
                st.add("second calls", 1);
                let same = again.len() == v.len()
                    && again.iter().zip(&v).all(|(a, b)| match (a, b) {
                        (Ok(x), Ok(y)) => x == y,
                        (Err(_), Err(_)) => true,
                        _ => false,
                    });
                if !same {
                    st.bad("second call", say("a second call on the same formatter gives other results".into()), rp.clone());
                }
            }
            // files change between calls: every call reads them anew
            if !piped && i % 3 == 1 && n > 1 {
                let mut rot: Vec<usize> = (0..n).collect();
                rot.rotate_left(1);
                let distinct = names.iter().collect::<std::collections::BTreeSet<_>>().len() == n;
                if distinct {
                    for (j, q) in rot.iter().enumerate() {
                        let _ = std::fs::remove_file(&names[j]);
                        if let Some(t) = &texts[*q] {
                            let _ = std::fs::write(&names[j], t);
                        }
                    }
                    st.add("calls after the files changed", 1);
                    for (j, x) in f.format().iter().enumerate() {
                        let y = &want[rot[j]];
                        if x.as_ref().ok() != y.as_ref() {
                            st.bad("stale", say(format!("the files changed, and result {j} of the next call is {x:?}\nEXPECTED\n{y:?}")), rp.clone());
                            break;
                        }
                    }
                }
            }
        }
    }
    st.decided(&(i, &kinds, &order));
    if st.samples.len() < 2 && n <= 4 {
        st.samples.push(json!({"case": i, "files": kinds, "order": order, "pipes": piped, "forced": forced}));
    }
    for p in &names {
        let _ = std::fs::remove_file(p);
    }
    if std::fs::read_dir(dir).is_ok() {
        for j in 0..n {
            let _ = std::fs::remove_dir(dir.join(format!("d{j}")));
        }
    }
}

/// multi SEED FIRST STEP N SECS DIR TAG
pub fn worker(a: &[String]) {
    let g = |k: usize| a[k].parse::<u64>().expect("number");
    let (seed, first, step, n, secs) = (g(0), g(1), g(2), g(3), g(4));
    let dir = PathBuf::from(&a[5]);
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
    }
    let co = Corpus::load();
    let w = dir.join(format!("d-{}", a[6]));
    let _ = std::fs::create_dir_all(&w);
    let start = Instant::now();
    let mut st = St::default();
    let mut i = first;
    while i < n && start.elapsed() < Duration::from_secs(secs) && st.bad.len() < 4 {
        let _ = std::fs::write(dir.join(format!("cur-{}", a[6])), i.to_string());
        one(&co, &w, seed, i, &mut st);
        i += step;
    }
    let v = json!({
        "evals": st.evals, "hashes": st.hashes, "counts": st.counts, "sets": st.sets, "samples": st.samples,
        "bad": st.bad.iter().map(|b| json!({"sig": b.sig, "msg": b.msg, "replay": b.replay})).collect::<Vec<_>>(),
    });
    let _ = std::fs::write(dir.join(format!("part-{}.json", a[6])), v.to_string());
}

pub fn check(tier: &str) -> Report {
    let exe = std::env::current_exe().expect("exe");
    run_with(&exe, &[], plan(tier))
}

pub fn run_with(exe: &Path, env: &[(&str, String)], (n, secs): (u64, u64)) -> Report {
    let seed = run::seed();
    let dir = run::scratch("C11");
    let k = run::ncpu() as u64;
    let mut kids = vec![];
    for s in 0..k {
        let err = std::fs::File::create(dir.join(format!("err-{s}"))).expect("file");
        let c = Command::new(exe)
            .arg("multi")
            .args([seed, s, k, n, secs].map(|x| x.to_string()))
            .arg(&dir)
            .arg(s.to_string())
            .env("RUST_BACKTRACE", "0")
            .envs(env.iter().map(|(a, b)| (a.to_string(), b.clone())))
            .stdout(std::process::Stdio::null())
            .stderr(err)
            .spawn();
        kids.push((s, c));
    }
    let mut st = St::default();
    let mut r = Report { level: "exploration", ..Default::default() };
    let hard = Instant::now();
    for (s, c) in kids {
        let Ok(mut c) = c else { continue };
        let status = loop {
            match c.try_wait() {
                Ok(Some(x)) => break Some(x),
                Ok(None) if hard.elapsed() > Duration::from_secs(secs + 120) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        let cur = std::fs::read_to_string(dir.join(format!("cur-{s}"))).unwrap_or_default();
        match status {
            None => st.undecided += 1,
            Some(x) if !x.success() => {
                let rp = json!({"property": "C11", "kind": "multi", "seed": seed.to_string(), "case": cur.trim().parse::<u64>().unwrap_or(0)});
                let e = std::fs::read(dir.join(format!("err-{s}"))).unwrap_or_default();
                let e = String::from_utf8_lossy(&e);
                let e = run::clip(&e[e.find("WARNING: ThreadSanitizer").unwrap_or(0)..], 4000);
                st.bad("process ended", format!("formatting several files ended the process: {x}\n{e}"), rp);
            }
            _ => {}
        }
        let Ok(v) = serde_json::from_str::<serde_json::Value>(&std::fs::read_to_string(dir.join(format!("part-{s}.json"))).unwrap_or_default()) else {
            continue;
        };
        st.evals += v["evals"].as_u64().unwrap_or(0);
        for h in v["hashes"].as_array().into_iter().flatten() {
            st.hashes.insert(h.as_u64().unwrap_or(0));
        }
        for (a, b) in v["counts"].as_object().into_iter().flatten() {
            *st.counts.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
        }
        let sets: BTreeMap<String, Vec<String>> = serde_json::from_value(v["sets"].clone()).unwrap_or_default();
        for (a, b) in sets {
            st.sets.entry(a).or_default().extend(b);
        }
        st.samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        for b in v["bad"].as_array().into_iter().flatten() {
            st.bad.push(run::Violation {
                sig: b["sig"].as_str().unwrap_or("").into(),
                msg: b["msg"].as_str().unwrap_or("").into(),
                replay: b["replay"].clone(),
            });
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    st.samples.truncate(4);
    r.evaluations = st.evals;
    r.distinct = st.hashes.len() as u64;
    r.samples = st.samples;
    r.violations = st.bad;
    r.extra.insert("seed".into(), json!(seed));
    r.extra.insert("planned_cases".into(), json!(n));
    r.extra.insert("undecided_workers".into(), json!(st.undecided));
    r.extra.insert("observed".into(), json!(st.counts));
    r.extra.insert("distinct_observed".into(), json!(st.sets.iter().map(|(k, v)| (k.clone(), json!({"count": v.len(), "values": v.iter().take(40).collect::<Vec<_>>()}))).collect::<serde_json::Map<_, _>>()));
    if st.evals == 0 && r.violations.is_empty() {
        r.inconclusive = Some("no case was decided".into());
    }
    r
}

pub fn replay(v: &serde_json::Value) -> (bool, String) {
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    if v["tsan"] == json!(true) {
        std::env::set_var("AFMT_RACE", "1");
    }
    let d = run::scratch("C11-replay");
    let mut st = St::default();
    let seed: u64 = v["seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(1);
    one(&Corpus::load(), &d, seed, v["case"].as_u64().unwrap_or(0), &mut st);
    let _ = std::fs::remove_dir_all(&d);
    match st.bad.first() {
        Some(b) => (true, format!("{}\n{}", b.sig, b.msg)),
        None => (false, "no violation".into()),
    }
}

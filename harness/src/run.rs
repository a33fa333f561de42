//! Running a check: worker processes over the cases, a watchdog, replay files, evidence.
use crate::case::{Build, Case, Corpus, Mode};
use crate::{lex, props};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    std::env::var("AFMT_VERIF").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn ncpu() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16)
}

/// A violation, with what replays it.
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub replay: Value,
}

/// What a run observed.
#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub rule: String,
    pub samples: Vec<Value>,
    pub extra: serde_json::Map<String, Value>,
    pub violations: Vec<Violation>,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub known: Vec<String>,
    /// nothing was decided: the run is worth nothing
    pub inconclusive: Option<String>,
}

// ------------------------------------------------------------------ known findings
/// `known: property=<id> key=<key> <text>` lines of known_findings.txt
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let p = verif().join("known_findings.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let k = it.next()?.strip_prefix("key=")?.to_string();
            let t = it.next().unwrap_or("").to_string();
            (p == prop).then_some((k, t))
        })
        .collect()
}

// ------------------------------------------------------------------ case <-> json
pub fn case_json(prop: &str, c: &Case) -> Value {
    json!({
        "property": prop, "kind": "case", "src": c.src, "width": c.width, "indent": c.indent,
        "vseed": c.vseed.to_string(),
        "mode": match c.mode { Mode::Free => "free", Mode::Sane => "sane", Mode::Any => "any" },
        "origin": c.origin,
    })
}
pub fn case_of(v: &Value) -> Option<Case> {
    Some(Case {
        src: v["src"].as_str()?.to_string(),
        width: v["width"].as_u64()? as u32,
        indent: v["indent"].as_u64()? as u32,
        vseed: v["vseed"].as_str()?.parse().ok()?,
        mode: match v["mode"].as_str()? {
            "free" => Mode::Free,
            "sane" => Mode::Sane,
            _ => Mode::Any,
        },
        origin: v["origin"].as_str().unwrap_or("").to_string(),
    })
}

// ------------------------------------------------------------------ workload per property
pub fn build<'a>(prop: &'a str, co: &'a Corpus, seed: u64) -> Build<'a> {
    let modes = match prop {
        "C01" | "C04" | "C24" | "C12" | "C13" | "C18" => (50, 30, 20),
        "C02" => (0, 40, 60),
        "C03" => (0, 1, 0),
        "C31" => (60, 40, 0),
        "C05" | "C15" | "C16" | "C17" | "C23" | "C29" | "C30" => (60, 40, 0),
        "C28" => (55, 35, 10),
        "C07" => (85, 15, 0),
        _ => (1, 0, 0),
    };
    let queries = if prop == "C07" { 80 } else { 8 };
    Build { co, seed, stream: prop, modes, queries, max_budget: 400, off: &[] }
}

/// (cases, seconds)
fn plan(tier: &str) -> (u64, u64) {
    let n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    let (c, s) = if tier == "thorough" { (3_000_000, 600) } else { (40_000, 45) };
    (n("AFMT_CASES").unwrap_or(c), n("AFMT_SECS").unwrap_or(s))
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ worker
/// worker PROP TIER SEED FIRST STEP N SECS DIR TAG
pub fn worker(a: &[String]) {
    let prop = &a[0];
    let tier = &a[1];
    let seed: u64 = a[2].parse().unwrap();
    let first: u64 = a[3].parse().unwrap();
    let step: u64 = a[4].parse().unwrap();
    let n: u64 = a[5].parse().unwrap();
    let secs: u64 = a[6].parse().unwrap();
    let dir = PathBuf::from(&a[7]);
    let tag = &a[8];
    unsafe {
        let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        if std::env::var("AFMT_NO_RLIMIT").is_err() {
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
        libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
    }
    let _ = tier;
    let co = Corpus::load();
    let b = build(prop, &co, seed);
    let start = Instant::now();
    let cur = std::fs::File::create(dir.join(format!("cur-{tag}"))).expect("cur");
    let mut st = WorkerState::default();
    let mut i = first;
    let mut last = Instant::now();
    while i < n && start.elapsed() < Duration::from_secs(secs) {
        {
            use std::os::unix::fs::FileExt;
            let _ = cur.write_all_at(format!("{i:>20}").as_bytes(), 0);
        }
        match b.case(i) {
            None => st.none += 1,
            Some(c) => st.one(prop, i, c),
        }
        i += step;
        if last.elapsed() > Duration::from_secs(2) {
            st.dump(&dir, tag, false);
            last = Instant::now();
        }
        if st.bad.len() >= 12 {
            break;
        }
        // the code under test keeps its texts for good: a fresh process takes over
        if i / step % 64 == 0 && rss_mb() > RECYCLE_MB {
            st.dump(&dir, tag, true);
            use std::os::unix::fs::FileExt;
            let _ = cur.write_all_at(format!("{i:>20}").as_bytes(), 0);
            std::process::exit(RECYCLE);
        }
    }
    st.dump(&dir, tag, true);
}
const RECYCLE: i32 = 75;
const RECYCLE_MB: u64 = 1200;
fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4
        / 1024
}

#[derive(Default)]
struct WorkerState {
    obs: props::Obs,
    held: u64,
    compared: u64,
    none: u64,
    skips: BTreeMap<String, u64>,
    modes: BTreeMap<String, u64>,
    origins: BTreeMap<String, u64>,
    widths: BTreeSet<u32>,
    hashes: HashSet<u64>,
    samples: Vec<Value>,
    bad: Vec<Value>,
    bad_sigs: BTreeMap<String, u64>,
}
impl WorkerState {
    fn one(&mut self, prop: &str, i: u64, c: Case) {
        *self.modes.entry(format!("{:?}", c.mode)).or_default() += 1;
        *self.origins.entry(c.origin.split(' ').next().unwrap_or("").to_string()).or_default() += 1;
        self.widths.insert(c.width);
        match props::run(prop, &c, &mut self.obs) {
            props::V::Held(k) => {
                self.held += 1;
                self.compared += k as u64;
                if k > 0 {
                    self.hashes.insert(hash64(&(&c.src, c.width, c.indent)));
                    if self.samples.len() < 2 && c.src.len() < 400 && c.src.len() > 60 {
                        self.samples.push(json!({"case": i, "width": c.width, "indent": c.indent, "source": c.src, "compared": k}));
                    }
                }
            }
            props::V::Skip(s) => *self.skips.entry(s.to_string()).or_default() += 1,
            props::V::Bad { sig, msg } => {
                let e = self.bad_sigs.entry(sig.clone()).or_default();
                *e += 1;
                if *e <= 2 && self.bad.len() < 12 {
                    let mut v = case_json(prop, &c);
                    v["case"] = json!(i);
                    let small = shrink(prop, &c, &sig);
                    v["smaller_src"] = json!(small.src);
                    self.bad.push(json!({"sig": sig, "msg": clip(&msg, 6000), "replay": v}));
                }
            }
        }
    }
    fn dump(&self, dir: &Path, tag: &str, done: bool) {
        let v = json!({
            "done": done, "held": self.held, "compared": self.compared, "none": self.none, "skips": self.skips,
            "modes": self.modes, "origins": self.origins, "widths": self.widths,
            "hashes": self.hashes, "samples": self.samples, "bad": self.bad, "bad_sigs": self.bad_sigs,
            "counts": self.obs.counts, "kinds": self.obs.kinds,
        });
        let tmp = dir.join(format!("tmp-{tag}"));
        if std::fs::write(&tmp, v.to_string()).is_ok() {
            let _ = std::fs::rename(&tmp, dir.join(format!("part-{tag}.json")));
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

/// Remove token ranges while the same violation remains; bounded effort.
pub fn shrink(prop: &str, c: &Case, sig: &str) -> Case {
    let start = Instant::now();
    let mut best = c.clone();
    let mut obs = props::Obs::default();
    let mut evals = 0;
    let mut fails = |s: &Case| matches!(props::run(prop, s, &mut obs), props::V::Bad { sig: ref g, .. } if g == sig);
    if c.src.len() > 60_000 {
        return best;
    }
    let mut size = lex::lex(&best.src).len() / 2;
    while size > 0 {
        let mut at = 0;
        loop {
            let l = lex::lex(&best.src);
            if at >= l.len() {
                break;
            }
            if start.elapsed() > Duration::from_secs(4) || evals > 1500 {
                return best;
            }
            let e = (at + size).min(l.len());
            let mut s = best.clone();
            s.src = format!("{}{}", &best.src[..l[at].start], &best.src[l[e - 1].end..]);
            evals += 1;
            if crate::ts::valid(&s.src) && fails(&s) {
                best = s;
            } else {
                at += size.max(1);
            }
        }
        size /= 2;
    }
    best
}

// ------------------------------------------------------------------ orchestrator
struct Slot {
    child: Child,
    tag: String,
    cur_case: u64,
    cpu_at_case: f64,
    shard: u64,
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

/// CPU seconds one case may take before it counts as not terminating.
/// The slowest case of the workload takes about one second.
const HANG_CPU: f64 = 100.0;

pub fn scratch(name: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("afmt-monitor-{name}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

pub fn in_process(prop: &str, tier: &str, exe: &Path, env: &[(&str, String)], plan_override: Option<(u64, u64)>) -> Report {
    let (n, secs) = plan_override.unwrap_or_else(|| plan(tier));
    let seed = seed();
    let k = ncpu() as u64;
    let dir = scratch(prop);
    let start = Instant::now();
    let spawn = |shard: u64, first: u64, gen: u32| -> Option<Slot> {
        let left = secs.saturating_sub(start.elapsed().as_secs());
        if left == 0 || first >= n {
            return None;
        }
        let tag = format!("{shard}-{gen}");
        let err = std::fs::File::create(dir.join(format!("err-{tag}"))).ok()?;
        let child = Command::new(exe)
            .args(["worker", prop, tier, &seed.to_string(), &first.to_string(), &k.to_string(), &n.to_string(), &left.to_string()])
            .arg(&dir)
            .arg(&tag)
            .envs(env.iter().map(|(a, b)| (a.to_string(), b.clone())))
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .ok()?;
        Some(Slot { child, tag, cur_case: u64::MAX, cpu_at_case: 0.0, shard })
    };
    let mut slots: Vec<Slot> = (0..k).filter_map(|s| spawn(s, s, 0)).collect();
    let mut gen = 0;
    let mut deaths: Vec<(u64, String, String)> = vec![];
    let hard = Duration::from_secs(secs + 60);
    while !slots.is_empty() {
        std::thread::sleep(Duration::from_millis(40));
        let mut next = vec![];
        for mut s in slots {
            let cur = std::fs::read_to_string(dir.join(format!("cur-{}", s.tag)))
                .ok()
                .and_then(|t| t.trim().parse::<u64>().ok())
                .unwrap_or(u64::MAX);
            let cpu = cpu_seconds(s.child.id()).unwrap_or(0.0);
            if cur != s.cur_case {
                s.cur_case = cur;
                s.cpu_at_case = cpu;
            }
            match s.child.try_wait() {
                Ok(Some(st)) => {
                    if st.code() == Some(RECYCLE) {
                        // the next case is the one in the file
                        let at = std::fs::read_to_string(dir.join(format!("cur-{}", s.tag)))
                            .ok()
                            .and_then(|t| t.trim().parse::<u64>().ok());
                        gen += 1;
                        if let Some(ns) = at.and_then(|a| spawn(s.shard, a, gen)) {
                            next.push(ns);
                        }
                    } else if !st.success() {
                        let e = std::fs::read_to_string(dir.join(format!("err-{}", s.tag))).unwrap_or_default();
                        let e: String = e.chars().rev().take(4000).collect::<Vec<_>>().into_iter().rev().collect();
                        deaths.push((s.cur_case, format!("{st}"), e));
                        if s.cur_case != u64::MAX && deaths.len() < 40 {
                            gen += 1;
                            if let Some(ns) = spawn(s.shard, s.cur_case + k, gen) {
                                next.push(ns);
                            }
                        }
                    }
                }
                Ok(None) => {
                    if cpu - s.cpu_at_case > HANG_CPU || start.elapsed() > hard {
                        let hang = cpu - s.cpu_at_case > HANG_CPU;
                        let _ = s.child.kill();
                        let _ = s.child.wait();
                        let what = if hang { "no end" } else { "watchdog" };
                        deaths.push((s.cur_case, what.into(), format!("{:.0} s of CPU on one case", cpu - s.cpu_at_case)));
                        if hang && s.cur_case != u64::MAX && deaths.len() < 8 {
                            gen += 1;
                            if let Some(ns) = spawn(s.shard, s.cur_case + k, gen) {
                                next.push(ns);
                            }
                        }
                    } else {
                        next.push(s);
                    }
                }
                Err(_) => {}
            }
        }
        slots = next;
    }
    // merge
    let mut r = Report { level: "exploration", ..Default::default() };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut maps: BTreeMap<&str, BTreeMap<String, u64>> = BTreeMap::new();
    let mut kinds: BTreeSet<String> = BTreeSet::new();
    let mut widths: BTreeSet<u64> = BTreeSet::new();
    let (mut held, mut none, mut compared) = (0, 0, 0);
    let mut by_sig: BTreeMap<String, u64> = BTreeMap::new();
    let mut parts: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    parts.sort();
    for p in parts {
        let name = p.file_name().and_then(|s| s.to_str()).unwrap_or("").to_string();
        if !name.starts_with("part-") {
            continue;
        }
        let Ok(v) = serde_json::from_str::<Value>(&std::fs::read_to_string(&p).unwrap_or_default()) else { continue };
        held += v["held"].as_u64().unwrap_or(0);
        none += v["none"].as_u64().unwrap_or(0);
        compared += v["compared"].as_u64().unwrap_or(0);
        for h in v["hashes"].as_array().into_iter().flatten() {
            hashes.insert(h.as_u64().unwrap_or(0));
        }
        for w in v["widths"].as_array().into_iter().flatten() {
            widths.insert(w.as_u64().unwrap_or(0));
        }
        for (key, name) in [("skips", "skipped"), ("modes", "by comment mode"), ("origins", "by origin"), ("counts", "observed")] {
            for (a, b) in v[key].as_object().into_iter().flatten() {
                *maps.entry(name).or_default().entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
            }
        }
        for x in v["kinds"].as_array().into_iter().flatten() {
            kinds.insert(format!("{}>{}", x[0].as_str().unwrap_or(""), x[1].as_str().unwrap_or("")));
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if r.samples.len() < 4 {
                r.samples.push(s.clone());
            }
        }
        for (a, b) in v["bad_sigs"].as_object().into_iter().flatten() {
            *by_sig.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
        }
        for b in v["bad"].as_array().into_iter().flatten() {
            r.violations.push(Violation {
                sig: b["sig"].as_str().unwrap_or("").to_string(),
                msg: b["msg"].as_str().unwrap_or("").to_string(),
                replay: b["replay"].clone(),
            });
        }
    }
    let covers_death = matches!(prop, "C17" | "C18");
    if covers_death && !deaths.is_empty() {
        let co = Corpus::load();
        let b = build(prop, &co, seed);
        for (i, st, e) in &deaths {
            if st == "watchdog" || *i == u64::MAX {
                continue;
            }
            if let Some(c) = b.case(*i) {
                let mut v = case_json(prop, &c);
                v["case"] = json!(i);
                v["death"] = json!(st);
                let sig = if st == "no end" { "no end".to_string() } else { format!("process ended: {}", death_sig(e, st)) };
                r.violations.push(Violation { sig, msg: clip(e, 4000), replay: v });
            }
        }
    }
    let bad: u64 = by_sig.values().sum();
    r.evaluations = held + bad;
    r.distinct = hashes.len() as u64;
    r.extra.insert("seed".into(), json!(seed));
    r.extra.insert("draws_without_a_case".into(), json!(none));
    r.extra.insert("units_compared".into(), json!(compared));
    r.extra.insert("distinct_widths".into(), json!(widths.len()));
    r.extra.insert("distinct_syntax_edges".into(), json!(kinds.len()));
    r.extra.insert("workers".into(), json!(k));
    r.extra.insert("planned_cases".into(), json!(n));
    if !deaths.is_empty() {
        r.extra.insert(
            "worker_deaths".into(),
            json!(deaths.iter().map(|d| json!({"case": d.0, "status": d.1, "stderr": clip(&d.2, 300)})).collect::<Vec<_>>()),
        );
    }
    for (n, m) in maps {
        r.extra.insert(n.replace(' ', "_"), json!(m));
    }
    if held == 0 && r.violations.is_empty() {
        r.inconclusive = Some("no case was decided".into());
    }
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn death_sig(e: &str, st: &str) -> String {
    for l in e.lines() {
        if l.contains("Sanitizer") || l.contains("overflowed its stack") || l.contains("memory allocation of") {
            let l = l.split("==").last().unwrap_or(l).trim();
            return clip(l, 120);
        }
    }
    st.to_string()
}

/// Print the verdict, write replays and evidence, return the exit code.
pub fn finish(prop: &str, tier: &str, mut r: Report, start: Instant) -> i32 {
    let ev = verif().join("evidence");
    let rp = ev.join("replays");
    let _ = std::fs::create_dir_all(&rp);
    if let Ok(d) = std::fs::read_dir(&rp) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{prop}-")) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut lines = vec![];
    r.violations.sort_by_key(|v| v.replay["src"].as_str().map(|s| s.len()).unwrap_or(0));
    for v in &r.violations {
        let c = seen.entry(v.sig.clone()).or_default();
        *c += 1;
        if *c > 1 || lines.len() >= 8 {
            continue;
        }
        let p = rp.join(format!("{prop}-{}.json", lines.len()));
        let mut o = v.replay.clone();
        o["property"] = json!(prop);
        o["signature"] = json!(v.sig);
        o["what"] = json!(v.msg);
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&o).unwrap_or_default());
        lines.push(format!("VIOLATION property={prop} replay={}", p.display()));
        println!("--- {}\n{}", v.sig, clip(&v.msg, 1500));
        if let Some(s) = v.replay["smaller_src"].as_str() {
            println!("--- source (reduced), width {} indent {}\n{}", v.replay["width"], v.replay["indent"], clip(s, 1500));
        }
    }
    for k in &r.known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(r.evaluations));
    cov.insert("distinct_nontrivial".into(), json!(r.distinct));
    cov.insert("rule".into(), json!(r.rule));
    cov.insert("samples".into(), json!(r.samples));
    for (k, v) in r.extra.clone() {
        cov.insert(k, v);
    }
    let e = json!({
        "property": prop, "tier": tier, "seed": seed(), "level": r.level, "coverage": cov,
        "assumptions": r.assumptions, "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": seen.len(),
    });
    let f = ev.join(format!("{prop}.json"));
    if let Ok(mut h) = std::fs::File::create(&f) {
        let _ = h.write_all((serde_json::to_string_pretty(&e).unwrap_or_default() + "\n").as_bytes());
    }
    for l in &lines {
        println!("{l}");
    }
    println!(
        "{prop} {tier}: {} evaluations, {} distinct non-trivial, {} violation signature(s), {:.1} s",
        r.evaluations,
        r.distinct,
        seen.len(),
        start.elapsed().as_secs_f64()
    );
    if !lines.is_empty() {
        1
    } else if let Some(why) = r.inconclusive {
        println!("INCONCLUSIVE {prop}: {why}");
        2
    } else {
        0
    }
}

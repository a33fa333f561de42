//! Checks that run the real command line program: every run in a scratch directory, as an
//! unprivileged user, watched through its exit status, its streams and snapshots of every
//! file it could touch.
use crate::case::{Build, Case, Corpus};
use crate::props::{break_program, line_diff};
use crate::rng::Rng;
use crate::run::{self, Report, Violation};
use crate::ts;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;

#[derive(Default)]
pub struct St {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, BTreeSet<String>>,
    pub samples: Vec<Value>,
    pub bad: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub undecided: u64,
}
impl St {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn see(&mut self, k: &str, v: impl Into<String>) {
        self.sets.entry(k.to_string()).or_default().insert(v.into());
    }
    pub fn decided<T: Hash>(&mut self, t: &T) {
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.hashes.insert(h.finish());
    }
    pub fn bad(&mut self, sig: impl Into<String>, msg: impl Into<String>, replay: Value) {
        if self.bad.len() < 10 {
            self.bad.push(Violation { sig: sig.into(), msg: msg.into(), replay });
        }
    }
    pub fn merge(&mut self, o: St) {
        self.evals += o.evals;
        self.undecided += o.undecided;
        self.hashes.extend(o.hashes);
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.samples.extend(o.samples);
        self.bad.extend(o.bad);
    }
}

pub struct Sand {
    pub dir: PathBuf,
    pub afmt: PathBuf,
    pub monitor: PathBuf,
    pub shim: Option<PathBuf>,
    pub uid: Option<u32>,
    pub co: Corpus,
}
impl Drop for Sand {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

thread_local! {
    /// what surrounds the next program run, drawn per case
    static AMBIENT: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) };
}
/// Variables of the environment that are no setting of the program.
pub fn ambient(r: &mut Rng, home: &Path) -> Vec<(&'static str, String)> {
    let mut o = vec![];
    if r.pct(35) {
        return o;
    }
    let h = home.display().to_string();
    let all: [(&'static str, &[&str]); 24] = [
        ("COLUMNS", &["40", "200", "0", "x"]),
        ("LINES", &["10"]),
        ("TERM", &["dumb", "xterm-256color", ""]),
        ("NO_COLOR", &["1"]),
        ("CLICOLOR_FORCE", &["1"]),
        ("FORCE_COLOR", &["1"]),
        ("LANG", &["C", "tr_TR.UTF-8", "de_DE.ISO-8859-1"]),
        ("LC_ALL", &["C", "tr_TR.UTF-8"]),
        ("TZ", &["Asia/Kolkata"]),
        ("CI", &["true"]),
        ("DEBUG", &["1"]),
        ("RUST_LOG", &["trace"]),
        ("AFMT_CONFIG", &["/nonexistent.toml"]),
        ("AFMT_MAX_WIDTH", &["40"]),
        ("AFMT_INDENT_SIZE", &["6"]),
        ("AFMT_WIDTH", &["40"]),
        ("AFMT_INDENT", &["6"]),
        ("MAX_WIDTH", &["40"]),
        ("INDENT_SIZE", &["6"]),
        ("TABSIZE", &["6"]),
        ("EDITOR", &["vi"]),
        ("USER", &["nobody", ""]),
        ("HOME", &["~"]),
        ("XDG_CONFIG_HOME", &["~/.config"]),
    ];
    for (k, v) in all {
        if r.pct(30) {
            o.push((k, r.pick(v).replace('~', &h)));
        }
    }
    o
}
/// A home directory with files that look like settings nobody asked for.
pub fn home(dir: &Path) -> PathBuf {
    let h = dir.join("home");
    let _ = std::fs::create_dir_all(h.join(".config/afmt"));
    for f in [".afmt.toml", "afmt.toml", ".afmtrc", ".config/afmt.toml", ".config/afmt/afmt.toml", ".config/afmt/config.toml", ".config/.afmt.toml"] {
        let _ = std::fs::write(h.join(f), "max_width = 40\nindent_size = 6\n");
    }
    h
}

/// A file being written by one thread must not be open in a child another thread forks: the
/// kernel refuses to run a file somebody may still write ("text file busy").
static FORK: std::sync::RwLock<()> = std::sync::RwLock::new(());
pub fn spawn(c: &mut Command) -> std::io::Result<std::process::Child> {
    let _g = FORK.write();
    c.spawn()
}

pub struct Out {
    pub code: Option<i32>,
    pub sig: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Out {
    /// ended by the watchdog rather than by itself
    pub fn watchdog(&self) -> bool {
        self.sig == Some(libc::SIGALRM)
    }
    pub fn stdout(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
    pub fn show(&self) -> String {
        format!(
            "exit {:?} signal {:?}\nstdout: {}\nstderr: {}",
            self.code,
            self.sig,
            run::clip(&self.stdout(), 1500),
            run::clip(&String::from_utf8_lossy(&self.err), 800)
        )
    }
}

impl Sand {
    pub fn new(name: &str) -> Sand {
        let dir = run::scratch(name);
        let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755));
        let bin = dir.join("bin");
        std::fs::create_dir_all(&bin).expect("bin");
        let exe = std::env::current_exe().expect("exe");
        home(&bin);
        let (afmt, monitor) = (bin.join("afmt"), bin.join("monitor"));
        std::fs::copy(exe.with_file_name("afmt"), &afmt).expect("afmt binary");
        std::fs::copy(&exe, &monitor).expect("monitor binary");
        for p in [&afmt, &monitor, &bin] {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
        }
        let mut s = Sand { dir, afmt, monitor, shim: None, uid: None, co: Corpus::load() };
        if unsafe { libc::geteuid() } == 0 {
            s.uid = Some(NOBODY);
            let w = s.work("probe");
            if s.run(&s.afmt.clone(), &["--version"], &w, &[], None).code != Some(0) {
                s.uid = None;
            }
            s.drop_work(&w);
        }
        s
    }
    pub fn build_shim(&mut self) {
        let src = run::verif().join("harness/c/shim.c");
        let so = self.dir.join("bin/shim.so");
        let ok = Command::new("cc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&so).arg(&src).arg("-ldl").status();
        if ok.map(|s| s.success()).unwrap_or(false) {
            let _ = std::fs::set_permissions(&so, std::fs::Permissions::from_mode(0o755));
            self.shim = Some(so);
        }
    }
    /// a fresh work directory owned by the unprivileged user
    pub fn work(&self, tag: &str) -> PathBuf {
        let w = self.dir.join(format!("w-{tag}"));
        let _ = std::fs::remove_dir_all(&w);
        std::fs::create_dir_all(&w).expect("work");
        self.own(&w);
        w
    }
    pub fn own(&self, p: &Path) {
        if let Some(u) = self.uid {
            let _ = std::os::unix::fs::lchown(p, Some(u), Some(u));
        }
    }
    pub fn drop_work(&self, w: &Path) {
        // modes may forbid even reading: we are root or the owner
        let _ = spawn(Command::new("chmod").args(["-R", "u+rwX"]).arg(w).stderr(Stdio::null())).and_then(|mut c| c.wait());
        let _ = std::fs::remove_dir_all(w);
    }
    pub fn put(&self, p: &Path, content: &[u8], mode: u32) {
        if let Some(d) = p.parent() {
            if !d.exists() {
                let _ = std::fs::create_dir_all(d);
                self.own(d);
            }
        }
        let g = FORK.read();
        std::fs::write(p, content).expect("put");
        drop(g);
        self.own(p);
        let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
    }
    pub fn run(&self, prog: &Path, args: &[&str], cwd: &Path, env: &[(&str, &str)], stdin: Option<&[u8]>) -> Out {
        self.run_to(prog, args, cwd, env, stdin, None)
    }
    pub fn run_to(&self, prog: &Path, args: &[&str], cwd: &Path, env: &[(&str, &str)], stdin: Option<&[u8]>, stdout: Option<std::fs::File>) -> Out {
        let uid = self.uid;
        let mut c = Command::new(prog);
        c.args(args)
            .current_dir(cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", cwd)
            .env("RUST_BACKTRACE", "0")
            .envs(AMBIENT.with(|a| a.borrow_mut().as_mut().map(|r| ambient(r, &self.dir.join("bin/home"))).unwrap_or_default()))
            .envs(env.iter().map(|(a, b)| (a.to_string(), b.to_string())))
            .stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() })
            .stdout(match stdout {
                Some(f) => Stdio::from(f),
                None => Stdio::piped(),
            })
            .stderr(Stdio::piped());
        unsafe {
            c.pre_exec(move || {
                libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
                libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: 100, rlim_max: 110 });
                libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: 256 << 20, rlim_max: 256 << 20 });
                // a runaway must not take the machine with it
                libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: 5 << 30, rlim_max: 5 << 30 });
                libc::alarm(240);
                libc::umask(0o022);
                if let Some(u) = uid {
                    libc::setgroups(0, std::ptr::null());
                    if libc::setgid(u) != 0 || libc::setuid(u) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                Ok(())
            });
        }
        let mut ch = match spawn(&mut c) {
            Ok(c) => c,
            Err(e) => return Out { code: None, sig: None, out: vec![], err: format!("spawn: {e}").into_bytes() },
        };
        if let (Some(b), Some(mut h)) = (stdin, ch.stdin.take()) {
            use std::io::Write;
            let b = b.to_vec();
            std::thread::spawn(move || {
                let _ = h.write_all(&b);
            });
        }
        match ch.wait_with_output() {
            Ok(o) => Out { code: o.status.code(), sig: o.status.signal(), out: o.stdout, err: o.stderr },
            Err(e) => Out { code: None, sig: None, out: vec![], err: format!("wait: {e}").into_bytes() },
        }
    }
    /// What the library makes of this text, in a process of its own: None when it refuses.
    pub fn lib(&self, src: &str, w: u32, i: u32) -> Option<String> {
        let o = self.run(&self.monitor, &["fmt", &w.to_string(), &i.to_string()], &self.dir, &[], Some(src.as_bytes()));
        (o.code == Some(0)).then(|| o.stdout())
    }
}

/// path -> (kind, mode, content or link target, mtime in ns)
pub type Snap = BTreeMap<PathBuf, (char, u32, Vec<u8>, i128)>;
pub fn snap(dir: &Path) -> Snap {
    fn go(d: &Path, root: &Path, o: &mut Snap) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let t = m.file_type();
            let (k, c) = if t.is_dir() {
                ('d', vec![])
            } else if t.is_symlink() {
                ('l', std::fs::read_link(&p).map(|l| l.display().to_string().into_bytes()).unwrap_or_default())
            } else if t.is_file() {
                ('f', std::fs::read(&p).unwrap_or_default())
            } else {
                ('o', vec![])
            };
            let mt = if t.is_dir() { 0 } else { m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128 };
            o.insert(p.strip_prefix(root).unwrap_or(&p).to_path_buf(), (k, m.mode(), c, mt));
            if t.is_dir() {
                go(&p, root, o);
            }
        }
    }
    let mut o = Snap::new();
    go(dir, dir, &mut o);
    o
}
/// difference of two snapshots, ignoring the given paths
pub fn snap_diff(a: &Snap, b: &Snap, ignore: &[&Path], new_ok: bool) -> Option<String> {
    for (p, x) in a {
        if ignore.contains(&p.as_path()) {
            continue;
        }
        match b.get(p) {
            None => return Some(format!("{} is gone", p.display())),
            Some(y) if x != y => {
                let w = if x.0 != y.0 {
                    "type"
                } else if x.2 != y.2 {
                    "content"
                } else if x.1 != y.1 {
                    "mode"
                } else {
                    "modification time"
                };
                return Some(format!("{w} of {} changed", p.display()));
            }
            _ => {}
        }
    }
    if !new_ok {
        for p in b.keys() {
            if !a.contains_key(p) && !ignore.contains(&p.as_path()) {
                return Some(format!("{} appeared", p.display()));
            }
        }
    }
    None
}

// ------------------------------------------------------------------ the driver
fn plan(prop: &str, tier: &str) -> (u64, u64) {
    let n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    let (c, s) = match (prop, tier) {
        ("C08", "thorough") => (20_000, 600),
        ("C08", _) => (600, 50),
        (_, "thorough") => (200_000, 600),
        _ => (3_000, 45),
    };
    (n("AFMT_CASES").unwrap_or(c), n("AFMT_SECS").unwrap_or(s))
}

pub fn check(prop: &str, tier: &str) -> Report {
    let (n, secs) = plan(prop, tier);
    let seed = run::seed();
    let mut sand = Sand::new(prop);
    if prop == "C08" {
        sand.build_shim();
    }
    let next = AtomicU64::new(0);
    let start = Instant::now();
    let mut all = St::default();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..run::ncpu())
            .map(|_| {
                sc.spawn(|| {
                    let mut st = St::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || start.elapsed() > Duration::from_secs(secs) || st.bad.len() >= 6 {
                            break;
                        }
                        one(prop, &sand, seed, i, &mut st);
                    }
                    st
                })
            })
            .collect();
        for h in hs {
            if let Ok(s) = h.join() {
                all.merge(s);
            }
        }
    });
    report(prop, all, n, &sand)
}

pub fn report(prop: &str, mut st: St, n: u64, sand: &Sand) -> Report {
    let mut r = Report { level: "exploration", ..Default::default() };
    r.evaluations = st.evals;
    r.distinct = st.hashes.len() as u64;
    st.samples.truncate(4);
    r.samples = st.samples;
    r.violations = st.bad;
    r.extra.insert("seed".into(), json!(run::seed()));
    r.extra.insert("planned_cases".into(), json!(n));
    r.extra.insert("observed".into(), json!(st.counts));
    r.extra.insert("distinct_observed".into(), json!(st.sets.iter().map(|(k, v)| (k.clone(), json!({"count": v.len(), "values": v.iter().take(60).collect::<Vec<_>>()}))).collect::<serde_json::Map<_, _>>()));
    r.extra.insert("undecided".into(), json!(st.undecided));
    r.extra.insert("run_as".into(), json!(if sand.uid.is_some() { "unprivileged user" } else { "current user" }));
    let listed = run::known_findings(prop);
    for (k, c) in &st.known {
        match listed.iter().find(|l| l.0 == *k) {
            Some(l) => r.known.push(format!("{} (seen {c} times)", l.1)),
            None => r.violations.push(Violation { sig: k.clone(), msg: format!("seen {c} times"), replay: json!({"kind": "known", "key": k}) }),
        }
    }
    if st.evals == 0 && r.violations.is_empty() {
        r.inconclusive = Some("no case was decided".into());
    }
    r
}

pub fn one(prop: &str, s: &Sand, seed: u64, i: u64, st: &mut St) {
    AMBIENT.with(|a| *a.borrow_mut() = Some(Rng::stream(seed ^ 0xA3B1, prop, i)));
    let rp = json!({"property": prop, "kind": "cli", "seed": seed.to_string(), "case": i});
    match prop {
        "C08" => {
            if i % 3 == 2 {
                faults(s, seed, i, st, rp)
            } else {
                write(s, seed, i, st, rp)
            }
        }
        "C09" => verify(s, seed, i, st, rp),
        "C10" => dry(s, seed, i, st, rp),
        "C22" => config(s, seed, i, st, rp),
        "C25" => failure(s, seed, i, st, rp),
        _ => panic!("unknown property {prop}"),
    }
}

pub fn replay(v: &Value) -> (bool, String) {
    let prop = v["property"].as_str().unwrap_or("");
    let mut s = Sand::new("replay");
    s.build_shim();
    let mut st = St::default();
    let seed: u64 = v["seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(1);
    one(prop, &s, seed, v["case"].as_u64().unwrap_or(0), &mut st);
    match st.bad.first() {
        Some(b) => (true, format!("{}\n{}", b.sig, b.msg)),
        None => (false, format!("{} evaluations, no violation; known {:?}", st.evals, st.known)),
    }
}

// ------------------------------------------------------------------ inputs
/// A source text of some kind, and its class.
fn source(s: &Sand, prop: &'static str, seed: u64, i: u64, r: &mut Rng) -> (Vec<u8>, &'static str, u32, u32) {
    let b = Build { co: &s.co, seed, stream: prop, modes: (60, 30, 10), queries: 8, max_budget: 120, off: &[] };
    // the first indices of the stream are whole files of the repository: skip most of them
    let mut k = s.co.files.len() as u64 + i * 7;
    let c = loop {
        if let Some(c) = b.case(k) {
            if c.src.len() < 60_000 {
                break c;
            }
        }
        k += 1;
    };
    let Case { mut src, width, indent, .. } = c;
    if r.pct(3) {
        // larger than the buffers on the way, with characters of several bytes across every boundary
        let unit = src.clone();
        let want = *r.pick(&[9_000, 70_000, 140_000, 300_000]);
        let mut k = 0;
        while src.len() < want {
            k += 1;
            src += &format!("\n// {k} {}{}\n{unit}", "x".repeat(k % 4), ["日本語", "é", "🚀", "ß"][k % 4].repeat(20 + k % 50));
        }
    }
    let form = |x: &str| s.lib(x, 80, 2);
    let (b, k): (Vec<u8>, &'static str) = match r.below(100) {
        0..=29 => (src.into_bytes(), "valid"),
        30..=44 => match form(&src) {
            Some(f) => (f.into_bytes(), "formatted"),
            None => (src.into_bytes(), "valid"),
        },
        45..=62 => match form(&src) {
            None => (src.into_bytes(), "valid"),
            Some(f) => {
                let v = match r.below(15) {
                    9 => format!("\u{feff}{f}"),
                    10 => f.replacen("\n\n", "\n", 1),
                    11 => {
                        // a blank moved: same length
                        let mut v = f.replacen("    ", "   ", 1);
                        if v.len() < f.len() {
                            v.insert(v.len() - 1, ' ');
                        }
                        v
                    }
                    12 => ["SELECT", "FROM", "WHERE", "GROUP BY", "ORDER BY"].iter().fold(f.clone(), |t, k| t.replacen(k, &k.to_lowercase(), 1)),
                    13 => f.replacen(" {", "{", 1),
                    14 => match f.rfind('}') {
                        Some(p) => format!("{} {}", &f[..p], &f[p..]),
                        None => format!("{f}\t"),
                    },
                    0 => f.trim_end().to_string(),
                    1 => format!("{f}\n"),
                    2 => format!("\n{f}"),
                    3 => f.replace('\n', "\r\n"),
                    4 => f.replacen("\n", " \n", 1),
                    5 => format!("{f} "),
                    6 => f.replacen("  ", "\t", 1),
                    7 => f.replacen('{', "{\n", 1),
                    _ => f.replacen("\n  ", "\n   ", 1),
                };
                (v.into_bytes(), "nearly formatted")
            }
        },
        63..=80 => {
            let (v, _) = break_program(&src, r);
            let k = if ts::valid(&v) { "edited" } else { "invalid" };
            (v.into_bytes(), k)
        }
        81..=84 => {
            let p = *r.pick(&[
                "class A { void m() { Integer i = 1; { class B {} } } }",
                "Integer i = 1;\n",
                "class A { Object o = [SELECT TYPEOF What WHEN Account THEN Phone END FROM Event]; }",
            ]);
            (p.as_bytes().to_vec(), "unsupported")
        }
        85..=88 => {
            let mut v = src.into_bytes();
            let at = r.below(v.len() + 1);
            v.insert(at, *r.pick(&[0xffu8, 0xc0, 0x80, 0xfe]));
            (v, "not UTF-8")
        }
        89 => (vec![], "empty"),
        90 => (b"\n\n  \n".to_vec(), "blank"),
        91 | 92 => (b"// only a comment\n/* and another */".to_vec(), "comments only"),
        93 | 94 => {
            let mut v = vec![0xef, 0xbb, 0xbf];
            v.extend(src.into_bytes());
            (v, "byte order mark")
        }
        95 | 96 => (src.replace('\n', "\r\n").into_bytes(), "CRLF"),
        _ => (format!("{src}\0").into_bytes(), "NUL"),
    };
    (b, k, width, indent)
}

/// the name of the target and how it is given to the program
fn target(r: &mut Rng) -> (&'static str, &'static str) {
    let names = ["A.cls", "sub/B.cls", "with space.cls", "Ünï_日本.cls", "T.trigger", "noext", "a.b.c.cls", ".hidden.cls", "--dash.cls", "x'y\"z.cls"];
    let how = ["rel", "dot", "abs", "link", "up"];
    (names[r.below(names.len())], how[r.below(how.len())])
}
fn path_of(s: &Sand, w: &Path, name: &str, how: &str) -> String {
    match how {
        "dot" => format!("./{name}"),
        "abs" => w.join(name).display().to_string(),
        "up" => format!("../{}/{name}", w.file_name().and_then(|x| x.to_str()).unwrap_or("")),
        "link" => {
            let l = w.join("link.cls");
            let _ = std::os::unix::fs::symlink(name, &l);
            s.own(&l);
            "link.cls".into()
        }
        _ if name.starts_with('-') => format!("./{name}"),
        _ => name.to_string(),
    }
}
fn neighbours(s: &Sand, w: &Path, name: &str, r: &mut Rng) {
    let base = name.rsplit('/').next().unwrap_or(name);
    let d = w.join(name).parent().map(|p| p.to_path_buf()).unwrap_or_default();
    for n in [format!("{base}.bak"), format!("{base}~"), format!(".{base}.swp"), format!("{base}.tmp"), "Other.cls".into(), "meta.xml".into()] {
        if r.pct(40) {
            s.put(&d.join(n), b"class   Other{ }", 0o644);
        }
    }
    // a configuration file nobody asked for
    match r.below(4) {
        0 => s.put(&w.join(".afmt.toml"), b"max_width = 20\nindent_size = 7\n", 0o644),
        1 => s.put(&w.join(".afmt.toml"), b"max_width = [not toml", 0o644),
        _ => {}
    }
}

fn cfg_args(s: &Sand, w: &Path, r: &mut Rng, width: u32, indent: u32) -> (Vec<String>, u32, u32) {
    if r.pct(60) {
        return (vec![], 80, 2);
    }
    let p = w.join("conf.toml");
    s.put(&p, format!("max_width = {width}\nindent_size = {indent}\n").as_bytes(), 0o644);
    let a = match r.below(3) {
        0 => vec!["-c".to_string(), "conf.toml".to_string()],
        1 => vec![format!("--config={}", p.display())],
        _ => vec!["--config".to_string(), "./conf.toml".to_string()],
    };
    (a, width, indent)
}
fn shuffle(r: &mut Rng, groups: Vec<Vec<String>>) -> Vec<String> {
    let mut g = groups;
    let mut o = vec![];
    while !g.is_empty() {
        let k = r.below(g.len());
        o.extend(g.remove(k));
    }
    o
}
fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
fn tag() -> String {
    format!("{:?}", std::thread::current().id()).chars().filter(|c| c.is_ascii_digit()).collect()
}

// ------------------------------------------------------------------ C08
fn write(s: &Sand, seed: u64, i: u64, st: &mut St, rp: Value) {
    let mut r = Rng::stream(seed, "C08-write", i);
    let (src, class, cw, ci) = source(s, "C08", seed, i, &mut r);
    let w = s.work(&tag());
    let (name, how) = target(&mut r);
    neighbours(s, &w, name, &mut r);
    let f = w.join(name);
    let mode = match r.below(12) {
        0 => 0o444,
        1 => 0o200,
        2 => 0o000,
        3 => 0o600,
        4 => 0o755,
        5 => 0o666,
        _ => 0o644,
    };
    s.put(&f, &src, mode);
    if r.pct(30) {
        let _ = std::fs::hard_link(&f, w.join("second-name.txt"));
    }
    let path = path_of(s, &w, name, how);
    let (ca, width, indent) = cfg_args(s, &w, &mut r, cw, ci);
    let mut groups = vec![vec![path.clone()], vec![if r.pct(50) { "-w" } else { "--write" }.to_string()], ca];
    let mut usage = false;
    let timed = r.pct(20);
    if timed {
        groups.push(vec!["-t".into()]);
    }
    match r.below(30) {
        0 => {
            usage = true;
            groups.push(vec!["--check".into()]);
        }
        1 => {
            usage = true;
            groups.push(vec!["--no-such-option".into()]);
        }
        2 => {
            usage = true;
            groups.push(vec!["another.cls".into()]);
        }
        3 => {
            usage = true;
            groups.push(vec!["-c".into(), "missing.toml".into()]);
        }
        _ => {}
    }
    let args = shuffle(&mut r, groups);
    let root = s.uid.is_none();
    let readable = root || mode & 0o400 != 0;
    let writable = root || mode & 0o200 != 0;
    let want = if usage || !readable {
        None
    } else {
        std::str::from_utf8(&src).ok().and_then(|t| s.lib(t, width, indent))
    };
    let before = snap(&w);
    let o = s.run(&s.afmt, &strs(&args), &w, &[], None);
    let after = snap(&w);
    if o.watchdog() {
        st.undecided += 1;
        s.drop_work(&w);
        return;
    }
    let rel = Path::new(name);
    let second = Path::new("second-name.txt");
    let now = after.get(rel).map(|x| x.2.clone());
    let say = |m: &str| format!("{m}\nargs {args:?} mode {mode:o} source class {class}\n{}", o.show());
    st.see("source class and outcome", format!("{class}: {}", if o.code == Some(0) { "written" } else { "refused" }));
    st.see("path forms", how);
    match want {
        Some(full) if writable => {
            st.add("writes that must succeed", 1);
            if o.code != Some(0) {
                st.bad("write failed", say("the file can be formatted and written"), rp);
            } else if now.as_deref() != Some(full.as_bytes()) {
                let n = now.map(|x| String::from_utf8_lossy(&x).into_owned()).unwrap_or("<gone>".into());
                st.bad("content", say(&format!("the file does not hold the formatted text: {}\nFILE\n{n}", line_diff(&full, &n))), rp);
            } else if before.get(rel).map(|x| x.1) != after.get(rel).map(|x| x.1) {
                st.bad("mode", say("the permission bits of the file changed"), rp);
            } else if let Some(d) = snap_diff(&before, &after, &[rel, second], false) {
                st.bad("others", say(&d), rp);
            }
        }
        _ => {
            st.add("writes that must be refused", 1);
            if o.code == Some(0) {
                st.bad("exit 0", say("nothing could be written but the exit status is 0"), rp);
            } else if let Some(d) = snap_diff(&before, &after, &[], false) {
                st.bad("touched", say(&format!("the run failed and {d}")), rp);
            } else if o.stdout().contains("written back") {
                st.bad("claimed", say("the run failed and claims to have written"), rp);
            }
        }
    }
    st.decided(&(&src, &args, mode));
    if st.samples.len() < 1 && src.len() < 300 {
        st.samples.push(json!({"case": i, "args": args, "mode": format!("{mode:o}"), "class": class, "exit": o.code, "source": String::from_utf8_lossy(&src)}));
    }
    s.drop_work(&w);
}

/// Every file operation of one run disturbed in every way.
fn faults(s: &Sand, seed: u64, i: u64, st: &mut St, rp: Value) {
    let Some(shim) = &s.shim else {
        st.undecided += 1;
        return;
    };
    let mut r = Rng::stream(seed, "C08-fault", i);
    let b = Build { co: &s.co, seed, stream: "C08f", modes: (70, 30, 0), queries: 8, max_budget: 200, off: &[] };
    let mut k = s.co.files.len() as u64 + i * 5;
    let (src, full) = loop {
        k += 1;
        let Some(c) = b.case(k) else { continue };
        if c.src.len() > 40_000 {
            continue;
        }
        let Some(f) = s.lib(&c.src, 80, 2) else { continue };
        if f != c.src && !f.starts_with(&c.src) && !c.src.starts_with(&f) {
            break (c.src, f);
        }
    };
    let w = s.work(&tag());
    let f = w.join("A.cls");
    let log = s.dir.join(format!("log-{}", tag()));
    let shim_s = shim.display().to_string();
    let dir_s = w.display().to_string();
    let log_s = log.display().to_string();
    let go = |kk: i64, kind: &str, sticky: bool| -> (Out, Snap, Snap, String) {
        s.drop_work(&w);
        let _ = s.work(&tag());
        s.put(&f, src.as_bytes(), 0o644);
        s.put(&w.join("Other.cls"), b"class   Other{ }", 0o644);
        s.put(&log, b"", 0o666);
        let before = snap(&w);
        let ks = kk.to_string();
        let env = [
            ("LD_PRELOAD", shim_s.as_str()),
            ("SHIM_DIR", dir_s.as_str()),
            ("SHIM_LOG", log_s.as_str()),
            ("SHIM_K", ks.as_str()),
            ("SHIM_KIND", kind),
            ("SHIM_STICKY", if sticky { "1" } else { "0" }),
        ];
        let o = s.run(&s.afmt, &["-w", "A.cls"], &w, &env, None);
        let after = snap(&w);
        (o, before, after, std::fs::read_to_string(&log).unwrap_or_default())
    };
    let (o, _, after, ops) = go(-1, "0", false);
    let ops: Vec<String> = ops.lines().map(|l| l.split(' ').nth(1).unwrap_or("").to_string()).collect();
    if o.code != Some(0) || after.get(Path::new("A.cls")).map(|x| x.2.as_slice()) != Some(full.as_bytes()) || ops.is_empty() {
        st.bad("fault-free", format!("the undisturbed run did not write the formatted text, operations {ops:?}\n{}", o.show()), rp);
        s.drop_work(&w);
        return;
    }
    st.see("operation sequences", ops.join(" "));
    let trunc = ops.iter().position(|x| x == "open-trunc" || x == "ftruncate" || x == "truncate");
    for (kk, op) in ops.iter().enumerate() {
        let mut kinds: Vec<(&str, bool)> = vec![("killb", false), ("killa", false)];
        let all: &[(i32, bool)] = match op.as_str() {
            "open-read" => &[(libc::EACCES, false), (libc::EMFILE, false), (libc::EIO, true)],
            "open-trunc" | "open-write" => &[(libc::EACCES, false), (libc::ENOSPC, false), (libc::EROFS, true)],
            "read" => &[(libc::EIO, false), (libc::EINTR, false), (libc::EIO, true)],
            "write" => &[(libc::EIO, false), (libc::ENOSPC, true), (libc::EDQUOT, false), (libc::EINTR, false), (libc::ENOSPC, false)],
            "close" => &[],
            _ => &[(libc::EIO, false), (libc::ENOSPC, true)],
        };
        let nums: Vec<(String, bool)> = all.iter().map(|(e, s)| (e.to_string(), *s)).collect();
        kinds.extend(nums.iter().map(|(a, b)| (a.as_str(), *b)));
        if matches!(op.as_str(), "read" | "write") {
            kinds.push(("short", false));
            kinds.push(("short", true));
        }
        for (kind, sticky) in kinds {
            if r.pct(10) {
                continue;
            }
            let (o, before, after, _) = go(kk as i64, kind, sticky);
            if o.watchdog() {
                st.undecided += 1;
                continue;
            }
            let now = after.get(Path::new("A.cls")).map(|x| x.2.clone());
            let label = format!("{op} {kind}{}", if sticky { " from here on" } else { "" });
            st.see("faults", label.clone());
            st.add("fault injections", 1);
            let say = |m: &str| format!("{m}\nfault at operation {kk} of {ops:?}: {label}\n{}", o.show());
            let killed = kind.starts_with("kill");
            let transient = kind == "short" || kind == libc::EINTR.to_string();
            let is_full = now.as_deref() == Some(full.as_bytes());
            let is_src = now.as_deref() == Some(src.as_bytes());
            if let Some(d) = snap_diff(&before, &after, &[Path::new("A.cls")], true) {
                st.bad("others", say(&d), rp.clone());
            } else if o.code == Some(0) && !is_full {
                st.bad("exit 0", say("exit status 0 but the file does not hold the formatted text"), rp.clone());
            } else if transient && !is_full {
                st.bad("transient", say("a short or interrupted operation was not continued"), rp.clone());
            } else if !is_full && !is_src {
                // after the program itself truncated the file, a prefix of the new text is all
                // there can be: the listed window
                let prefix = now.as_deref().map(|n| full.as_bytes().starts_with(n)).unwrap_or(false);
                if prefix && trunc.map(|t| kk > t || kk == t && kind == "killa").unwrap_or(false) {
                    *st.known.entry("truncate-window".into()).or_default() += 1;
                } else {
                    let n = now.map(|x| String::from_utf8_lossy(&x).into_owned()).unwrap_or("<gone>".into());
                    st.bad("torn", say(&format!("the file holds neither the old nor the new text:\n{n}")), rp.clone());
                }
            } else if killed && o.sig != Some(libc::SIGKILL) {
                st.add("kill not reached", 1);
            } else if !killed && !transient && o.code != Some(0) && o.err.is_empty() {
                st.bad("silent", say("the run failed without a message"), rp.clone());
            }
            st.decided(&(&src, kk, kind, sticky));
        }
    }
    s.drop_work(&w);
    let _ = std::fs::remove_file(&log);
}

// ------------------------------------------------------------------ C09
fn verify(s: &Sand, seed: u64, i: u64, st: &mut St, rp: Value) {
    let mut r = Rng::stream(seed, "C09", i);
    let (src, class, cw, ci) = source(s, "C09", seed, i, &mut r);
    let w = s.work(&tag());
    let (name, how) = target(&mut r);
    neighbours(s, &w, name, &mut r);
    s.put(&w.join(name), &src, 0o644);
    let path = path_of(s, &w, name, how);
    let (ca, width, indent) = cfg_args(s, &w, &mut r, cw, ci);
    // sometimes the text is formatted for exactly this configuration
    let mut src = src;
    if r.pct(30) {
        if let Some(f) = std::str::from_utf8(&src).ok().and_then(|t| s.lib(t, width, indent)) {
            src = f.into_bytes();
            s.put(&w.join(name), &src, 0o644);
        }
    }
    let mut groups = vec![vec![path.clone()], vec![if r.pct(50) { "-C" } else { "--check" }.to_string()], ca];
    if r.pct(15) {
        groups.push(vec!["-t".into()]);
    }
    let args = shuffle(&mut r, groups);
    let want = std::str::from_utf8(&src).ok().and_then(|t| s.lib(t, width, indent));
    let before = snap(&w);
    let o = s.run(&s.afmt, &strs(&args), &w, &[], None);
    let after = snap(&w);
    if o.watchdog() {
        st.undecided += 1;
        s.drop_work(&w);
        return;
    }
    let same = want.as_deref().map(|t| t.as_bytes() == src.as_slice());
    let say = |m: &str| format!("{m}\nargs {args:?} source class {class}\n{}\nSOURCE\n{}", o.show(), run::clip(&String::from_utf8_lossy(&src), 2000));
    let verdict = match same {
        Some(true) => "formatted",
        Some(false) => "not formatted",
        None => "refused",
    };
    st.add(&format!("expected {verdict}"), 1);
    st.see("source class and verdict", format!("{class}: {verdict}"));
    if let Some(d) = snap_diff(&before, &after, &[], false) {
        st.bad("touched", say(&format!("checking changed something: {d}")), rp);
    } else if (o.code == Some(0)) != (same == Some(true)) {
        st.bad(format!("verdict {verdict}"), say(&format!("the text is {verdict}")), rp);
    } else if same == Some(true) && !o.stdout().contains(&path) {
        st.bad("report", say("the positive verdict does not name the file"), rp);
    } else if same != Some(true) && o.err.is_empty() {
        st.bad("silent", say("the negative verdict says nothing on stderr"), rp);
    } else if same == Some(false) && !String::from_utf8_lossy(&o.err).contains(&path) {
        st.bad("report", say("the negative verdict does not name the file"), rp);
    } else if r.pct(25) && same == Some(false) {
        // after a write the same check passes
        let mut a2: Vec<String> = args.iter().filter(|a| *a != "-C" && *a != "--check").cloned().collect();
        a2.push("-w".into());
        let o2 = s.run(&s.afmt, &strs(&a2), &w, &[], None);
        let o3 = s.run(&s.afmt, &strs(&args), &w, &[], None);
        let stable = want.as_deref().and_then(|t| s.lib(t, width, indent)) == want;
        st.add("write then check", 1);
        if o2.code != Some(0) || stable && o3.code != Some(0) {
            st.bad("after write", say(&format!("check after write\n{}\n{}", o2.show(), o3.show())), rp);
        }
    }
    st.decided(&(&src, &args));
    if st.samples.len() < 1 && src.len() < 300 {
        st.samples.push(json!({"case": i, "args": args, "class": class, "expected": verdict, "exit": o.code, "source": String::from_utf8_lossy(&src)}));
    }
    s.drop_work(&w);
}

// ------------------------------------------------------------------ C10
fn dry(s: &Sand, seed: u64, i: u64, st: &mut St, rp: Value) {
    let mut r = Rng::stream(seed, "C10", i);
    let (src, class, cw, ci) = source(s, "C10", seed, i, &mut r);
    let w = s.work(&tag());
    let (name, how) = target(&mut r);
    neighbours(s, &w, name, &mut r);
    s.put(&w.join(name), &src, *r.pick(&[0o644, 0o444, 0o644, 0o600]));
    let path = path_of(s, &w, name, how);
    let (ca, width, indent) = cfg_args(s, &w, &mut r, cw, ci);
    let mut groups = vec![vec![path.clone()], ca];
    let timed = r.pct(25);
    if timed {
        groups.push(vec![if r.pct(50) { "-t" } else { "--time" }.into()]);
    }
    let args = shuffle(&mut r, groups);
    let envs: [&[(&str, &str)]; 7] = [
        &[],
        &[("LANG", "C"), ("LC_ALL", "C")],
        &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
        &[("COLUMNS", "20"), ("TERM", "dumb"), ("NO_COLOR", "1")],
        &[("HOME", "/nonexistent"), ("XDG_CONFIG_HOME", "/nonexistent"), ("TMPDIR", "/nonexistent")],
        &[("RUST_BACKTRACE", "full"), ("RUST_LOG", "trace"), ("CLICOLOR_FORCE", "1")],
        &[("AFMT_CONFIG", "conf.toml"), ("AFMT_MAX_WIDTH", "10"), ("TZ", "Asia/Tokyo")],
    ];
    let env = envs[r.below(envs.len())];
    let want = std::str::from_utf8(&src).ok().and_then(|t| s.lib(t, width, indent));
    let before = snap(&w);
    let o = s.run(&s.afmt, &strs(&args), &w, env, None);
    let after = snap(&w);
    if o.watchdog() {
        st.undecided += 1;
        s.drop_work(&w);
        return;
    }
    let say = |m: &str| format!("{m}\nargs {args:?} env {env:?} source class {class}\n{}", o.show());
    st.see("environments", format!("{env:?}"));
    st.see("path forms", how);
    st.see("source class and outcome", format!("{class}: {}", if want.is_some() { "formatted" } else { "refused" }));
    if let Some(d) = snap_diff(&before, &after, &[], false) {
        st.bad("touched", say(&format!("a preview changed something: {d}")), rp);
    } else {
        match &want {
            Some(full) => {
                st.add("previews compared", 1);
                let t = o.stdout();
                let body = if timed {
                    match t.rfind("\n-- Execution time: ") {
                        Some(p) => &t[..p],
                        None => "<no time line>",
                    }
                } else {
                    t.as_str()
                };
                if o.code != Some(0) {
                    st.bad("failed", say("the text can be formatted"), rp);
                } else if body != format!("{full}\n") {
                    st.bad("preview", say(&format!("the preview is not the formatted text: {}", line_diff(full, body))), rp);
                }
            }
            None => {
                st.add("previews refused", 1);
                if o.code == Some(0) {
                    st.bad("exit 0", say("the text cannot be formatted but the exit status is 0"), rp);
                }
            }
        }
    }
    st.decided(&(&src, &args, env));
    if st.samples.len() < 1 && src.len() < 300 {
        st.samples.push(json!({"case": i, "args": args, "env": format!("{env:?}"), "class": class, "exit": o.code, "source": String::from_utf8_lossy(&src)}));
    }
    s.drop_work(&w);
}

// ------------------------------------------------------------------ C22
/// A configuration document and the settings it stands for (None: it must be rejected).
fn config_doc(r: &mut Rng) -> (Vec<u8>, Option<(u32, u32)>, &'static str) {
    let num = |v: u32, r: &mut Rng| match r.below(5) {
        0 => format!("{v:#x}"),
        1 if v >= 1000 => format!("{}_{:03}", v / 1000, v % 1000),
        2 => format!("+{v}"),
        3 => format!("{v:#o}"),
        _ => v.to_string(),
    };
    let width = *r.pick(&[1u32, 5, 20, 40, 79, 80, 81, 100, 120, 500, 10_000, 1_000_000]);
    let indent = *r.pick(&[1u32, 2, 3, 4, 8, 16]);
    let (mut w, mut i) = (80, 2);
    let mut lines = vec![];
    if r.pct(75) {
        w = width;
        let q = if r.pct(15) { "\"max_width\"" } else { "max_width" };
        lines.push(format!("{q}{}= {}", if r.pct(30) { "   " } else { " " }, num(width, r)));
    }
    if r.pct(75) {
        i = indent;
        lines.push(format!("indent_size = {}", num(indent, r)));
    }
    if r.pct(40) {
        lines.push("# a comment: max_width = 3".into());
    }
    if r.pct(20) {
        lines.push("some_future_option = true".into());
    }
    if r.pct(50) {
        lines.reverse();
    }
    if r.pct(12) {
        lines.push("\n[section]\nmax_width = 7\nindent_size = 9".into());
    }
    if r.pct(65) {
        let mut t = lines.join(if r.pct(30) { "\r\n" } else { "\n" });
        if r.pct(60) {
            t.push('\n');
        }
        return (t.into_bytes(), Some((w, i)), "accepted");
    }
    let (t, k): (Vec<u8>, &'static str) = match r.below(12) {
        0 => (b"max_width = -1\n".to_vec(), "negative"),
        1 => (b"max_width = 80.5\n".to_vec(), "fraction"),
        2 => (b"max_width = \"80\"\n".to_vec(), "text"),
        3 => (b"indent_size = true\n".to_vec(), "boolean"),
        4 => (b"max_width = 4294967296\n".to_vec(), "too large"),
        5 => (b"max_width = 80\nmax_width = 90\n".to_vec(), "duplicate"),
        6 => (b"max_width 80\n".to_vec(), "no equals sign"),
        7 => (b"max_width = \n".to_vec(), "no value"),
        8 => (b"max_width = 80\nindent_size = [2]\n".to_vec(), "list"),
        9 => (b"\xff\xfemax_width = 80\n".to_vec(), "not UTF-8"),
        10 => (b"{ \"max_width\": 80 }\n".to_vec(), "JSON"),
        _ => (b"max_width = 80 }\n".to_vec(), "trailing junk"),
    };
    (t, None, k)
}
fn config(s: &Sand, seed: u64, i: u64, st: &mut St, rp: Value) {
    let mut r = Rng::stream(seed, "C22", i);
    let b = Build { co: &s.co, seed, stream: "C22", modes: (80, 20, 0), queries: 8, max_budget: 120, off: &[] };
    let mut k = s.co.files.len() as u64 + i * 3;
    let src = loop {
        k += 1;
        if let Some(c) = b.case(k) {
            if c.src.len() < 30_000 {
                break c.src;
            }
        }
    };
    let w = s.work(&tag());
    s.put(&w.join("A.cls"), src.as_bytes(), 0o644);
    let (doc, mut want, mut class) = config_doc(&mut r);
    let name = *r.pick(&[".afmt.toml", "conf.toml", "deep/er/c", "with space.toml"]);
    s.put(&w.join(name), &doc, 0o644);
    let mut given = vec!["-c".to_string(), name.to_string()];
    match r.below(14) {
        0 => {
            given = vec![];
            want = Some((80, 2));
            class = "not asked for";
        }
        1 => {
            given = vec!["-c".into(), "missing.toml".into()];
            want = None;
            class = "missing";
        }
        2 => {
            given = vec!["-c".into(), ".".into()];
            want = None;
            class = "directory";
        }
        _ => {}
    }
    let how = r.below(3);
    let mut groups = vec![vec!["A.cls".to_string()], given];
    match how {
        1 => groups.push(vec!["-w".into()]),
        2 => groups.push(vec!["--check".into()]),
        _ => {}
    }
    let args = shuffle(&mut r, groups);
    let expect = want.and_then(|(x, y)| s.lib(&src, x, y));
    let before = snap(&w);
    let o = s.run(&s.afmt, &strs(&args), &w, &[], None);
    let after = snap(&w);
    if o.watchdog() {
        st.undecided += 1;
        s.drop_work(&w);
        return;
    }
    st.see("configuration classes", class);
    if let Some(x) = want {
        st.see("settings", format!("{x:?}"));
    }
    let say = |m: &str| format!("{m}\nargs {args:?}\nconfiguration ({class}):\n{}\n{}", String::from_utf8_lossy(&doc), o.show());
    let now = after.get(Path::new("A.cls")).map(|x| x.2.clone()).unwrap_or_default();
    match (&expect, want) {
        (_, None) => {
            st.add("configurations that must be rejected", 1);
            if o.code == Some(0) {
                st.bad("accepted", say("an unusable configuration was accepted"), rp);
            } else if let Some(d) = snap_diff(&before, &after, &[], false) {
                st.bad("touched", say(&d), rp);
            } else if o.err.is_empty() {
                st.bad("silent", say("no message"), rp);
            } else if how == 0 && o.stdout().contains('{') {
                st.bad("printed", say("something was formatted without a usable configuration"), rp);
            }
        }
        (None, _) => st.add("source refused", 1),
        (Some(f), Some((x, y))) => {
            st.add("configurations that must take effect", 1);
            let bad = match how {
                0 => o.code != Some(0) || o.stdout().trim_end_matches('\n') != f.trim_end_matches('\n'),
                1 => o.code != Some(0) || now != f.as_bytes(),
                _ => (o.code == Some(0)) != (*f == src),
            };
            if bad {
                st.bad("settings", say(&format!("not the result for width {x} and indent {y}; expected\n{f}")), rp);
            }
        }
    }
    st.decided(&(&src, &doc, &args));
    if st.samples.len() < 1 && src.len() < 300 {
        st.samples.push(json!({"case": i, "args": args, "configuration": String::from_utf8_lossy(&doc), "class": class, "settings": want, "exit": o.code}));
    }
    s.drop_work(&w);
}

// ------------------------------------------------------------------ C25
/// What is said about a program that does not parse: the place of an error and the text there,
/// and not the program itself.
fn place(src: &[u8], o: &Out, st: &mut St) -> Option<(String, String)> {
    let t = std::str::from_utf8(src).ok()?;
    if src.len() > 400 && t.trim().len() > 400 && o.out.windows(src.len()).any(|w| w == src) {
        return Some(("echo".into(), "the refused program is printed as if it were a result".into()));
    }
    let errors = crate::ts::errors(t);
    if errors.is_empty() {
        return None;
    }
    let mut said = o.out.clone();
    said.extend_from_slice(&o.err);
    let mark = b"byte range: ";
    let mut first = true;
    let mut k = 0;
    while let Some(at) = said[k..].windows(mark.len()).position(|w| w == mark) {
        k += at + mark.len();
        let line = String::from_utf8_lossy(&said[k..(k + 40).min(said.len())]).into_owned();
        let Some((range, _)) = line.split_once(", snippet: ") else { continue };
        let Some((a, b)) = range.split_once('-') else { continue };
        let (Ok(a), Ok(b)) = (a.parse::<usize>(), b.parse::<usize>()) else { continue };
        let shown = &said[k + range.len() + ", snippet: ".len()..];
        if a > b || b > src.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
            return Some(("place".into(), format!("{a}-{b} is no place of the file")));
        }
        let real = &src[a..b];
        let same = real.iter().zip(shown).take_while(|(x, y)| x == y).count();
        let cut = same < real.len();
        let after = &shown[same..];
        if cut && !(same >= 20 && after.starts_with("\u{2026}".as_bytes())) || !cut && !after.starts_with(b"\n") {
            return Some(("snippet".into(), format!("the text quoted is not the text at {a}-{b}")));
        }
        st.add(if cut { "places quoted in part" } else { "places quoted in full" }, 1);
        if first && !errors.contains(&(a, b)) {
            return Some(("no error there".into(), format!("there is no error at {a}-{b}; the errors are at {errors:?}")));
        }
        if !first && !errors.iter().any(|e| a <= e.0 && e.1 <= b) {
            return Some(("no error within".into(), format!("there is no error within {a}-{b}")));
        }
        first = false;
    }
    if first {
        return Some(("no place".into(), "the message does not say where the program is wrong".into()));
    }
    None
}
fn failure(s: &Sand, seed: u64, i: u64, st: &mut St, rp: Value) {
    let mut r = Rng::stream(seed, "C25", i);
    let (mut src, mut class, _, _) = source(s, "C25", seed, i, &mut r);
    let kind = r.below(20);
    if kind >= 12 && r.below(100) < 60 {
        // something is added, taken out or doubled in the middle, next to text of any script
        if let Ok(t) = String::from_utf8(src.clone()) {
            let cs: Vec<char> = t.chars().collect();
            let k = r.below(cs.len() + 1);
            let e = *r.pick(&["=", "}", "{", "(", ")", ";", "'", "\u{e9}(", "/*", "* /", "'\u{4e16}\u{754c}", " class ", "[SELECT", " \u{1f600} ", "@", "", ""]);
            let skip = if e.is_empty() { 1 + r.below(3) } else { r.below(2) };
            let mut n: String = cs[..k].iter().collect();
            n.push_str(e);
            n.extend(cs.iter().skip(k + skip));
            src = n.into_bytes();
            class = "broken";
        }
    }
    let src = src;
    let w = s.work(&tag());
    s.put(&w.join("A.cls"), &src, 0o644);
    let lib = |s: &Sand| std::str::from_utf8(&src).ok().and_then(|t| s.lib(t, 80, 2));
    let mut full_dev = false;
    // (arguments, must succeed: Some(_) decided, what)
    let (args, ok, what): (Vec<&str>, bool, &str) = match kind {
        0 => (vec!["missing.cls"], false, "missing file"),
        1 => (vec!["."], false, "directory"),
        2 => (vec![], false, "no arguments"),
        3 => (vec!["--help"], true, "help"),
        4 => (vec!["--version"], true, "version"),
        5 => (vec!["A.cls", "--bogus"], false, "unknown option"),
        6 => (vec!["A.cls", "B.cls"], false, "two files"),
        7 => (vec!["A.cls", "-c"], false, "option without value"),
        8 => (vec!["A.cls", "-w", "--check"], false, "conflicting options"),
        9 => {
            s.put(&w.join("P.cls"), &src, 0o000);
            (vec!["P.cls"], s.uid.is_none() && lib(s).is_some(), "unreadable file")
        }
        10 => {
            full_dev = true;
            (vec!["A.cls"], false, "full output device")
        }
        11 => (vec!["missing.cls", *r.pick(&["-w", "--check", "-t"])], false, "missing file, other mode"),
        _ => {
            let m = *r.pick(&["", "", "-w", "-t"]);
            let ok = lib(s).is_some();
            (if m.is_empty() { vec!["A.cls"] } else { vec![m, "A.cls"] }, ok, "source")
        }
    };
    let dev = full_dev.then(|| std::fs::OpenOptions::new().write(true).open("/dev/full").ok()).flatten();
    if full_dev && dev.is_none() {
        s.drop_work(&w);
        return;
    }
    let o = s.run_to(&s.afmt, &args, &w, &[], None, dev);
    if o.watchdog() {
        st.undecided += 1;
        s.drop_work(&w);
        return;
    }
    st.see("situations", format!("{what}{}: exit {:?}", if what == "source" { format!(" ({class})") } else { String::new() }, o.code));
    let say = |m: &str| format!("{m}\n{what}: {args:?} source class {class}\n{}\nSOURCE\n{}", o.show(), run::clip(&String::from_utf8_lossy(&src), 1500));
    if ok {
        st.add("must succeed", 1);
        if o.code != Some(0) {
            st.bad(format!("failed {what}"), say("nothing stands in the way"), rp);
        }
    } else {
        st.add("must fail", 1);
        if o.sig.is_some() {
            st.bad(format!("signal {what}"), say("ended by a signal"), rp);
        } else if o.code == Some(0) {
            st.bad(format!("exit 0 {what}"), say("a failure is reported as success"), rp);
        } else if o.err.is_empty() {
            st.bad(format!("silent {what}"), say("a failure without a message"), rp);
        } else if let Some(name) = match what {
            "missing file" | "missing file, other mode" => Some("missing.cls"),
            "unreadable file" if s.uid.is_some() => Some("P.cls"),
            "unknown option" => Some("--bogus"),
            _ => None,
        }
        .filter(|n| !String::from_utf8_lossy(&o.err).contains(n))
        {
            st.bad(format!("unnamed {what}"), say(&format!("the message does not name {name}")), rp);
        } else if std::fs::read(w.join("A.cls")).ok().as_deref() != Some(&src[..]) || std::fs::read_dir(&w).map_or(0, |d| d.count()) != if what == "unreadable file" { 2 } else { 1 } {
            st.bad(format!("touched {what}"), say("a failed run changed the file or left another one"), rp);
        } else if what == "source" {
            if let Some((sig, why)) = place(&src, &o, st) {
                st.bad(sig, say(&why), rp);
            }
        }
    }
    st.decided(&(&src, &args, what));
    if st.samples.len() < 1 && src.len() < 300 {
        st.samples.push(json!({"case": i, "args": args, "situation": what, "class": class, "exit": o.code}));
    }
    s.drop_work(&w);
}

//! Runs scripts/install-afmt.sh as an unprivileged user with a scratch HOME. `curl` and `uname`
//! are stand-ins that play GitHub and the machine, `tar` and `mv` may be told to fail; a
//! pseudo-terminal holds the user's answer. Judged: exit status, messages, the installed file,
//! and everything else in HOME and TMPDIR.
use crate::cli::{self, snap, Out, Sand, Snap, St};
use crate::rng::Rng;
use crate::run::{self, Report};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const SCRIPT: &str = "/repo/scripts/install-afmt.sh";
const API: &str = "https://api.github.com/repos/xixiaofinland/afmt/releases/latest";
const DOWN: &str = "https://github.com/xixiaofinland/afmt/releases/download";

const CURL: &str = r#"#!/bin/bash
echo "curl $*" >> "$SCN/log"
out= follow= fail= silent= show= url= name=
while (($#)); do
  a=$1; shift
  case $a in
    --location) follow=1;; --fail|--fail-with-body) fail=1;; --silent) silent=1;; --show-error) show=1;;
    --output) out=$1; shift;; --output=*) out=${a#*=};; --remote-name) name=1;; --url) url=$1; shift;;
    --retry|--retry-delay|--retry-max-time|--connect-timeout|--max-time|--header|--user-agent|--proto|--write-out|--tlsv1.2) [[ $a == --tlsv1.2 ]] || shift;;
    --*) ;;
    -?*)
      r=${a#-}
      while [[ -n $r ]]; do
        c=${r:0:1}; r=${r:1}
        case $c in
          L) follow=1;; f) fail=1;; s) silent=1;; S) show=1;; O) name=1;;
          o) if [[ -n $r ]]; then out=$r; r=; else out=$1; shift; fi;;
          H|A|m|w|x|X|u|e|d|b) if [[ -n $r ]]; then r=; else shift; fi;;
        esac
      done;;
    *) url=$a;;
  esac
done
say() { if [[ -z $silent || -n $show ]]; then echo "curl: $*" >&2; fi; }
[[ -n $name && -z $out ]] && out=${url##*/}
put() { if [[ -n $out && $out != - ]]; then cat > "$out"; else cat; fi; }
http() { # an error answer with a body
  if [[ -n $fail ]]; then say "(22) The requested URL returned error: $1"; exit 22; fi
  printf '%s' "$2" | put; exit 0
}
fault=$(cat "$SCN/fault")
if [[ $url == "$(cat "$SCN/api")" ]]; then
  case $fault in
    api-down) say "(6) Could not resolve host: api.github.com"; exit 6;;
    api-limit) http 403 '{
  "message": "API rate limit exceeded",
  "documentation_url": "https://docs.github.com/rest"
}
';;
  esac
  put < "$SCN/release.json"; exit 0
fi
f=$SCN/assets/${url##*/}
if [[ $url == "$(cat "$SCN/down")/"* && -f $f ]]; then
  [[ -n $follow ]] || { : | put; exit 0; }
  case $fault in
    asset-down) say "(7) Failed to connect to github.com port 443"; exit 7;;
    asset-cut) head -c $(($(wc -c < "$f") / 2)) "$f" | put; say "(18) transfer closed with outstanding read data remaining"; exit 18;;
    asset-404) http 404 'Not Found';;
  esac
  echo "served ${url##*/}" >> "$SCN/log"
  put < "$f"; exit 0
fi
http 404 'Not Found'
"#;
const UNAME: &str = r#"#!/bin/bash
case "$*" in
  -m) cat "$SCN/arch";; -s|"") cat "$SCN/os";;
  *) echo "$(cat "$SCN/os") $(cat "$SCN/arch")";;
esac
"#;
const FAILING: &str = "#!/bin/bash\necho \"hit ${0##*/}\" >> \"$SCN/log\"\necho \"${0##*/}: Input/output error\" >&2\nexit 2\n";

fn plan(tier: &str) -> (u64, u64) {
    let n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    let (c, s) = if tier == "thorough" { (30_000, 400) } else { (1_200, 45) };
    (n("AFMT_CASES").unwrap_or(c), n("AFMT_SECS").unwrap_or(s))
}

pub fn check(tier: &str) -> Report {
    let (n, secs) = plan(tier);
    let sand = Sand::new("C26");
    tools(&sand);
    let (next, start, seed) = (AtomicU64::new(0), Instant::now(), run::seed());
    let mut all = St::default();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..run::ncpu())
            .map(|_| {
                sc.spawn(|| {
                    let mut st = St::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || start.elapsed() > Duration::from_secs(secs) || st.bad.len() >= 3 {
                            break st;
                        }
                        one(&sand, seed, i, &mut st);
                    }
                })
            })
            .collect();
        for h in hs {
            if let Ok(s) = h.join() {
                all.merge(s);
            }
        }
    });
    cli::report("C26", all, n, &sand)
}

pub fn replay(v: &Value) -> (bool, String) {
    let s = Sand::new("replay");
    tools(&s);
    let mut st = St::default();
    let seed: u64 = v["seed"].as_str().and_then(|s| s.parse().ok()).unwrap_or(1);
    one(&s, seed, v["case"].as_u64().unwrap_or(0), &mut st);
    match st.bad.first() {
        Some(b) => (true, format!("{}\n{}", b.sig, b.msg)),
        None => (false, format!("{} evaluations, no violation", st.evals)),
    }
}

/// every program of the system but those the stand-ins replace
fn tools(s: &Sand) {
    let t = s.dir.join("tools");
    let _ = std::fs::create_dir_all(&t);
    let _ = std::fs::set_permissions(&t, std::fs::Permissions::from_mode(0o755));
    for d in ["/bin", "/usr/bin"] {
        let Ok(rd) = std::fs::read_dir(d) else { continue };
        for e in rd.flatten() {
            let n = e.file_name();
            if !["curl", "wget", "tar", "uname", "mv", "bsdtar"].contains(&n.to_string_lossy().as_ref()) {
                let _ = symlink(e.path(), t.join(n));
            }
        }
    }
}

struct Run<'a> {
    cwd: &'a Path,
    home: &'a Path,
    tmp: &'a Path,
    path: String,
    shell: Option<&'a str>,
    scn: &'a Path,
    piped: bool,
    answer: Option<&'a [u8]>,
}

fn exec(s: &Sand, r: &Run) -> Out {
    let fail = |e: String| Out { code: None, sig: None, out: vec![], err: e.into_bytes() };
    let text = match std::fs::read(std::env::var("AFMT_INSTALL_SCRIPT").unwrap_or(SCRIPT.into())) {
        Ok(t) => t,
        Err(e) => return fail(format!("{SCRIPT}: {e}")),
    };
    let mut pty: Option<(OwnedFd, OwnedFd)> = None;
    if let Some(a) = r.answer {
        let (mut m, mut sl) = (0, 0);
        unsafe {
            if libc::openpty(&mut m, &mut sl, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) != 0 {
                return fail("no pseudo-terminal".into());
            }
            libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(sl, libc::F_SETFD, libc::FD_CLOEXEC);
            pty = Some((OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(sl)));
            libc::write(m, a.as_ptr().cast(), a.len());
        }
    }
    let tty = pty.as_ref().map(|p| p.1.as_raw_fd());
    let script = r.scn.join("script.sh");
    s.put(&script, &text, 0o644);
    let mut c = Command::new("/bin/bash");
    if !r.piped {
        c.arg(&script);
    }
    c.current_dir(r.cwd)
        .env_clear()
        .env("PATH", &r.path)
        .env("HOME", r.home)
        .env("TMPDIR", r.tmp)
        .env("SCN", r.scn)
        .env("LC_ALL", "C")
        .stdin(if r.piped { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if let Some(sh) = r.shell {
        c.env("SHELL", sh);
    }
    let uid = s.uid;
    unsafe {
        c.pre_exec(move || {
            libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
            libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 });
            libc::umask(0o022);
            libc::setsid();
            if let Some(t) = tty {
                if libc::ioctl(t, libc::TIOCSCTTY as _, 0) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            // a child the watchdog stops takes its descendants' terminal with it
            libc::alarm(120);
            if let Some(u) = uid {
                libc::setgroups(0, std::ptr::null());
                if libc::setgid(u) != 0 || libc::setuid(u) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let mut ch = match crate::cli::spawn(&mut c) {
        Ok(c) => c,
        Err(e) => return fail(format!("spawn: {e}")),
    };
    if let Some(mut h) = ch.stdin.take() {
        std::thread::spawn(move || {
            use std::io::Write;
            let _ = h.write_all(&text);
        });
    }
    let o = ch.wait_with_output();
    drop(pty);
    match o {
        // a stand-in the system would not run for reasons of its own: nothing was observed
        Ok(o) if String::from_utf8_lossy(&o.stderr).contains("bad interpreter: Text file busy") => {
            Out { code: None, sig: Some(libc::SIGALRM), out: o.stdout, err: o.stderr }
        }
        Ok(o) => Out { code: o.status.code(), sig: o.status.signal(), out: o.stdout, err: o.stderr },
        Err(e) => fail(format!("wait: {e}")),
    }
}

fn is_message(o: &Out) -> bool {
    if !String::from_utf8_lossy(&o.err).trim().is_empty() {
        return true;
    }
    let t = o.stdout().to_lowercase();
    ["error", "fail", "cannot", "could not", "can't", "not found", "unsupported", "denied", "no such", "not installed", "unable", "no matching"]
        .iter()
        .any(|w| t.contains(w))
}

fn one(s: &Sand, seed: u64, i: u64, st: &mut St) {
    let mut r = Rng::stream(seed, "C26", i);
    let rp = json!({"property": "C26", "kind": "install", "seed": seed.to_string(), "case": i});
    let w = s.work(&format!("{seed}-{i}"));
    run_case(s, &w, &mut r, st, rp);
    s.drop_work(&w);
}

fn run_case(s: &Sand, w: &Path, r: &mut Rng, st: &mut St, rp: Value) {
    // ---- the machine and the release
    let os_ok = [("Linux", "linux"), ("Darwin", "macos")];
    let arch_ok = [("x86_64", "x86_64"), ("amd64", "x86_64"), ("arm64", "aarch64"), ("aarch64", "aarch64")];
    let (mut os, os_name) = *r.pick(&os_ok);
    let (mut arch, arch_name) = *r.pick(&arch_ok);
    let mut fault = if r.pct(45) {
        "none"
    } else {
        *r.pick(&[
            "api-down", "api-limit", "asset-down", "asset-cut", "asset-404", "not-gzip", "archive-cut", "archive-empty", "no-afmt", "in-folder",
            "mv", "tar", "local-is-file", "bin-read-only", "no-curl", "no-tar", "os", "arch", "no-asset", "no-tmp",
        ])
    };
    if fault == "bin-read-only" && s.uid.is_none() {
        fault = "none";
    }
    if fault == "os" {
        os = *r.pick(&["FreeBSD", "MINGW64_NT-10.0-19045", "SunOS", "CYGWIN_NT-10.0"]);
    }
    if fault == "arch" {
        arch = *r.pick(&["i686", "armv7l", "riscv64", "ppc64le", "s390x", "i386"]);
    }
    let tag = *r.pick(&["v0.7.3", "v1.0.0", "v0.10.12", "v2.0.0-beta.1"]);
    let mine = format!("afmt-{tag}-{os_name}-{arch_name}.tar.gz");
    let mut assets: Vec<String> = ["linux-x86_64", "linux-aarch64", "macos-x86_64", "macos-aarch64"].iter().map(|x| format!("afmt-{tag}-{x}.tar.gz")).collect();
    assets.push(format!("afmt-{tag}-windows-x86_64.zip"));
    for x in ["sha256", "zip", "deb"] {
        if r.pct(20) {
            assets.push(format!("afmt-{tag}-{os_name}-{arch_name}.{x}"));
        }
    }
    for k in (1..assets.len()).rev() {
        assets.swap(k, r.below(k + 1));
    }
    if r.pct(40) {
        let keep = r.below(assets.len());
        assets.truncate(keep);
        assets.push(mine.clone());
        assets.sort_by_key(|a| a.len() * 7 % 5);
        assets.dedup();
    }
    if fault == "no-asset" {
        assets.retain(|a| *a != mine);
    }
    let scn = w.join("scn");
    let body = *r.pick(&["", "Fixes for linux-x86_64 and macos-aarch64 builds.", "See afmt-linux-x86_64.tar.gz\\r\\nand others", "a \\\"quoted\\\" note"]);
    let mut json = format!(
        "{{\n  \"url\": \"https://api.github.com/repos/xixiaofinland/afmt/releases/1\",\n  \"html_url\": \"https://github.com/xixiaofinland/afmt/releases/tag/{tag}\",\n  \"tag_name\": \"{tag}\",\n  \"name\": \"{tag}\",\n  \"assets\": [\n"
    );
    let mut bins: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (k, a) in assets.iter().enumerate() {
        let mut bin = format!("#!/bin/sh\necho {a}\nexit 0\n").into_bytes();
        bin.extend((0..*r.pick(&[0, 100, 40_000])).map(|_| r.next() as u8));
        let f = scn.join("assets").join(a);
        pack(s, w, &f, &bin, if *a == mine { fault } else { "none" }, r);
        bins.insert(a.clone(), bin);
        json += &format!(
            "    {{\n      \"url\": \"https://api.github.com/repos/xixiaofinland/afmt/releases/assets/{k}\",\n      \"name\": \"{a}\",\n      \"content_type\": \"application/gzip\",\n      \"size\": {},\n      \"browser_download_url\": \"{DOWN}/{tag}/{a}\"\n    }}{}\n",
            1000 + k,
            if k + 1 < assets.len() { "," } else { "" }
        );
    }
    json += &format!(
        "  ],\n  \"tarball_url\": \"https://api.github.com/repos/xixiaofinland/afmt/tarball/{tag}\",\n  \"zipball_url\": \"https://api.github.com/repos/xixiaofinland/afmt/zipball/{tag}\",\n  \"body\": \"{body}\"\n}}\n"
    );
    for (n, c) in [("release.json", json.as_str()), ("fault", fault), ("api", API), ("down", &format!("{DOWN}/{tag}")), ("os", os), ("arch", arch), ("log", "")] {
        s.put(&scn.join(n), c.as_bytes(), 0o666);
    }
    // ---- the programs
    let bin = w.join("bin");
    let real = |n: &str| ["/usr/bin", "/bin"].iter().map(|d| Path::new(d).join(n)).find(|p| p.exists());
    s.put(&bin.join("uname"), UNAME.as_bytes(), 0o755);
    if fault != "no-curl" {
        s.put(&bin.join("curl"), CURL.as_bytes(), 0o755);
    }
    for n in ["tar", "mv"] {
        if fault == n {
            s.put(&bin.join(n), FAILING.as_bytes(), 0o755);
        } else if fault != "no-tar" || n != "tar" {
            if let Some(p) = real(n) {
                let _ = symlink(p, bin.join(n));
            }
        }
    }
    // ---- the user's home
    let shell = *r.pick(&[Some("/bin/bash"), Some("/bin/bash"), Some("/usr/bin/zsh"), Some("/usr/local/bin/fish"), Some("/bin/dash"), Some("/bin/tcsh"), None]);
    let fish = shell.is_some_and(|x| x.ends_with("fish"));
    let home = w.join(if r.pct(15) && !fish { "home of me" } else { "home" });
    let (tmp, cwd) = (w.join(if r.pct(15) { "tmp dir" } else { "tmp" }), w.join("cwd"));
    for d in [&home, &tmp, &cwd] {
        let _ = std::fs::create_dir_all(d);
        s.own(d);
    }
    s.put(&cwd.join("A.cls"), b"class A {}\n", 0o644);
    if r.pct(30) {
        s.put(&cwd.join("afmt"), b"not me\n", 0o644);
    }
    let dir = home.join(".local/bin");
    let target = dir.join("afmt");
    let old: Vec<u8> = b"#!/bin/sh\necho old\n".to_vec();
    let kind = *r.pick(&["none", "none", "file", "file", "link", "running", "dir-only"]);
    match kind {
        "file" => s.put(&target, &old, 0o755),
        "link" => {
            s.put(&home.join(".cargo/bin/afmt"), &old, 0o755);
            let _ = std::fs::create_dir_all(&dir);
            let _ = symlink(home.join(".cargo/bin/afmt"), &target);
        }
        "running" => {
            if let Ok(b) = std::fs::read("/bin/sleep") {
                s.put(&target, &b, 0o755);
            }
        }
        "dir-only" => s.put(&dir.join("other"), b"other tool\n", 0o755),
        _ => {}
    }
    let rc = |n: &str, r: &mut Rng| -> Option<Vec<u8>> {
        let t: &[u8] = match r.below(4) {
            0 => return None,
            1 => b"alias ll='ls -l'\nexport EDITOR=vi\n",
            2 => b"",
            _ => b"# mine\nexport X=1",
        };
        s.put(&home.join(n), t, 0o644);
        Some(t.to_vec())
    };
    let mut old_rc: BTreeMap<&str, Option<Vec<u8>>> = BTreeMap::new();
    for n in [".bashrc", ".zshrc", ".config/fish/config.fish"] {
        old_rc.insert(n, rc(n, r));
    }
    s.put(&home.join(".profile"), b"# profile\n", 0o644);
    s.put(&home.join("notes.txt"), b"keep\n", 0o600);
    let profile = match shell {
        Some(x) if x.ends_with("/bash") => Some(".bashrc"),
        Some(x) if x.ends_with("/zsh") => Some(".zshrc"),
        Some(x) if x.ends_with("/fish") => Some(".config/fish/config.fish"),
        _ => None,
    };
    let locked = profile.is_some_and(|p| old_rc[p].is_some()) && s.uid.is_some() && r.pct(8);
    if locked {
        let _ = std::fs::set_permissions(home.join(profile.unwrap()), std::fs::Permissions::from_mode(0o444));
    }
    if fault == "local-is-file" {
        let _ = std::fs::remove_dir_all(home.join(".local"));
        s.put(&home.join(".local"), b"a file\n", 0o644);
    }
    for d in [home.join(".local"), home.join(".config"), home.join(".config/fish"), home.join(".cargo"), home.join(".cargo/bin"), dir.clone()] {
        s.own(&d);
    }
    if fault == "bin-read-only" {
        let _ = std::fs::create_dir_all(&dir);
        s.own(&dir);
        s.own(&home.join(".local"));
        let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o555));
    }
    let mut runner = None;
    if kind == "running" && fault != "local-is-file" {
        runner = crate::cli::spawn(Command::new(&target).arg("300").stdin(Stdio::null()).stdout(Stdio::null())).ok();
    }
    let in_path = r.pct(30);
    let mut path = format!("{}:{}", bin.display(), s.dir.join("tools").display());
    if in_path {
        path = if r.pct(50) { format!("{path}:{}", dir.display()) } else { format!("{}:{}", path, dir.display()) + ":/nonexistent" };
    } else if r.pct(30) {
        // near misses are not the folder itself
        path += &format!(":{}:{}/x", home.join(".local").display(), dir.display());
    }
    let (answer, yes): (Option<&[u8]>, bool) = match r.below(10) {
        0..=3 => (Some(b"y\n"), true),
        4 => (Some(b"Y\n"), true),
        5 => (Some(*r.pick(&[b"n\n" as &[u8], b"not yet\n", b"any\n"])), false),
        6 => (Some(b"\n"), false),
        7 => (Some(b"N\n"), false),
        8 => (Some(b"\x04"), false),
        _ => (None, false),
    };
    let piped = r.pct(70);
    let gone = w.join("gone");
    let run = Run { cwd: &cwd, home: &home, tmp: if fault == "no-tmp" { &gone } else { &tmp }, path, shell, scn: &scn, piped, answer };
    let before: [Snap; 3] = [snap(&home), snap(&cwd), snap(&tmp)];
    let o = exec(s, &run);
    if let Some(mut c) = runner {
        let _ = c.kill();
        let _ = c.wait();
    }
    let after: [Snap; 3] = [snap(&home), snap(&cwd), snap(&tmp)];
    let log = std::fs::read_to_string(scn.join("log")).unwrap_or_default();
    if o.watchdog() || (o.code.is_none() && o.sig.is_none()) {
        st.undecided += 1;
        st.see("undecided", run::clip(&String::from_utf8_lossy(&o.err), 100));
        return;
    }
    // a stand-in that was never called has broken nothing
    let broken = match fault {
        "none" => false,
        "mv" | "tar" => log.contains(&format!("hit {fault}")),
        "no-tmp" => o.code != Some(0),
        _ => true,
    };
    let how = format!(
        "{fault}; {os} {arch}, assets {assets:?}, shell {shell:?}, answer {:?}, folder in PATH {in_path}, afmt before: {kind}, {}",
        answer.map(|a| String::from_utf8_lossy(a).into_owned()),
        if piped { "piped into bash" } else { "run as a file" }
    );
    let mut bad: Option<(&str, String)> = None;
    let mut fail = |sig: &'static str, m: String| {
        if bad.is_none() {
            bad = Some((sig, m));
        }
    };
    let rel = Path::new(".local/bin/afmt");
    let mut changed: Vec<PathBuf> = vec![rel.to_path_buf()];
    if !broken {
        let want = bins.get(&mine).cloned().unwrap_or_default();
        if o.code != Some(0) {
            fail("refused", "nothing stood in the way, but the installer failed".into());
        }
        match after[0].get(rel) {
            Some(('f', m, c, _)) => {
                if *c != want {
                    let of = bins.iter().find(|b| b.1 == c).map(|b| b.0.as_str()).unwrap_or("no asset's");
                    fail("wrong-program", format!("the installed afmt is {of}, not that of {mine}"));
                }
                if m & 0o500 != 0o500 {
                    fail("not-executable", format!("mode {m:o}"));
                }
            }
            x => fail("not-installed", format!("~/.local/bin/afmt is {:?}", x.map(|x| x.0))),
        }
        if !o.stdout().contains(&target.display().to_string()) {
            fail("silent", "the path of the installed program is not named".into());
        }
        let edit = yes && !in_path && profile.is_some() && !locked;
        if let (true, Some(p)) = (edit, profile) {
            changed.push(PathBuf::from(p));
            let now = std::fs::read(home.join(p)).unwrap_or_default();
            let was = old_rc[p].clone().unwrap_or_default();
            let added = String::from_utf8_lossy(now.get(was.len()..).unwrap_or_default()).into_owned();
            let lines: Vec<&str> = added.lines().filter(|l| !l.trim().is_empty()).collect();
            if !now.starts_with(&was) {
                fail("profile-lost", format!("what stood in ~/{p} is not there any more"));
            } else if lines.len() != 1 || !added.ends_with('\n') {
                fail("profile-lines", format!("not one line was added to ~/{p}: {added:?}"));
            } else if !was.is_empty() && !was.ends_with(b"\n") && !added.starts_with('\n') {
                fail("profile-glued", format!("the line was glued to the last line of ~/{p}: {added:?}"));
            } else if p.ends_with("fish") {
                if !added.contains("fish_user_paths") || !added.contains(&dir.display().to_string()) {
                    fail("profile-useless", format!("added to ~/{p}: {added:?}"));
                }
            } else {
                let q = s.run(Path::new("/bin/bash"), &["-c", &format!("PATH=/first:/usr/bin; . '{}' >/dev/null 2>&1; printf %s \"$PATH\"", home.join(p).display())], &cwd, &[], None);
                let now = q.stdout();
                let parts: Vec<&str> = now.split(':').collect();
                if !parts.contains(&dir.display().to_string().as_str()) || !parts.contains(&"/first") || !parts.contains(&"/usr/bin") {
                    fail("profile-useless", format!("after reading ~/{p} PATH is {now:?}; added: {added:?}"));
                }
            }
            st.add("profiles edited", 1);
        }
        st.add("installed", 1);
    } else {
        if o.code == Some(0) {
            fail("claimed", "the installer claims success".into());
        }
        if !is_message(&o) {
            fail("unexplained", "the installer stops without saying why".into());
        }
        if before[0].get(rel) != after[0].get(rel) {
            fail("old-lost", format!("~/.local/bin/afmt was {:?} and is {:?}", before[0].get(rel).map(|x| (x.0, x.2.len())), after[0].get(rel).map(|x| (x.0, x.2.len()))));
        }
        st.add("failures", 1);
    }
    let ign: Vec<&Path> = changed.iter().map(|p| p.as_path()).collect();
    if let Some(d) = cli::snap_diff(&before[0], &strip_dirs(&before[0], &after[0]), &ign, false) {
        fail("home-changed", d);
    }
    if let Some(d) = cli::snap_diff(&before[1], &after[1], &[], false) {
        fail("cwd-changed", d);
    }
    if let Some(p) = after[2].keys().next() {
        fail("leftover", format!("{} is left in the folder for temporary files", p.display()));
    }
    st.decided(&how);
    st.see("faults", fault);
    st.see("machines", format!("{os} {arch}"));
    st.see("shells and answers", format!("{shell:?} {:?}", answer.map(|a| String::from_utf8_lossy(a).into_owned())));
    st.add("stand-in calls", log.lines().count() as u64);
    if st.samples.is_empty() {
        st.samples.push(json!({"case": how, "exit": o.code, "stdout": run::clip(&o.stdout(), 300), "calls": log.lines().collect::<Vec<_>>()}));
    }
    if let Some((sig, m)) = bad {
        st.bad(sig, format!("{m}\n{how}\n{}\ncalls:\n{log}", o.show()), rp);
    }
}

/// the folders the installer may create
fn strip_dirs(before: &Snap, after: &Snap) -> Snap {
    let made = [".local", ".local/bin", ".config", ".config/fish"];
    after.iter().filter(|(p, x)| !(x.0 == 'd' && !before.contains_key(*p) && made.contains(&p.to_string_lossy().as_ref()))).map(|(p, x)| (p.clone(), x.clone())).collect()
}

fn pack(s: &Sand, w: &Path, f: &Path, bin: &[u8], fault: &str, r: &mut Rng) {
    let d = w.join("pack");
    let _ = std::fs::remove_dir_all(&d);
    let inner = match fault {
        "in-folder" => "release/afmt",
        "no-afmt" => "afmt.txt",
        _ => "afmt",
    };
    s.put(&d.join(inner), bin, if r.pct(80) { 0o755 } else { 0o644 });
    let mut names = vec![inner.split('/').next().unwrap_or(inner).to_string()];
    if r.pct(30) {
        s.put(&d.join("LICENSE.md"), b"MIT\n", 0o644);
        names.push("LICENSE.md".into());
    }
    if let Some(p) = f.parent() {
        let _ = std::fs::create_dir_all(p);
        let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
    }
    let _ = crate::cli::spawn(Command::new("/usr/bin/tar").arg("-czf").arg(f).arg("-C").arg(&d).args(&names).stderr(Stdio::null())).and_then(|mut c| c.wait());
    match fault {
        "not-gzip" => s.put(f, b"<html>Sign in</html>\n", 0o644),
        "archive-empty" => s.put(f, b"", 0o644),
        "archive-cut" => {
            let b = std::fs::read(f).unwrap_or_default();
            let k = (b.len() / 2).max(1);
            s.put(f, &b[..k], 0o644);
        }
        _ => {}
    }
    let _ = std::fs::remove_dir_all(&d);
}

//! The formatter and the parser's C code under AddressSanitizer and UBSan (heap, stack and
//! arithmetic faults), and the multi-file path under ThreadSanitizer.
use crate::{multi, run};
use serde_json::json;
use std::path::PathBuf;

fn exe(dir: &str) -> PathBuf {
    std::env::var("AFMT_TARGET")
        .map(PathBuf::from)
        .unwrap_or_else(|_| run::verif().join("target"))
        .join(dir)
        .join("x86_64-unknown-linux-gnu/release/monitor")
}

pub fn check(tier: &str) -> run::Report {
    let n = |k: &str| std::env::var(k).ok().and_then(|s| s.parse().ok());
    let (cases, secs, pairs, psecs) = if tier == "thorough" { (1_000_000, 420, 50_000, 200) } else { (4_000, 25, 300, 20) };
    let a = exe("asan");
    let t = exe("tsan");
    let env = [
        ("AFMT_NO_RLIMIT", "1".to_string()),
        ("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=0:max_allocation_size_mb=6000:allocator_may_return_null=0".to_string()),
    ];
    let mut r = if a.exists() {
        run::in_process("C18", tier, &a, &env, Some((n("AFMT_CASES").unwrap_or(cases), n("AFMT_SECS").unwrap_or(secs))))
    } else {
        run::Report { level: "exploration", inconclusive: Some("no AddressSanitizer build".into()), ..Default::default() }
    };
    if t.exists() {
        let env = [("AFMT_RACE", "1".to_string()), ("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0".to_string())];
        let m = multi::run_with(&t, &env, (pairs, psecs));
        r.evaluations += m.evaluations;
        r.distinct += m.distinct;
        r.extra.insert("thread_sanitizer".into(), json!({"evaluations": m.evaluations, "distinct": m.distinct, "observed": m.extra.get("observed")}));
        // the results themselves are the business of another property
        for mut v in m.violations {
            if v.sig == "process ended" {
                v.sig = "thread sanitizer".into();
                v.replay["tsan"] = json!(true);
                r.violations.push(v);
            }
        }
    } else {
        r.extra.insert("thread_sanitizer".into(), json!("no build"));
    }
    r
}

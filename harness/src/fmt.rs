//! Calls into the code under test: every call on a fresh thread, panics captured.
use sf_afmt::formatter::{Config, Formatter};
use std::cell::RefCell;
use std::sync::Once;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static HOOK: Once = Once::new();

pub fn install_hook() {
    HOOK.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            let quiet = QUIET.with(|q| *q.borrow());
            if !quiet {
                prev(i);
            }
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} @ {loc}")));
        }));
    });
}

pub fn cfg(width: u32, indent: u32) -> Config {
    let mut c = Config::new(width);
    c.indent_size = indent;
    c
}

/// Ok(output) or Err(panic message)
pub fn format(src: &str, width: u32, indent: u32) -> Result<String, String> {
    install_hook();
    let s = src.to_string();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            QUIET.with(|q| *q.borrow_mut() = true);
            let r = std::panic::catch_unwind(|| Formatter::format_one(&s, cfg(width, indent)));
            match r {
                Ok(o) => Ok(o),
                Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
            }
        })
        .expect("spawn");
    h.join().unwrap_or_else(|_| Err("thread died".into()))
}

//! Attribution of panics: library or harness.
use std::cell::RefCell;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub message: String,
    pub location: String,
    /// True if the innermost frame of either side is one of the library's.
    pub in_library: bool,
}

thread_local! {
    static LAST: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}
/// Library panics seen on any thread/task since the last `clear`.
static LIB: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());
static HARNESS: Mutex<Vec<PanicInfo>> = Mutex::new(Vec::new());

/// Panics carrying this payload are part of a generated script.
pub const EXPECTED: &str = "\u{1}scripted";
thread_local! {
    pub static SCRIPTED: RefCell<bool> = const { RefCell::new(false) };
}
/// Call immediately before a scripted panic.
pub fn expect_panic() {
    SCRIPTED.with(|s| *s.borrow_mut() = true);
}

/// The scripted panic did not happen.
pub fn panic_not_raised() {
    SCRIPTED.with(|s| *s.borrow_mut() = false);
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let scripted = SCRIPTED.with(|s| std::mem::replace(&mut *s.borrow_mut(), false));
        if scripted {
            return;
        }
        let message = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let location = info.location().map(|l| l.to_string()).unwrap_or_default();
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        // The panic's own location decides if it is in the library's sources; otherwise (a panic raised
        // by a dependency or by std) the innermost frame of either side does.
        let mut in_library = location.starts_with("/repo/") || location.contains("/rexecutor/src/") || location.contains("/rexecutor-sqlx/src/");
        if !in_library {
            for line in bt.lines() {
                let l = line.trim();
                if l.starts_with("at ") || l.contains("vkit::panics") {
                    continue;
                }
                // "12: symbol"; `<rxcore::X as rexecutor::Executor>::execute` is the harness's
                let sym = l.split_once(": ").map_or(l, |x| x.1).trim_start_matches(['<', '&']);
                if ["rxcore::", "vkit::", "rxpg::"].iter().any(|p| sym.starts_with(p)) {
                    break;
                }
                if ["rexecutor::", "rexecutor_sqlx::"].iter().any(|p| sym.starts_with(p)) {
                    in_library = true;
                    break;
                }
            }
        }
        if std::env::var_os("VKIT_TRACE_PANICS").is_some() {
            eprintln!("PANIC lib={in_library} {location}: {message}\n{bt}");
        }
        let p = PanicInfo { message, location, in_library };
        LAST.with(|l| *l.borrow_mut() = Some(p.clone()));
        if in_library { LIB.lock() } else { HARNESS.lock() }.unwrap_or_else(|e| e.into_inner()).push(p);
    }));
}

pub fn take_last() -> Option<PanicInfo> {
    LAST.with(|l| l.borrow_mut().take())
}
pub fn take_library() -> Vec<PanicInfo> {
    std::mem::take(&mut *LIB.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn take_harness() -> Vec<PanicInfo> {
    std::mem::take(&mut *HARNESS.lock().unwrap_or_else(|e| e.into_inner()))
}

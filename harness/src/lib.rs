//! Property-based checks of rangetools. See /verif/DESIGN.md.
pub mod any;
pub mod ctx;
pub mod elem;
pub mod gen;
pub mod model;
pub mod props;
pub mod tape;

/// Is this the unoptimised build?
pub const PLAIN: bool = matches!(env!("HARNESS_OPT").as_bytes(), b"0");

use ctx::{Ctx, Res};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Keeps panics quiet and remembers where the last one came from.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}
pub fn last_panic() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

/// Runs the library code in `f`; None if it panicked.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Decodes and decides one case. Returns the verdict and the hash of the decoded case.
pub fn run_case(prop: &str, data: &[u8], ctx: &mut Ctx) -> (Res, u64) {
    let mut tape = tape::Tape::new(data);
    elem::refuel(elem::CASE_FUEL);
    let r = catch_unwind(AssertUnwindSafe(|| props::check(prop, &mut tape, ctx)));
    elem::refuel(u64::MAX);
    let res = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    };
    (res, tape.hash)
}

//! Coverage-guided search over the same tapes, decoder and oracle as rtcheck.
//! RT_PROP names the property. A failing tape aborts, and libFuzzer writes it out.
#![no_main]
use libfuzzer_sys::fuzz_target;
use rtcheck::ctx::Ctx;
use std::sync::OnceLock;

static PROP: OnceLock<String> = OnceLock::new();

fuzz_target!(init: {
    // libFuzzer's own hook would abort at panics the checks expect
    rtcheck::install_hook();
    PROP.set(std::env::var("RT_PROP").expect("RT_PROP")).unwrap();
}, |data: &[u8]| {
    let mut ctx = Ctx::default();
    if let (Err(m), _) = rtcheck::run_case(PROP.get().unwrap(), data, &mut ctx) {
        eprintln!("FAILS: {m}");
        std::process::abort();
    }
});

//! Coverage-guided search over the choice strings of one property (VH_FUZZ=<id>).
//! The check is the one of the random tier; a failing string is left as the artifact and
//! confirmed and shrunk by the caller.
#![no_main]
use std::sync::OnceLock;
use vh::ctx::Ctx;
use vh::runner::{self, Known, Prop};

static PROP: OnceLock<(&'static Prop, Known)> = OnceLock::new();

fn prop() -> &'static (&'static Prop, Known) {
    PROP.get_or_init(|| {
        runner::install_hook();
        let id = std::env::var("VH_FUZZ").expect("VH_FUZZ names the property");
        let p = vh::props::all().into_iter().find(|p| p.id == id).expect("known property");
        let env = runner::Env::read();
        (p, Known::load(&env.verif.join("KNOWN_FINDINGS.txt")))
    })
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let (p, known) = prop();
    let mut ctx = Ctx::new(false);
    let (r, _) = runner::eval(p.check, data, &mut ctx);
    if let Err(e) = r {
        if !known.matches(p.id, &e) {
            eprintln!("FAILURE: {}", e.msg);
            std::process::abort();
        }
    }
});

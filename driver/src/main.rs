//! rustc driver: dumps the monomorphic MIR of everything reachable from the
//! public entry points of the crate under analysis, as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let txt = dump::dump(tcx);
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, txt).expect("write dump");
        std::fs::rename(&tmp, &self.out).expect("rename dump");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // args[0] is the real rustc
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if !out.is_empty() && crate_name == want && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Cdebug-assertions=on".into());
        args.push("-Coverflow-checks=on".into());
        args.push("--cap-lints=allow".into());
        let code = rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        });
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    } else {
        let code = rustc_driver::catch_with_exit_code(|| {
            rustc_driver::compiler_entrypoint(&args, &mut Plain)
        });
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
}

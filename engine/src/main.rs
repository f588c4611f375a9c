#![feature(rustc_private)]
//! bitflow: a rustc driver that analyses the MIR of the crate being compiled.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. For the crate named by BITFLOW_CRATE (library
//! target) it runs the dataflow analysis after type checking and writes the summary
//! to BITFLOW_OUT. For everything else it behaves like rustc.

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_errors;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;
extern crate rustc_trait_selection;

mod dd;
mod effects;
mod entries;
mod interface;
mod interp;
mod intrinsics;
mod json;
mod ops;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

/// Time allowed for the analysis of one configuration.
const SECONDS: u64 = 420;

struct Analyse {
    out: String,
}

impl rustc_driver::Callbacks for Analyse {
    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        // an answer in any case: an analysis that takes too long decides nothing and says so
        let out = self.out.clone();
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(SECONDS));
            let text = format!("{{\"error\":\"the analysis did not end within {SECONDS} s\"}}");
            std::process::exit(if std::fs::write(&out, text).is_ok() { 1 } else { 101 });
        });
        let text = entries::analyse(tcx);
        if let Err(e) = std::fs::write(&self.out, text) {
            eprintln!("bitflow: cannot write {}: {e}", self.out);
            std::process::exit(101);
        }
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper the first argument is the path of the real rustc.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().is_some_and(|s| s == "rustc") {
        args.remove(1);
    }
    let want = std::env::var("BITFLOW_CRATE").unwrap_or_default();
    let out = std::env::var("BITFLOW_OUT").unwrap_or_default();
    let mut name = None;
    let mut lib = false;
    let mut printing = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned();
        }
        if a == "--crate-type" && args.get(i + 1).is_some_and(|t| t == "lib" || t == "rlib") {
            lib = true;
        }
        if a == "--test" {
            lib = false;
        }
        if a.starts_with("--print") {
            printing = true;
        }
    }
    let target = !printing && lib && !out.is_empty() && name.as_deref() == Some(want.as_str());
    let code = rustc_driver::catch_with_exit_code(|| {
        if target {
            rustc_driver::compiler_entrypoint(&args, &mut Analyse { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

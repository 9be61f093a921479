//! Dumps the resolved program (MIR before drop elaboration and before async bodies are turned
//! into state machines, resolved callees, type tables, evaluated constants) of workspace crates as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; writes $MIRDUMP_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump::dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    //as a workspace wrapper, the first argument is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if out.is_empty() || name.is_empty() || name == "___" || name == "build_script_build" {
        rustc_driver::compiler_entrypoint(&args, &mut rustc_driver::TimePassesCallbacks::default());
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out: format!("{out}/{name}.json") });
}

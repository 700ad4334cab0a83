//! sia-mirdump: a rustc driver that type-checks a crate exactly as cargo asks for it
//! and writes the resolved program (MIR with resolved callees, item table, unsafe
//! blocks, statics) as JSON into $SIA_FACTS_DIR.  It decides nothing itself.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("SIA_FACTS_DIR") {
            dump::dump(tcx, &dir);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print="))
        || !args.iter().any(|a| a == "--crate-name");
    if !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("--cap-lints=allow".into());
    }
    let mut cb = Cb;
    std::process::exit(if matches!(rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb)), c if c == std::process::ExitCode::SUCCESS) {0} else {1});
}

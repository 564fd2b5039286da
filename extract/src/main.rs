//! Exports the resolved MIR of one crate (and of the library functions it
//! reaches) as JSON. Used as `RUSTC_WORKSPACE_WRAPPER`; writes to the directory
//! named by `EXTRACT_OUT` for crates listed in `EXTRACT_CRATES`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod export;
mod json;
mod surface;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let wanted = std::env::var("EXTRACT_CRATES").unwrap_or_default();
        if let Ok(out) = std::env::var("EXTRACT_OUT") {
            if wanted.split(',').any(|w| w == name) {
                let s = export::export(tcx);
                let path = format!("{out}/{name}.json");
                std::fs::write(&path, s).expect("cannot write extract");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper the real rustc path is argument 1
    args.remove(0);
    args.push("-Zmir-opt-level=0".to_owned());
    args.push("-Zinline-mir=no".to_owned());
    args.push("-Coverflow-checks=off".to_owned());
    args.push("-Cdebug-assertions=off".to_owned());
    args.push("-Zub-checks=no".to_owned());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

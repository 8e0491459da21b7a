//! `mirfacts`: a rustc driver that type-checks one workspace crate and writes the resolved,
//! instantiated MIR of every function defined in it (plus the standard-library and sibling-crate
//! helpers those functions call) as JSON facts. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
	out: Option<String>,
}

impl Callbacks for Cb {
	fn config(&mut self, config: &mut interface::Config) {
		config.opts.unstable_opts.mir_opt_level = Some(0);
		config.opts.unstable_opts.always_encode_mir = true;
		config.opts.lint_cap = Some(rustc_lint_defs::Level::Allow);
	}
	fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
		if let Some(dir) = &self.out {
			dump::dump(tcx, dir);
		}
		Compilation::Continue
	}
}

fn main() {
	let mut args: Vec<String> = std::env::args().collect();
	// argv[1] is the real rustc path (wrapper protocol)
	args.remove(1);
	let is_real = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a.starts_with("--print"));
	let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
	let out = std::env::var("MIRFACTS_OUT").ok();
	if is_real && std::env::var("MIRFACTS_RELEASE").is_ok() {
		// as the runtime is shipped: no debug assertions, no overflow checks
		args.push("-Cdebug-assertions=off".into());
		args.push("-Coverflow-checks=off".into());
	}
	let wanted = is_real && out.is_some() && name != "build_script_build" && !args.iter().any(|a| a == "--test");
	rustc_driver::install_ice_hook("", |_| ());
	let code = rustc_driver::catch_with_exit_code(move || {
		rustc_driver::compiler_entrypoint(&args, &mut Cb { out: if wanted { out } else { None } });
	});
	std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

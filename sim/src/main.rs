//! Deterministic simulation of dnssec-prover. See /verif/DESIGN.md.

mod attack;
mod dns;
mod hooks;
mod http_props;
#[cfg(feature = "wasm")]
mod js;
#[cfg(feature = "wasm")]
mod js_props;
mod judge;
mod keys;
mod keytable;
mod model;
mod net;
mod net_props;
mod props;
mod roll_props;
mod run;
mod runner;
mod session;
mod src;
mod verify_props;
#[cfg(feature = "wasm")]
mod wasm_props;
mod world;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	std::process::exit(runner::main(&args));
}

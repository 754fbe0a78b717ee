//! Connects the seams in the code under test to the simulator.

use crate::net;
use crate::world::World;
use std::cell::RefCell;

#[derive(Default)]
pub struct Work { pub anchors: Vec<(u16, u8, u8, Vec<u8>)>, pub sig_checks: u64, pub hashes: u64 }
thread_local! { static WORK: RefCell<Work> = RefCell::new(Default::default()); }

pub fn set_anchors(w: &World) { WORK.with(|k| k.borrow_mut().anchors = w.anchors()); }
pub fn set_anchor_list(l: Vec<(u16, u8, u8, Vec<u8>)>) { WORK.with(|k| k.borrow_mut().anchors = l); }
pub fn clear_anchors() { WORK.with(|k| k.borrow_mut().anchors.clear()); }
pub fn reset_work() { WORK.with(|k| { let mut k = k.borrow_mut(); k.sig_checks = 0; k.hashes = 0; }); }
/// Public key operations and hashes since the last reset.
pub fn work() -> (u64, u64) { WORK.with(|k| { let k = k.borrow(); (k.sig_checks, k.hashes) }) }

fn anchors() -> Vec<(u16, u8, u8, Vec<u8>)> { WORK.with(|k| k.borrow().anchors.clone()) }
fn on_sig() { WORK.with(|k| k.borrow_mut().sig_checks += 1); }
fn on_hash() { WORK.with(|k| k.borrow_mut().hashes += 1); }

pub fn install() {
	macro_rules! hooks { ($m: path) => { { use $m as s; s::install(s::Hooks {
		trust_anchors: anchors, on_signature_check: on_sig, on_hash,
		connect: net::connect, read: net::read, write: net::write,
		start_connect: net::start_connect, poll_connect: net::poll_connect, poll_read: net::poll_read,
		poll_write: net::poll_write, poll_accept: net::poll_accept, shutdown: net::shutdown, close: net::close,
	}) } } }
	hooks!(dnssec_prover::sim);
	#[cfg(feature = "http")]
	hooks!(http_proof_gen::sim);
}

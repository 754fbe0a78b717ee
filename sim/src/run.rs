//! What a single simulated run has at hand, and what it reports.

use crate::src::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub struct Violation { pub class: &'static str, pub msg: String }
pub type Res = Result<(), Violation>;
pub fn bad<T>(class: &'static str, msg: String) -> Result<T, Violation> { Err(Violation { class, msg }) }

#[derive(Default)]
pub struct Stats {
	/// Faults which actually fired, and rare conditions reached.
	pub faults: BTreeMap<&'static str, u64>,
	pub probes: BTreeMap<&'static str, u64>,
	pub sim_ms: u64,
	pub events: u64,
	/// Hashes of the distinct non-trivial situations reached.
	pub states: Vec<u64>,
}

pub struct Ctx { pub src: Src, pub st: Stats, pub tier_thorough: bool }
impl Ctx {
	pub fn new(src: Src, thorough: bool) -> Ctx { Ctx { src, st: Default::default(), tier_thorough: thorough } }
	pub fn fault(&mut self, k: &'static str) { *self.st.faults.entry(k).or_insert(0) += 1; self.src.note(k.as_bytes()); }
	pub fn probe(&mut self, k: &'static str) { *self.st.probes.entry(k).or_insert(0) += 1; }
	/// Records that this run got somewhere worth counting.
	pub fn state(&mut self, b: &[u8]) { let h = hash_bytes(11, b); self.st.states.push(h); self.src.note(b); }
}

thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
	static EXPECTING: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|i| {
		let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or("panic".into());
		let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let s = format!("{} at {}", m.lines().next().unwrap_or(""), loc);
		if std::env::var("SIM_BT").is_ok() { eprintln!("{}\n{}", s, std::backtrace::Backtrace::force_capture()); }
		LAST_PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(s); } });
	}));
}
pub fn take_panic() -> Option<String> { LAST_PANIC.with(|p| p.borrow_mut().take()) }

/// Calls into the code under test, turning a panic into its message.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
	take_panic();
	EXPECTING.with(|e| *e.borrow_mut() = true);
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(r) => Ok(r),
		Err(_) => Err(take_panic().unwrap_or("panic".into())),
	}
}

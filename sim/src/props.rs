//! The properties and how they are explored.

use crate::http_props as h;
#[cfg(feature = "wasm")]
use crate::js_props as j;
use crate::net_props as n;
use crate::run::*;
use crate::roll_props as r;
use crate::verify_props as v;
#[cfg(feature = "wasm")]
use crate::wasm_props as wp;
#[cfg(not(feature = "wasm"))]
mod wp { pub fn c16(_: &mut crate::run::Ctx) -> crate::run::Res { Ok(()) } }
#[cfg(not(feature = "wasm"))]
mod j { pub fn c17(_: &mut crate::run::Ctx) -> crate::run::Res { Ok(()) } }

pub struct Prop {
	pub id: &'static str,
	pub run: fn(&mut Ctx) -> Res,
	/// Simulated runs per tier.
	pub quick: u32,
	pub thorough: u32,
	/// Whether a panic, an abort or a hang in the code under test breaks this property. They are
	/// left to the properties which are about them elsewhere.
	pub crash_counts: bool,
	pub rule: &'static str,
	pub real: &'static [&'static str],
	pub stub: &'static [&'static str],
}

const CORE: &[&str] = &["record parsing and serialisation (src/ser.rs, src/rr.rs)", "proof builder (src/query.rs)", "validation (src/validation.rs)", "base32 and hashing (src/base32.rs, src/crypto)", "signature verification (ring)"];
const DNS: &[&str] = &["authoritative zones, their operators and signers", "recursive resolver", "transport between resolver and builder"];

const CLIENT: &[&str] = &["record parsing and serialisation (src/ser.rs, src/rr.rs)", "proof builder and its blocking and asynchronous clients (src/query.rs)"];
const SERVER: &[&str] = &["HTTP server (src/http.rs)", "record parsing and serialisation (src/ser.rs, src/rr.rs)", "proof builder and its blocking and asynchronous clients (src/query.rs)", "tokio's single-threaded scheduler"];
const WASM: &[&str] = &["WebAssembly wrapper, compiled natively (wasmpack/src/lib.rs)", "record parsing, serialisation and JSON (src/ser.rs, src/rr.rs)", "proof builder (src/query.rs)", "validation (src/validation.rs)", "signature verification (ring)"];
const JS: &[&str] = &["the page's lookup function (wasmpack/doh_lookup.js) in node", "WebAssembly wrapper, compiled natively (wasmpack/src/lib.rs)", "proof builder, validation, JSON (src/query.rs, src/validation.rs, src/rr.rs)", "JavaScript's promises and tasks"];
const NET: &[&str] = &["TCP (segmentation, buffering, errors, time)", "recursive resolver", "authoritative zones, their operators and signers", "executor and wakers (asynchronous client)"];

pub const ALL: &[Prop] = &[
	Prop { id: "C01", run: v::c01, quick: 100000, thorough: 1500000, crash_counts: false,
		rule: "distinct (multiset of attacks, verdict, query type, answering zone's depth/denial/security, number of accepted sets)", real: CORE, stub: DNS },
	Prop { id: "C02", run: v::c02, quick: 120000, thorough: 2000000, crash_counts: false,
		rule: "distinct (kind of expanded name, kinds of denial offered, verdict)", real: CORE, stub: DNS },
	Prop { id: "C03", run: v::c03, quick: 48000, thorough: 1000000, crash_counts: false,
		rule: "distinct (epochs mixed per link, attacks, verdict, clock era)", real: CORE, stub: DNS },
	Prop { id: "C04", run: v::c04, quick: 40000, thorough: 800000, crash_counts: true,
		rule: "distinct (chain of steps, algorithms and denial of the zones crossed, rendering style, response order)", real: CORE, stub: DNS },
	Prop { id: "C05", run: v::c05, quick: 32000, thorough: 400000, crash_counts: true,
		rule: "distinct (stream shape, verdict, permutation kind)", real: CORE, stub: DNS },
	Prop { id: "C06", run: v::c06, quick: 50000, thorough: 800000, crash_counts: true,
		rule: "distinct (alias graph shape, outcome)", real: CORE, stub: DNS },
	Prop { id: "C07", run: v::c07, quick: 60000, thorough: 1000000, crash_counts: true,
		rule: "distinct (corruptions, entry point, outcome)", real: CORE, stub: DNS },
	Prop { id: "C08", run: v::c08, quick: 40000, thorough: 800000, crash_counts: true,
		rule: "distinct (amplification tricks, verdict, order of magnitude of work)", real: CORE, stub: DNS },
	Prop { id: "C09", run: n::c09, quick: 80000, thorough: 1500000, crash_counts: true,
		rule: "distinct (records kept and queries caused per response, refusals, query type)", real: CORE, stub: DNS },
	Prop { id: "C10", run: n::c10, quick: 80000, thorough: 1500000, crash_counts: true,
		rule: "distinct (sequence of refused and accepted responses, query type)", real: CORE, stub: DNS },
	Prop { id: "C11", run: n::c11, quick: 80000, thorough: 1500000, crash_counts: true,
		rule: "distinct (outcome, responses, segmentation, fault kinds)", real: CLIENT, stub: NET },
	Prop { id: "C12", run: n::c12, quick: 48000, thorough: 1000000, crash_counts: true,
		rule: "distinct (outcome and responses per task, order of completions and cancellations, fault kinds)", real: CLIENT, stub: NET },
	Prop { id: "C13", run: h::c13, quick: 32000, thorough: 700000, crash_counts: true,
		rule: "distinct (wishes and statuses of all clients, resolver connections, fault kinds)", real: SERVER, stub: NET },
	Prop { id: "C14", run: h::c14, quick: 24000, thorough: 400000, crash_counts: true,
		rule: "distinct (wishes and statuses of all clients, resolver connections, fault kinds)", real: SERVER, stub: NET },
	Prop { id: "C15", run: h::c15, quick: 48000, thorough: 1000000, crash_counts: false,
		rule: "as for the session which was run: responses, outcomes and fault kinds", real: SERVER, stub: NET },
	Prop { id: "C16", run: wp::c16, quick: 60000, thorough: 1000000, crash_counts: true,
		rule: "distinct (records accepted, depth and type of the name, error or not, fault kinds)", real: WASM, stub: &["authoritative zones, their operators and signers", "recursive resolver behind DNS over HTTPS", "the JavaScript around the compiled module, including its HTTP client"] },
	Prop { id: "C17", run: j::c17, quick: 10000, thorough: 150000, crash_counts: true,
		rule: "distinct (outcomes and queries of all lookups, fault kinds)", real: JS, stub: &["what wasm-bindgen generates around the compiled module", "fetch and timers", "authoritative zones, their operators and signers", "recursive resolver behind DNS over HTTPS"] },
	Prop { id: "C18", run: n::c18, quick: 80000, thorough: 1500000, crash_counts: true,
		rule: "distinct (records kept and queries caused per response, refusals, query type)", real: CORE, stub: DNS },
	Prop { id: "C23", run: v::c23, quick: 60000, thorough: 1000000, crash_counts: false,
		rule: "distinct (multiset of attacks, verdict, answering zone's depth/denial/security)", real: CORE, stub: DNS },
	Prop { id: "C24", run: v::c24, quick: 40000, thorough: 500000, crash_counts: true,
		rule: "distinct (number of sets, zones reached, verdict, parts missing or added)", real: CORE, stub: DNS },
	Prop { id: "C25", run: r::c25, quick: 40000, thorough: 600000, crash_counts: true,
		rule: "distinct (rollovers on the way to the name, number of sets cached before the last stage, verdict, queries)", real: CORE, stub: DNS },
	Prop { id: "C26", run: r::c26, quick: 24000, thorough: 400000, crash_counts: true,
		rule: "distinct (attacks, changes of spelling and TTLs, verdict, records)", real: CORE, stub: DNS },
];

/// Whether what a property is about was built.
pub fn built(id: &str) -> bool {
	match id { "C13" | "C14" => cfg!(feature = "http"), "C16" | "C17" => cfg!(feature = "wasm"), _ => true }
}
pub fn find(id: &str) -> Option<&'static Prop> { ALL.iter().find(|p| p.id == id) }

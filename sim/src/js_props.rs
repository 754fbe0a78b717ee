//! C17: the function a web page calls, under concurrency and failing HTTP requests.

use crate::dns::*;
use crate::hooks;
use crate::js::*;
use crate::judge::*;
use crate::run::*;
use crate::session::*;
use crate::verify_props::*;
use crate::wasm_props::*;
use crate::world::*;
use dnssec_prover::query::ProofBuilder;
use std::cell::RefCell;

thread_local! { static ENGINE: RefCell<Option<Engine>> = RefCell::new(None); }

/// Base64 for URLs, without padding.
fn un_b64url(s: &str) -> Option<Vec<u8>> {
	let mut r = Vec::new();
	let (mut acc, mut n) = (0u32, 0);
	for c in s.bytes() {
		let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'-' => 62, b'_' => 63, _ => return None };
		acc = acc << 6 | v as u32;
		n += 6;
		if n >= 8 { n -= 8; r.push((acc >> n) as u8); acc &= (1 << n) - 1; }
	}
	if acc != 0 || n >= 6 { return None; }
	Some(r)
}

struct Lookup {
	url: String,
	qn: Nm,
	qt: u16,
	/// None if there is nothing to look up: a bad domain or an unsupported type.
	reference: Option<ProofBuilder>,
	steps: Vec<Step>,
	allowed: Vec<(Nm, u16)>,
	unanswered: usize,
	queries: usize,
	failed: bool,
	trouble: bool,
	done: Option<(String, String, String)>,
}

enum Waiting {
	Load,
	Timer,
	Fetch(usize, (Nm, u16)),
	/// What the body of an answer will be.
	Body(usize, Vec<u8>),
}

pub fn c17(ctx: &mut Ctx) -> Res {
	let mut e = match ENGINE.with(|e| e.borrow_mut().take()) {
		Some(e) => e,
		None => match Engine::start("doh_lookup.js") { Ok(e) => e, Err(b) => return broken(b) },
	};
	let r = lookups(ctx, &mut e);
	if r.is_ok() { ENGINE.with(|k| *k.borrow_mut() = Some(e)); }
	r
}
fn broken(b: Broken) -> Res {
	match b {
		Broken::Died => bad("crash", "the JavaScript engine ended".into()),
		Broken::Hung => bad("hang", "the page's code does not come to rest".into()),
		Broken::Panic(p) => bad("panic", p),
		Broken::Odd(o) => bad("simulator", o),
	}
}

fn lookups(ctx: &mut Ctx, e: &mut Engine) -> Res {
	let mut cfg = Cfg::basic();
	cfg.odd_text = ctx.src.chance(1, 2);
	cfg.evil = ctx.src.chance(1, 4);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	cfg.wild_heavy = ctx.src.chance(1, 4);
	cfg.insecure = ctx.src.chance(1, 8);
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let faults = ctx.src.chance(1, 2);
	let style = Style::random(&mut ctx.src);
	let mut count = 1 + ctx.src.below(4).saturating_sub(1) as usize;
	if ctx.src.chance(1, 60) { count = *ctx.src.pick(&[9usize, 20, 40]); ctx.probe("crowded_page"); }
	let mut todo = Vec::new();
	for i in 0..count {
		let (mut qn, mut qt, mut steps) = (Nm::p("nowhere.com."), TXT, Vec::new());
		for _ in 0..4 {
			if let Some(q) = w.pick_query(&mut ctx.src, 0) { if [TXT, A, TLSA, AAAA].contains(&q.1) { (qn, qt, steps) = q; break; } }
		}
		if ctx.src.chance(1, 12) && i > 0 {
			// The same again.
			let l: &(Lookup, String, String) = &todo[0];
			(qn, qt, steps) = (l.0.qn.clone(), l.0.qt, l.0.steps.clone());
			ctx.probe("same_lookup_twice");
		}
		let mut domain = spell(ctx, &qn);
		let mut ty = match qt { TXT => "txt", TLSA => "tlsa", A => "a", _ => "aaaa" }.to_string();
		if ctx.src.chance(1, 3) { ty = ty.to_uppercase(); }
		let mut fine = true;
		match ctx.src.below(24) {
			0 => { ty = ctx.src.pick(&["mx", "", "16", "txt ", "cname", "any", "\"", "constructor"]).to_string(); fine = false; ctx.fault("unsupported_type"); },
			1 => { domain = ctx.src.pick(&["..", "a..b", ".a", "a b", "\"", "é", "a\n", "a\u{0}", "\u{1f600}.com"]).to_string(); fine = false; ctx.fault("bad_domain"); },
			2 => { domain = format!("{}.{}", "y".repeat(64), domain); fine = false; ctx.fault("bad_domain"); },
			_ => {},
		}
		let url = format!("https://doh{}.example/{}", i, ctx.src.pick(&["dns-query", "", "a/b%22c", "x'y"]));
		let mut l = Lookup { url: url.clone(), qn: qn.clone(), qt, reference: None, steps, allowed: Vec::new(), unanswered: 0, queries: 0, failed: false, trouble: false, done: None };
		if fine {
			if let Some(n) = lib_name(&qn) {
				let (b, q) = match guard(|| ProofBuilder::new(&n, qt)) { Ok(b) => b, Err(p) => return bad("panic", p) };
				match parse_query(&q) { Ok(q) => l.allowed.push(q), Err(e) => return bad("query", e) }
				l.reference = Some(b);
			}
		}
		ctx.src.say(|| format!("lookup {}: {:?} {:?} {}", i, domain, ty, url));
		todo.push((l, domain, ty));
	}
	let mut load_fails = false;
	let mut ls: Vec<Lookup> = Vec::new();
	let mut waiting: Vec<(u64, Waiting)> = Vec::new();
	if let Err(b) = e.command("{\"t\":\"page\"}") { return broken(b); }
	// Bodies nobody asked for yet.
	let mut bodies: Vec<(u64, usize, Vec<u8>)> = Vec::new();
	let mut todo = todo.into_iter();
	let mut left = count;
	let mut steps = 0;
	loop {
		steps += 1;
		if steps > 400 * count { return bad("hang", format!("more than {} steps", 400 * count)); }
		ctx.st.events += 1;
		let start = left > 0 && (waiting.is_empty() || ctx.src.chance(1, 3));
		if !start && waiting.is_empty() { break; }
		let cmd = if start {
			left -= 1;
			let (l, domain, ty) = todo.next().unwrap();
			let c = format!("{{\"t\":\"start\",\"n\":{},\"domain\":\"{}\",\"ty\":\"{}\",\"url\":\"{}\"}}", ls.len(), hex(domain.as_bytes()), hex(ty.as_bytes()), hex(l.url.as_bytes()));
			if ls.iter().any(|l| l.done.is_none()) { ctx.probe("overlapping_lookups"); }
			ls.push(l);
			c
		} else {
			let i = ctx.src.idx(waiting.len());
			if i > 0 { ctx.fault("answer_reordered"); }
			let (id, what) = waiting.remove(i);
			ctx.st.sim_ms += 10;
			let fail = |m: &str| format!("{{\"t\":\"wait\",\"id\":{},\"fail\":true,\"d\":\"{}\"}}", id, hex(m.as_bytes()));
			match what {
				Waiting::Timer => format!("{{\"t\":\"wait\",\"id\":{}}}", id),
				Waiting::Load => if faults && ctx.src.chance(1, 20) {
					load_fails = true;
					ctx.fault("module_not_loaded");
					fail("Failed to fetch dynamically imported module")
				} else { format!("{{\"t\":\"wait\",\"id\":{}}}", id) },
				Waiting::Fetch(n, q) => {
					let l = &mut ls[n];
					match if faults { ctx.src.below(12) } else { 0 } {
						1 => {
							l.failed = true;
							ctx.fault("http_request_failed");
							fail(*ctx.src.pick(&["Failed to fetch", "NetworkError when attempting to fetch resource.", "Failed to parse URL from \"https://x\"", "C:\\x", "a\nb", "é"]))
						},
						2 => {
							let s = *ctx.src.pick(&[500u16, 404, 400, 415, 429, 502, 302, 304, 199, 300, 600]);
							l.failed = true;
							ctx.fault("http_status");
							let resp = honest_response(ctx, &w, 0, &style, &q.0, q.1, true);
							bodies.push((id, n, resp));
							format!("{{\"t\":\"wait\",\"id\":{},\"status\":{}}}", id, s)
						},
						k => {
							let mut resp = honest_response(ctx, &w, 0, &style, &q.0, q.1, true);
							if k >= 8 {
								l.trouble = true;
								match ctx.src.below(7) {
									0 => { resp = vec![0; 65535 + ctx.src.below(4) as usize]; ctx.fault("response_too_long"); },
									1 => { let k = ctx.src.idx(resp.len()); resp.truncate(k); ctx.fault("response_truncated"); },
									2 => { let k = ctx.src.idx(resp.len()); resp[k] ^= 1 << ctx.src.below(8); ctx.fault("bit_flipped"); },
									3 => { resp.clear(); ctx.fault("empty_body"); },
									4 => { let q = ctx.src.pick(&[3u8, 2, 5, 9]); resp[3] = resp[3] & 0xf0 | q; ctx.fault("error_code"); },
									5 => { resp[3] &= !0x20; ctx.fault("not_authenticated"); },
									_ => { resp = b"<html><body>It works!</body></html>".to_vec(); ctx.fault("not_dns_at_all"); },
								}
							}
							bodies.push((id, n, resp));
							let s = if ctx.src.chance(1, 8) { *ctx.src.pick(&[201u16, 206, 299]) } else { 200 };
							format!("{{\"t\":\"wait\",\"id\":{},\"status\":{},\"kind\":\"application/dns-message\"}}", id, s)
						},
					}
				},
				Waiting::Body(n, resp) => {
					let l = &mut ls[n];
					if faults && ctx.src.chance(1, 20) {
						l.failed = true;
						ctx.fault("body_broke_off");
						fail("network error")
					} else {
						l.unanswered = l.unanswered.saturating_sub(1);
						if let (true, Some(b)) = (resp.len() <= 65535, &mut l.reference) {
							match guard(|| b.process_response(&qbuf(&resp))) {
								Err(p) => return bad("panic", p),
								Ok(Ok(qs)) => for q in qs { match parse_query(&q) { Ok(q) => l.allowed.push(q), Err(e) => return bad("query", e) } },
								Ok(Err(())) => {},
							}
						}
						format!("{{\"t\":\"wait\",\"id\":{},\"d\":\"{}\"}}", id, hex(&resp))
					}
				},
			}
		};
		let evs = match e.command(&cmd) { Ok(evs) => evs, Err(b) => return broken(b) };
		for ev in evs {
			ctx.src.say(|| format!("{:?}", ev));
			match ev {
				Event::Wait { what, id, of, url, accept, method } => match what.as_str() {
					"load" => waiting.push((id, Waiting::Load)),
					"timer" => waiting.push((id, Waiting::Timer)),
					"body" => match bodies.iter().position(|(b, _, _)| *b == of) {
						Some(i) => { let (_, n, r) = bodies.remove(i); waiting.push((id, Waiting::Body(n, r))); },
						None => return bad("simulator", "a body without a response".into()),
					},
					"fetch" => {
						let n = match ls.iter().position(|l| url.starts_with(&format!("{}?", l.url))) { Some(n) => n, None => return bad("request", format!("a request to {}", url)) };
						let l = &mut ls[n];
						if method != "GET" || !accept.split(',').any(|a| a.trim() == "application/dns-message") { return bad("request", format!("{} accepting {:?}", method, accept)); }
						let q = url[l.url.len()..].strip_prefix("?dns=").and_then(un_b64url);
						let q = match q { Some(q) => q, None => return bad("request", format!("{} holds no query", url)) };
						let q = match parse_query(&q) { Ok(q) => q, Err(e) => return bad("request", format!("malformed query ({}): {}", e, hex(&q))) };
						if let Some((_, _, value)) = &l.done {
							// Others of several queries underway may go on for a bit after one which failed.
							if l.failed && value.contains("\"error\"") { ctx.probe("request_after_failure"); waiting.push((id, Waiting::Fetch(n, q))); continue; }
							return bad("request", "a request for a lookup which has ended".into());
						}
						match l.allowed.iter().position(|a| *a == q) {
							Some(i) => { l.allowed.remove(i); },
							None => return bad("request", format!("{} {} is not needed (again)", q.0.s(), ty_str(q.1))),
						}
						l.unanswered += 1;
						l.queries += 1;
						waiting.push((id, Waiting::Fetch(n, q)));
					},
					o => return bad("simulator", o.into()),
				},
				Event::Done { n, how, kind, value } => {
					let l = &mut ls[n as usize];
					l.done = Some((how, kind, value));
					judge(ctx, &w, l, n as usize, load_fails)?;
				},
				Event::Uncaught(x) => return bad("uncaught", x),
			}
		}
	}
	for (n, l) in ls.iter().enumerate() {
		if l.done.is_none() { return bad("never_settles", format!("lookup {} of {} {} neither succeeds nor fails", n, l.qn.s(), ty_str(l.qt))); }
	}
	let d = ls.iter().map(|l| format!("{} {} {}", l.queries, l.failed, l.done.as_ref().map(|d| d.2.contains("error")).unwrap_or(false))).collect::<Vec<_>>();
	ctx.state(format!("{:?} {:?}", d, ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes());
	Ok(())
}

fn judge(ctx: &mut Ctx, w: &World, l: &mut Lookup, n: usize, load_fails: bool) -> Res {
	let (how, kind, value) = l.done.clone().unwrap();
	ctx.src.note(value.as_bytes());
	if how != "ok" {
		// There is nothing to look anything up with.
		if load_fails && l.queries == 0 { return Ok(()); }
		return bad("rejected", format!("lookup {} {} with {}", n, how, value));
	}
	if kind != "string" { return bad("json", format!("lookup {} ends with {} ({})", n, value, kind)); }
	let j = match parse_json(&value) { Ok(j) => j, Err(e) => return bad("json", format!("the result is not JSON ({}): {}", e, value.chars().take(600).collect::<String>())) };
	let keys: Vec<&str> = match &j { J::Map(m) => m.iter().map(|(k, _)| k.as_str()).collect(), _ => return bad("json", format!("the result is not an object: {}", value)) };
	let short = || value.chars().take(600).collect::<String>();
	let is_error = keys == ["error"] && j.text("error").is_ok();
	if keys.contains(&"error") && !is_error { return bad("json", format!("not just an error: {}", short())); }
	let b = match l.reference.take() {
		Some(b) if !l.failed => b,
		r => {
			if r.is_none() && l.queries > 0 { return bad("request", "requests although there is nothing to look up".into()); }
			if load_fails && is_error { return Ok(()); }
			return if is_error { Ok(()) } else { bad("unexpected", format!("records although {}: {}", if l.failed { "a query failed" } else { "there is nothing to look up" }, short())) };
		},
	};
	if load_fails && is_error && l.queries == 0 { return Ok(()); }
	if !l.allowed.is_empty() || l.unanswered > 0 { return bad("incomplete", format!("lookup {} ended before {} queries were answered: {}", n, l.allowed.len() + l.unanswered, short())); }
	let proof = match guard(|| b.finish_proof()) { Err(p) => return bad("panic", p), Ok(p) => p.ok() };
	let need = needed_queries(w, 0, &l.qn, l.qt).unwrap_or(99);
	let provable = !l.trouble && !l.steps.is_empty() && l.steps.iter().all(|s| w.secure(s.zone)) && need <= 10 && !nsec_trouble(w, 0, &l.qn, l.qt);
	let native = match &proof { Some((p, _)) => verify_bytes(p), None => Verdict::Invalid };
	settle(ctx, &native)?;
	let v = match &native {
		Verdict::Ok(v) => v,
		_ => {
			if !is_error { return bad("forged", format!("verification says {} but the result is {}", show(&native), short())); }
			if provable { return bad("incomplete", format!("no proof of {} {}: {}", l.qn.s(), ty_str(l.qt), value)); }
			return Ok(());
		},
	};
	let got = (|| -> Result<Verified, String> {
		let rrs = match j.get("verified_rrs")? { J::List(l) => l.iter().map(decode).collect::<Result<Vec<_>, _>>()?, v => return Err(format!("{:?} instead of records", v)) };
		Ok(Verified { rrs, from: j.num("valid_from")?, expires: j.num("expires")?, ttl: j.num("max_cache_ttl")? as u32 })
	})();
	let got = match got { Ok(g) => g, Err(e) => return bad("json", format!("{} in {}", e, short())) };
	if got != *v { return bad("differs", format!("JSON says {} but it is {}", show(&Verdict::Ok(got)), show(&native))); }
	for ((n, t), set) in sets(&got.rrs) {
		if let Err(m) = w.authentic(&n, t, &set) { return bad("forged", m); }
	}
	if provable {
		let set = sets(&got.rrs);
		for (n, t, d) in truth(w, 0, &l.steps) {
			if !set.get(&(n.clone(), t)).map(|s| s.contains(&d)).unwrap_or(false) { return bad("incomplete", format!("{} {} is missing from {}", n.s(), ty_str(t), short())); }
		}
		ctx.probe("proved");
	}
	Ok(())
}

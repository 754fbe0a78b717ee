//! Properties of everything which talks to a network, C09 to C18.

use crate::dns::*;
use crate::hooks;
use crate::model::*;
use crate::net::{self, End, Ev, Msg, Plan};
use crate::run::*;
use crate::session::*;
use crate::verify_props::*;
use crate::world::*;
use dnssec_prover::query::*;
use std::cell::Cell;
use std::future::Future;
use std::io::ErrorKind;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type Got = Result<(Vec<u8>, u32), ErrorKind>;

pub fn addr() -> SocketAddr { SocketAddr::from(([127, 0, 0, 1], 53)) }

/// A world cheap enough to be served over a network in every run.
pub fn net_world(ctx: &mut Ctx) -> World {
	let mut cfg = Cfg::basic();
	if ctx.src.chance(1, 8) { cfg.algs = algs(ctx); }
	cfg.wild_heavy = ctx.src.chance(1, 3);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	cfg.insecure = ctx.src.chance(1, 4);
	World::generate(&mut ctx.src, cfg)
}
/// Something to ask for, which may or may not exist.
pub fn question(ctx: &mut Ctx, w: &World) -> (Nm, u16) {
	match w.pick_query(&mut ctx.src, 0) {
		Some((n, t, _)) if !ctx.src.chance(1, 12) => (n, t),
		_ => (w.zones.last().unwrap().name.child("nowhere"), *ctx.src.pick(&[TXT, A, AAAA, TLSA])),
	}
}

/// How a resolver misbehaves on the DNS level.
#[derive(Clone, Copy, Default, Debug)]
pub struct Manners { pub spoil: u32, pub odd: u32, pub extra: u32, pub aged: bool, pub ttls: bool, pub huge: bool, pub bulky: bool }
impl Manners {
	pub fn bad(ctx: &mut Ctx) -> Manners {
		Manners { spoil: *ctx.src.pick(&[0u32, 4, 12, 30]), odd: *ctx.src.pick(&[0u32, 3, 8]), extra: *ctx.src.pick(&[0u32, 0, 8]),
			aged: ctx.src.chance(1, 2), ttls: ctx.src.chance(1, 2), huge: ctx.src.chance(1, 10), bulky: ctx.src.chance(1, 60) }
	}
}
const SIGNERS: &[&str] = &[".", "com.", "a.com.", "b.com.", "x.a.com.", "org.", "ab.", "a-b.c.d.e.f.", "zz.zz.", "com.com.", "n.", "o.", "p.", "q.n."];
fn odd_sig(ctx: &mut Ctx, owner: &Nm) -> Rec {
	let mut signer = Nm::p(ctx.src.pick::<&str>(SIGNERS));
	if ctx.src.chance(1, 10) { signer = Nm((0..120).map(|i| vec![b'a' + (i % 26) as u8]).collect()); }
	if ctx.src.chance(1, 10) { while signer.wire_len() + 61 <= 255 { signer = signer.child(&"l".repeat(60)); } }
	let ty = *ctx.src.pick(&[TXT, A, DNSKEY, DS, NSEC, NSEC3, CNAME, 0, 65280]);
	let len = *ctx.src.pick(&[64usize, 0, 1, 256, 3000]);
	let s = Sig { ty, alg: ctx.src.below(20) as u8, labels: ctx.src.below(5) as u8, ottl: ctx.src.u32(), exp: 9, inc: 3, tag: 4, signer, sig: ctx.src.bytes(len) };
	Rec { owner: owner.clone(), ty: RRSIG, ttl: odd_ttl(ctx), rdata: s.rdata() }
}
fn odd_ttl(ctx: &mut Ctx) -> u32 { match ctx.src.below(8) { 0 => 0, 1 => 1, 2 => u32::MAX, 3 => 0x7fff_ffff, 4 => 0x8000_0000, _ => ctx.src.below(100_000) } }
fn odd_types(ctx: &mut Ctx) -> Vec<u8> {
	let k = ctx.src.below(5);
	let mut t: Vec<u16> = (0..k).map(|_| *ctx.src.pick(&[A, TXT, 0, 7, 8, 127, 128, 255, 256, 511, 1016, 1024, 1279, 65280, 65281, 65534, 65535])).collect();
	if ctx.src.chance(1, 2) { t.push(ctx.src.below(65536) as u16); }
	t.sort();
	t.dedup();
	bitmap(&t)
}
/// Many small records, or as much as fits into a message.
fn bulky_message(ctx: &mut Ctx, st: &Style, n: &Nm, t: u16, crowd: bool) -> Msg {
	ctx.fault(if crowd { "odd_response_crowd" } else { "odd_response_bulky" });
	let k = if crowd { ctx.src.range(200, 1400) } else { ctx.src.range(60, 250) };
	let ttl = odd_ttl(ctx);
	let mut a: Vec<Rec> = (0..k).map(|i| Rec { owner: n.clone(), ty: if crowd { A } else { TXT }, ttl, rdata: if crowd { vec![10, 9, (i >> 8) as u8, i as u8] } else { txt_simple(&vec![b'a' + (i % 26) as u8; 240 + i as usize / 26]) } }).collect();
	let mut b = Vec::new();
	let sigs = ctx.src.below(3);
	for _ in 0..sigs { let r = odd_sig(ctx, n); a.insert(0, r); }
	if ctx.src.chance(1, 3) { let r = odd_sig(ctx, n); b.push(r); }
	loop {
		let m = message(st, n, t, &a, &b);
		if m.bytes.len() <= 65535 { return m; }
		a.truncate(a.len() * 7 / 8);
	}
}
/// A message with whatever records the simulator felt like.
pub fn odd_message(ctx: &mut Ctx, st: &Style, n: &Nm, t: u16) -> Msg {
	ctx.fault("odd_response");
	let mut a = Vec::new();
	let mut b = Vec::new();
	// Now and then so much that names are written as pointers to far away.
	let shape = ctx.src.below(48);
	let long = shape == 47 || shape == 46;
	if long { ctx.fault("odd_response_long"); }
	if shape == 45 || shape == 44 {
		return bulky_message(ctx, st, n, t, shape == 45);
	}
	let k = if long { ctx.src.range(40, 70) } else { ctx.src.range(1, 6) };
	for i in 0..k {
		let owner = if long && i >= k / 3 { Nm::p("far.example.").child(&format!("o{}", if ctx.src.chance(1, 3) { ctx.src.below(i) } else { i })) } else if ctx.src.chance(1, 2) { n.clone() } else { Nm::p(ctx.src.pick::<&str>(SIGNERS)).child("x") };
		let r = if !long && ctx.src.chance(1, 2) { odd_sig(ctx, &owner) } else {
			let ty = *ctx.src.pick(&[TXT, A, AAAA, NS, CNAME, DNAME, TLSA, NSEC, NSEC3, DS, DNSKEY]);
			let rdata = match ty {
				TXT => { let l = if long { ctx.src.range(100, 900) } else { ctx.src.below(600) } as usize; txt_simple(&ctx.src.bytes(l)) },
				A => vec![1, 2, 3, 4],
				AAAA => vec![7; 16],
				NS | CNAME | DNAME => Nm::p(ctx.src.pick::<&str>(SIGNERS)).wire(),
				NSEC => { let mut d = Nm::p("b.com.").wire(); d.extend(odd_types(ctx)); d },
				NSEC3 => { let (s, h) = (*ctx.src.pick(&[0usize, 1, 2, 8, 127, 128, 129, 254, 255]), *ctx.src.pick(&[20usize, 20, 20, 0, 1, 32, 129, 255]));
					let mut d = vec![ctx.src.below(3) as u8, *ctx.src.pick(&[0u8, 1, 1, 2, 0x80, 0xff]), ctx.src.below(256) as u8, ctx.src.below(256) as u8, s as u8];
					d.extend(ctx.src.bytes(s));
					d.push(h as u8);
					d.extend(ctx.src.bytes(h));
					d.extend(odd_types(ctx));
					d
				},
				DNSKEY => { let l = *ctx.src.pick(&[32usize, 4, 2000]); dnskey_rdata(257, 3, 15, &vec![3; l]) },
				_ => { let mut d = vec![1, 2, 3, 4]; let l = *ctx.src.pick(&[20usize, 0, 32, 48, 64, 300, 3000]); d.extend(ctx.src.bytes(l)); d },
			};
			Rec { owner, ty, ttl: odd_ttl(ctx), rdata }
		};
		if i == 0 || ctx.src.chance(2, 3) { a.push(r); } else { b.push(r); }
	}
	if ctx.src.chance(1, 8) && !a.is_empty() { let r = a[0].clone(); a.push(r); ctx.fault("record_repeated"); }
	message(st, n, t, &a, &b)
}
/// The same with time to live in the upper half of what fits.
fn raise_ttls(ctx: &mut Ctx, w: &World, st: &Style, n: &Nm, t: u16, r: Msg) -> Msg {
	if n.0.len() > 20 { return r; }
	match w.answer(0, n, t) {
		Some((a, b, _)) => {
			let (mut a, mut b) = layout(&mut ctx.src, st, n, &a, &b, false);
			for r in a.iter_mut().chain(b.iter_mut()) { r.ttl = 0x8000_0000 + ctx.src.below(1 << 30); }
			ctx.fault("ttls_huge");
			message(st, n, t, &a, &b)
		},
		None => r,
	}
}
fn reply(ctx: &mut Ctx, w: &World, st: &Style, m: Manners, n: &Nm, t: u16) -> Vec<Msg> {
	let mut r = if m.bulky && ctx.src.chance(1, 2) { bulky_message(ctx, st, n, t, false) } else if m.odd > 0 && ctx.src.chance(1, m.odd) { odd_message(ctx, st, n, t) } else if m.ttls && n.0.len() <= 20 && ctx.src.chance(1, 2) {
		match w.answer(0, n, t) {
			Some((a, b, _)) => {
				let (mut a, mut b) = layout(&mut ctx.src, st, n, &a, &b, false);
				for r in a.iter_mut().chain(b.iter_mut()) { if ctx.src.chance(1, 3) { r.ttl = odd_ttl(ctx); } }
				ctx.fault("ttls_rewritten");
				message(st, n, t, &a, &b)
			},
			None => honest(ctx, w, 0, st, n, t, false),
		}
	} else { honest(ctx, w, 0, st, n, t, m.aged) };
	if m.huge { r = raise_ttls(ctx, w, st, n, t, r); }
	if m.spoil > 0 && ctx.src.chance(1, m.spoil) && r.kept.is_some() { spoil(ctx, &mut r); }
	let mut v = vec![r];
	if m.extra > 0 && ctx.src.chance(1, m.extra) {
		match ctx.src.below(4) {
			0 => { let r = v[0].clone(); v.push(r); ctx.fault("response_duplicated"); },
			1 => { v.clear(); ctx.fault("response_lost"); },
			2 => { let r = odd_message(ctx, st, n, t); v.push(r); ctx.fault("response_unsolicited"); },
			_ => { v.push(Msg { bytes: Vec::new(), kept: None }); ctx.fault("empty_frame"); },
		}
	}
	v
}

// ---- the builder on its own ----

fn expect_new(got: &[Vec<u8>], mut want: Vec<(Nm, u16)>, total: &mut usize, asked: &mut Vec<(Nm, u16)>) -> Res {
	let mut g = Vec::new();
	for q in got {
		match parse_query(q) { Ok(q) => g.push(q), Err(e) => return bad("query", format!("malformed query ({}): {}", e, hex(q))) }
	}
	*total += g.len();
	asked.extend(g.iter().cloned());
	if *total > LIMIT { return bad("limit", format!("{} queries, which is more than {}", total, LIMIT)); }
	g.sort();
	want.sort();
	let s = |l: &[(Nm, u16)]| l.iter().map(|(n, t)| format!("{} {}", n.s(), ty_str(*t))).collect::<Vec<_>>().join(", ");
	if g != want { return bad("query", format!("asked for [{}] instead of [{}]", s(&g), s(&want))); }
	Ok(())
}
fn any_name(ctx: &mut Ctx, w: &World) -> (Nm, u16) {
	let (n, t) = question(ctx, w);
	match ctx.src.below(10) {
		0 => (Nm::root(), *ctx.src.pick(&[NS, DNSKEY, TXT])),
		1 => (w.zones[ctx.src.idx(w.zones.len())].name.clone(), *ctx.src.pick(&[DNSKEY, DS])),
		2 => (Nm((0..127).map(|i| vec![b'a' + (i % 3) as u8]).collect()), t),
		3 => { let mut n = n; while n.wire_len() + 64 <= 255 { n = n.child(&"l".repeat(63)); } (n, ctx.src.below(65536) as u16) },
		_ => (n, t),
	}
}
/// C09 and C18: what the builder asks for, and what it makes of the answers.
pub fn builder_session(ctx: &mut Ctx, check: &str) -> Res {
	let w = net_world(ctx);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let (qn, qt) = any_name(ctx, &w);
	let name = match lib_name(&qn) { Some(n) => n, None => return Ok(()) };
	let st = Style::random(&mut ctx.src);
	let m = if ctx.src.chance(1, 3) { Manners { aged: ctx.src.chance(1, 2), ..Default::default() } } else { Manners::bad(ctx) };
	ctx.src.say(|| format!("asking for {} {} {:?} {:?}", qn.s(), ty_str(qt), st, m));
	let (mut b, q) = match guard(|| ProofBuilder::new(&name, qt)) { Ok(x) => x, Err(p) => return bad("panic", p) };
	let mut model = Model::new(&qn, qt);
	let (mut total, mut asked) = (0, Vec::new());
	expect_new(&[q.to_vec()], vec![(qn.clone(), qt)], &mut total, &mut asked)?;
	let mut outstanding = vec![(qn.clone(), qt)];
	let mut refused = 0;
	let mut steps = 0;
	let mut shape = String::new();
	loop {
		steps += 1;
		let a = b.awaiting_responses();
		if a != model.awaiting() {
			return bad("state", format!("after {} queries and with {} answers missing the builder {}", asked.len(), model.pending, if a { "waits for more" } else { "is done" }));
		}
		if !a || steps > 60 { break; }
		if outstanding.is_empty() {
			// Answers went missing: ask again, as a client on a lossy transport would.
			let again = asked[ctx.src.idx(asked.len())].clone();
			outstanding.push(again);
			ctx.fault("query_repeated_by_client");
		}
		let i = ctx.src.idx(outstanding.len());
		if i > 0 { ctx.fault("response_reordered"); }
		let (n, t) = outstanding.remove(i);
		for r in reply(ctx, &w, &st, m, &n, t) {
			if r.bytes.len() > 65535 { continue; }
			if !model.awaiting() { break; }
			ctx.st.events += 1;
			ctx.src.say(|| format!("{} {} -> {} bytes, {} {}", n.s(), ty_str(t), r.bytes.len(), match &r.kept { Some(k) => format!("{} records", k.len()), None => "must be refused".into() }, hex(&r.bytes[..r.bytes.len().min(120)])));
			let q = if check == "C18" && ctx.src.chance(1, 3) { qbuf_parts(ctx, &r.bytes)? } else { qbuf(&r.bytes) };
			let res = match guard(|| b.process_response(&q)) { Ok(x) => x, Err(p) => return bad("panic", p) };
			match (res, &r.kept) {
				(Ok(qs), Some(k)) => {
					let want = model.feed(k);
					shape.push_str(&format!("{}+{} ", k.len().min(9), want.len()));
					let qs: Vec<Vec<u8>> = qs.into_iter().map(|q| q.into_vec()).collect();
					outstanding.extend(want.iter().cloned());
					expect_new(&qs, want, &mut total, &mut asked)?;
				},
				(Err(()), None) => { refused += 1; shape.push_str("x "); if ctx.src.chance(2, 3) { outstanding.push((n.clone(), t)); } },
				(Ok(_), None) => return bad("accepted", format!("a message which had to be refused was accepted: {}", hex(&r.bytes[..r.bytes.len().min(80)]))),
				(Err(()), Some(_)) => return bad("refused", format!("a proper response to {} {} was refused", n.s(), ty_str(t))),
			}
		}
	}
	ctx.state(format!("{} {} {} {}", shape, refused.min(3), model.over(), ty_str(qt)).as_bytes());
	if model.over() { ctx.probe("over_query_limit"); }
	// Once it is done nothing more is accepted, and that does not matter.
	if ctx.src.chance(1, 3) && model.pending == 0 {
		let r = honest(ctx, &w, 0, &st, &qn, qt, false);
		ctx.fault("response_after_the_end");
		match guard(|| b.process_response(&qbuf(&r.bytes))) {
			Err(p) => return bad("panic", p),
			Ok(Ok(_)) => return bad("accepted", "a response was accepted although none was expected any more".into()),
			Ok(Err(())) => {},
		}
	}
	let got = match guard(|| b.finish_proof()) { Ok(g) => g, Err(p) => return bad("panic", p) };
	match (got, model.finish()) {
		(Ok(_), None) => bad("state", format!("a proof came out with {} answers missing and {} queries made", model.pending, model.asked.len())),
		(Err(()), Some(_)) => bad("state", "no proof came out although every question was answered".into()),
		(Err(()), None) => { ctx.probe("no_proof"); Ok(()) },
		(Ok((p, ttl)), Some((want, wttl))) => {
			ctx.probe("proof_built");
			ctx.src.note(&p);
			if check == "C18" { if let Err(e) = same_proof(&p, &want) { return bad("content", e); } }
			if check == "C15" && ttl != wttl { return bad("ttl", format!("the proof may be cached for {} s but a record in it only for {}", ttl, wttl)); }
			Ok(())
		},
	}
}
pub fn c09(ctx: &mut Ctx) -> Res { builder_session(ctx, "C09") }
/// C18: the proof is exactly what the resolver answered.
pub fn c18(ctx: &mut Ctx) -> Res {
	match builder_session(ctx, "C18") {
		// What is asked for and accepted is C09's and C10's business.
		Err(v) if ["query", "limit", "state", "accepted", "refused"].contains(&v.class) => { ctx.probe("left_to_other_checks"); Ok(()) },
		r => r,
	}
}

/// C10: a refused response changes nothing.
pub fn c10(ctx: &mut Ctx) -> Res {
	let w = net_world(ctx);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let (qn, qt) = question(ctx, &w);
	let name = match lib_name(&qn) { Some(n) => n, None => return Ok(()) };
	let st = Style::random(&mut ctx.src);
	let m = Manners { spoil: 0, ..Manners::bad(ctx) };
	// Two builders see the same good responses, one of them some bad ones as well.
	let (mut a, q) = match guard(|| ProofBuilder::new(&name, qt)) { Ok(x) => x, Err(p) => return bad("panic", p) };
	let (mut b, _) = match guard(|| ProofBuilder::new(&name, qt)) { Ok(x) => x, Err(p) => return bad("panic", p) };
	let mut outstanding: Vec<Vec<u8>> = vec![q.to_vec()];
	let mut steps = 0;
	let mut shape = String::new();
	let mut refused = 0;
	loop {
		steps += 1;
		if a.awaiting_responses() != b.awaiting_responses() { return bad("state", format!("after {} refused responses the builder no longer waits", refused)); }
		if !a.awaiting_responses() || outstanding.is_empty() || steps > 40 { break; }
		let q = outstanding.remove(ctx.src.idx(outstanding.len()));
		let (n, t) = match parse_query(&q) { Ok(q) => q, Err(_) => return Ok(()) };
		let good = match reply(ctx, &w, &st, m, &n, t).into_iter().find(|m| m.kept.is_some()) { Some(m) => m, None => continue };
		if good.bytes.len() > 65535 { continue; }
		let k = ctx.src.below(4);
		for _ in 0..k {
			let (bad_one, must) = match ctx.src.below(4) {
				0 | 1 => { let mut s = good.clone(); spoil(ctx, &mut s); (s.bytes, true) },
				2 => {
					// The last record does not parse.
					let mut x = good.bytes.clone();
					let end = used_length(&x).unwrap_or(x.len()).min(x.len());
					let i = end.saturating_sub(1 + ctx.src.idx(40));
					if i >= 12 { x[i] ^= 1 << ctx.src.below(8); }
					ctx.fault("bit_flipped");
					(x, false)
				},
				_ => {
					// Something unknown is in it, after good records.
					let x = Rec { owner: n.clone(), ty: *ctx.src.pick(&[6u16, 33, 0, 65535, 41]), ttl: 0, rdata: vec![0; 7] };
					let mut ans: Vec<Rec> = good.kept.clone().unwrap_or_default();
					for r in ans.iter_mut() { r.ttl = 0; }
					ans.push(x);
					ctx.fault("unknown_record");
					(render_recs(&st, &n, t, &ans, &[]), false)
				},
			};
			if bad_one.len() > 65535 { continue; }
			// A builder which accepts it is of no further use here, so try it on one which has seen
			// the same so far.
			ctx.st.events += 1;
			match guard(|| a.process_response(&qbuf(&bad_one))) {
				Err(p) => return bad("panic", p),
				Ok(Err(())) => { refused += 1; shape.push('x'); },
				Ok(Ok(_)) if must => return bad("accepted", format!("a message which had to be refused was accepted: {}", hex(&bad_one[..bad_one.len().min(80)]))),
				Ok(Ok(qs)) => {
					// It was fine after all: the other one gets it as well.
					ctx.probe("corruption_harmless");
					let other = match guard(|| b.process_response(&qbuf(&bad_one))) { Ok(x) => x, Err(p) => return bad("panic", p) };
					let other = other.map(|q| q.into_iter().map(|q| q.into_vec()).collect::<Vec<_>>());
					let qs: Vec<Vec<u8>> = qs.into_iter().map(|q| q.into_vec()).collect();
					if other.as_ref().ok() != Some(&qs) { return bad("state", "after refused responses the builder asks for something else".into()); }
					outstanding.extend(qs);
					if !a.awaiting_responses() { break; }
				},
			}
		}
		if a.awaiting_responses() != b.awaiting_responses() { return bad("state", format!("after {} refused responses the builder no longer waits", refused)); }
		if !b.awaiting_responses() { break; }
		let ra = match guard(|| a.process_response(&qbuf(&good.bytes))) { Ok(x) => x, Err(p) => return bad("panic", p) };
		let rb = match guard(|| b.process_response(&qbuf(&good.bytes))) { Ok(x) => x, Err(p) => return bad("panic", p) };
		let v = |r: Result<Vec<QueryBuf>, ()>| r.map(|q| q.into_iter().map(|q| q.into_vec()).collect::<Vec<_>>());
		let (ra, rb) = (v(ra), v(rb));
		if ra != rb { return bad("state", format!("after {} refused responses a good one leads to {:?} queries instead of {:?}", refused, ra.map(|r| r.len()), rb.map(|r| r.len()))); }
		shape.push('o');
		outstanding.extend(rb.unwrap_or_default());
	}
	ctx.state(format!("{} {}", shape, ty_str(qt)).as_bytes());
	if refused > 0 { ctx.probe("something_refused"); }
	let (fa, fb) = match guard(|| (a.finish_proof(), b.finish_proof())) { Ok(x) => x, Err(p) => return bad("panic", p) };
	match (&fa, &fb) {
		(Ok((pa, ta)), Ok((pb, tb))) => {
			ctx.probe("proof_built");
			if pa != pb { return bad("state", format!("{} refused responses changed the proof from {} to {} bytes", refused, pb.len(), pa.len())); }
			if ta != tb { return bad("state", format!("{} refused responses changed the TTL from {} to {}", refused, tb, ta)); }
			Ok(())
		},
		(Err(()), Err(())) => Ok(()),
		_ => bad("state", format!("{} refused responses decided whether there is a proof", refused)),
	}
}

// ---- over connections ----

pub fn faulty_plan(ctx: &mut Ctx, guess: u32) -> Plan {
	let mut p = Plan::calm(ctx);
	let near = |ctx: &mut Ctx| match ctx.src.below(4) { 0 => ctx.src.below(8) as usize, 1 => ctx.src.below(60) as usize, _ => ctx.src.below(guess) as usize };
	match ctx.src.below(9) {
		0 => p.refuse = Some(*ctx.src.pick(&[ErrorKind::ConnectionRefused, ErrorKind::TimedOut, ErrorKind::Other])),
		1 | 2 => p.cut = Some((near(ctx), End::Eof)),
		3 => p.cut = Some((near(ctx), End::Err(ErrorKind::ConnectionReset))),
		4 | 5 => { let at = match ctx.src.below(3) { 0 => ctx.src.below(4), 1 => ctx.src.below(50), _ => ctx.src.below(400) }; p.wfail = Some((at as usize, *ctx.src.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset]))) },
		6 => p.silent = Some(near(ctx)),
		_ => {},
	}
	if ctx.src.chance(1, 2) { p.eintr = *ctx.src.pick(&[2u32, 5, 20]); }
	if ctx.src.chance(1, 2) { p.spurious = *ctx.src.pick(&[2u32, 5]); }
	p
}

/// Checks what happened on one connection to a resolver. `got` is what the caller was told, if it
/// was told anything.
pub fn judge_conn(n: &net::Net, c: usize, qn: &Nm, qt: u16, got: Option<&Got>) -> Res {
	let conn = &n.conns[c];
	if let Some(e) = &conn.bad_query { return bad("framing", format!("the resolver got a malformed query ({})", e)); }
	if conn.used_after_close || conn.closed_twice { return bad("framing", "the connection was used after it was closed".into()); }
	let w = walk(qn, qt, &conn.frames);
	// Everything asked must have been called for, and nothing twice.
	let mut allowed = w.model.asked.clone();
	for q in &conn.queries {
		match allowed.iter().position(|a| a == q) {
			Some(i) => { allowed.remove(i); },
			None => return bad("framing", format!("the resolver was asked for {} {}, which nothing called for", q.0.s(), ty_str(q.1))),
		}
	}
	if let Some(q) = conn.queries.first() { if *q != (qn.clone(), qt) { return bad("framing", format!("the first query was for {} {}", q.0.s(), ty_str(q.1))); } }
	let got = match got { Some(g) => g, None => return Ok(()) };
	if !conn.closed { return bad("leak", "the connection was left open".into()); }
	let p = &conn.plan;
	match (w.result(), got) {
		(None, Ok((proof, _))) => bad("result", format!("a proof of {} bytes came out although {}", proof.len(),
			if w.refused { "a response had to be refused" } else if w.starved { "responses are missing" } else { "too many queries would be required" })),
		(Some((want, ttl)), Ok((proof, t))) => {
			if let Err(e) = same_proof(proof, &want) { return bad("result", e); }
			if *t != ttl { return bad("ttl", format!("the TTL is {} instead of {}", t, ttl)); }
			if conn.tx.len() != w.query_bytes { return bad("framing", format!("{} bytes were written instead of {}", conn.tx.len(), w.query_bytes)); }
			let short = p.cut.map(|(k, _)| k < w.used_bytes).unwrap_or(false) || p.silent.map(|k| k < w.used_bytes).unwrap_or(false);
			if short { return bad("result", "a proof came out before all of the responses arrived".into()); }
			Ok(())
		},
		(Some(_), Err(k)) => {
			let excuse = p.refuse.is_some() || p.cut.map(|(k, e)| k < w.used_bytes || e != End::Eof).unwrap_or(false)
				|| p.silent.map(|k| k < w.used_bytes).unwrap_or(false) || p.wfail.map(|(k, _)| k < w.query_bytes).unwrap_or(false);
			if excuse { Ok(()) } else { bad("result", format!("failed with {:?} although all {} responses arrived intact", k, w.used)) }
		},
		(None, Err(k)) => {
			let excuse = p.refuse.is_some() || p.cut.is_some() || p.silent.is_some() || p.wfail.is_some();
			if w.refused || w.model.over() || excuse { return Ok(()); }
			// The resolver has nothing left to answer, but everything it was asked was answered.
			let unanswered = w.model.asked.len() > conn.queries.len();
			if unanswered { return bad("result", format!("gave up with {:?} instead of asking for everything needed ({} of {} queries, {} bytes of a further one)", k, conn.queries.len(), w.model.asked.len(), n.unparsed(c))); }
			Ok(())
		},
	}
}

fn blocking(qn: &Nm, qt: u16) -> Option<Result<Got, String>> {
	let name = lib_name(qn)?;
	let a = addr();
	Some(guard(|| match qt {
		TXT => build_txt_proof(a, &name),
		A => build_a_proof(a, &name),
		AAAA => build_aaaa_proof(a, &name),
		_ => build_tlsa_proof(a, &name),
	}.map_err(|e| e.kind())))
}
pub fn kind_of(g: &Got) -> String { match g { Ok(_) => "proof".into(), Err(k) => format!("{:?}", k) } }
pub fn basic_type(t: u16) -> u16 { if [TXT, A, AAAA, TLSA].contains(&t) { t } else { TXT } }

pub fn responder(w: &Rc<World>, ctx: &mut Ctx, m: Rc<Cell<Manners>>) -> net::Responder {
	let (w, st) = (w.clone(), Style::random(&mut ctx.src));
	Box::new(move |ctx, n, t| reply(ctx, &w, &st, m.get(), n, t))
}

/// C11: the blocking client.
pub fn c11(ctx: &mut Ctx) -> Res { blocking_session(ctx, None) }
pub fn blocking_session(ctx: &mut Ctx, manners: Option<Manners>) -> Res {
	let w = Rc::new(net_world(ctx));
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let trouble = ctx.src.below(4);
	let manners = match manners { Some(m) => m, None if trouble & 1 == 1 => Manners::bad(ctx), None => Manners { aged: ctx.src.chance(1, 2), ..Default::default() } };
	let sessions = ctx.src.range(1, 2);
	let r = responder(&w, ctx, Rc::new(Cell::new(manners)));
	net::enter(ctx);
	net::with(|n, _| {
		n.responder = Some(r);
		n.planner = Some(Box::new(move |ctx: &mut Ctx| {
			let mut p = if trouble >= 2 { faulty_plan(ctx, 4000) } else { Plan::calm(ctx) };
			if ctx.src.chance(1, 2) { p.eintr = *ctx.src.pick(&[2u32, 5, 20]); }
			p
		}));
	});
	for _ in 0..sessions {
		let (qn, qt) = net::with_ctx(|ctx| { let (n, t) = question(ctx, &w); (n, basic_type(t)) });
		net::with_ctx(|ctx| ctx.src.say(|| format!("asking for {} {}", qn.s(), ty_str(qt))));
		let before = net::with(|n, _| n.conns.len());
		let got = match blocking(&qn, qt) { Some(Ok(g)) => g, Some(Err(p)) => return bad("panic", p), None => continue };
		net::with(|n, ctx| {
			ctx.src.say(|| format!("=> {} {:?}", kind_of(&got), n.conns.last().map(|c| c.plan.clone())));
			if n.spun { return bad("stuck", "the client keeps reading or writing without getting anywhere".into()); }
			if n.conns.len() != before + 1 { return bad("framing", format!("{} connections were opened", n.conns.len() - before)); }
			let c = before;
			let calm = !n.conns[c].plan.is_faulty();
			ctx.src.note(&n.conns[c].tx);
			ctx.src.note(kind_of(&got).as_bytes());
			ctx.state(format!("{} {} {:?} {}", kind_of(&got), n.conns[c].frames.len(), n.conns[c].plan.seg, ctx.st.faults.keys().cloned().collect::<Vec<_>>().join(",")).as_bytes());
			ctx.probe(match (&got, calm) { (Ok(_), _) => "proof_built", (Err(_), true) => "failed_without_faults", _ => "failed" });
			if n.stalled.contains(&c) {
				let wk = walk(&qn, qt, &n.conns[c].frames);
				let lost = ctx.st.faults.contains_key("response_lost");
				let p = &n.conns[c].plan;
				let undelivered = p.cut.map(|(k, _)| k < wk.used_bytes).unwrap_or(false) || p.silent.map(|k| k < wk.used_bytes).unwrap_or(false);
				if !undelivered && (wk.refused || wk.model.over()) { return bad("stuck", "the client waits for another response although it can no longer succeed".into()); }
				if wk.result().is_some() { return bad("stuck", "the client waits for another response although it has all it asked for".into()); }
				if !lost && n.unparsed(c) > 0 { return bad("stuck", format!("the client waits for a response after writing {} bytes of a query", n.unparsed(c))); }
				if !lost && !wk.refused && !wk.model.over() && n.conns[c].queries.len() < wk.model.asked.len() { return bad("stuck", "the client waits without having asked for everything".into()); }
			}
			judge_conn(n, c, &qn, qt, Some(&got))
		})?;
	}
	Ok(())
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, SeqCst); }
	fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, SeqCst); }
}
struct Task { fut: Option<Pin<Box<dyn Future<Output = Got>>>>, flag: Arc<Flag>, qn: Nm, qt: u16, got: Option<Got>, conns: Vec<usize>, cancelled: bool, polls: u64 }

fn asynchronous(qn: &Nm, qt: u16) -> Option<Pin<Box<dyn Future<Output = Got>>>> {
	let name = lib_name(qn)?;
	let a = addr();
	Some(Box::pin(async move {
		match qt {
			TXT => build_txt_proof_async(a, &name).await,
			A => build_a_proof_async(a, &name).await,
			AAAA => build_aaaa_proof_async(a, &name).await,
			_ => build_tlsa_proof_async(a, &name).await,
		}.map_err(|e| e.kind())
	}))
}

/// C12: the asynchronous client, several at once, some of them cancelled.
pub fn c12(ctx: &mut Ctx) -> Res { async_session(ctx, None) }
pub fn async_session(ctx: &mut Ctx, manners: Option<Manners>) -> Res {
	let w = Rc::new(net_world(ctx));
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let trouble = ctx.src.below(4);
	let manners = match manners { Some(m) => m, None if trouble & 1 == 1 => Manners::bad(ctx), None => Manners { aged: ctx.src.chance(1, 2), ..Default::default() } };
	let cancels = ctx.src.chance(1, 3);
	// Whatever cancelled clients leave behind may only matter once there were many of them.
	let crowd = ctx.src.chance(1, 150);
	let count = if crowd { ctx.fault("crowd"); *ctx.src.pick(&[140usize, 140, 300]) } else { ctx.src.range(1, 4) as usize };
	let trouble = if crowd { trouble & 1 } else { trouble };
	let r = responder(&w, ctx, Rc::new(Cell::new(manners)));
	net::enter(ctx);
	net::with(|n, _| {
		n.responder = Some(r);
		n.planner = Some(Box::new(move |ctx: &mut Ctx| if trouble >= 2 { faulty_plan(ctx, 4000) } else { Plan::calm(ctx) }));
	});
	let mut tasks: Vec<Task> = Vec::new();
	for i in 0..count {
		let (qn, qt) = net::with_ctx(|ctx| { let (n, t) = question(ctx, &w); (n, basic_type(t)) });
		let fut = match asynchronous(&qn, qt) { Some(f) => f, None => continue };
		net::with(|n, ctx| if crowd && i + 5 < count || cancels && ctx.src.chance(1, 2) { let m = *ctx.src.pick(&[3u32, 50, 2000, 30000]); let d = ctx.src.below(m) as u64; n.at(d, Ev::Other(i)); });
		tasks.push(Task { fut: Some(fut), flag: Arc::new(Flag(AtomicBool::new(true))), qn, qt, got: None, conns: Vec::new(), cancelled: false, polls: 0 });
	}
	let mut order = String::new();
	loop {
		let ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].fut.is_some() && tasks[*i].flag.0.load(SeqCst)).collect();
		let idle = net::with(|n, _| n.idle());
		if !ready.is_empty() && (idle || net::with_ctx(|c| c.src.chance(2, 3))) {
			let i = ready[net::with_ctx(|c| c.src.idx(ready.len()))];
			let t = &mut tasks[i];
			t.flag.0.store(false, SeqCst);
			t.polls += 1;
			if t.polls > 400_000 { return bad("stuck", "a task keeps being polled without getting anywhere".into()); }
			let before = net::with(|n, _| n.conns.len());
			let waker = Waker::from(t.flag.clone());
			let mut fut = t.fut.take().unwrap();
			let res = guard(|| fut.as_mut().poll(&mut Context::from_waker(&waker)));
			net::with(|n, _| for c in before..n.conns.len() { t.conns.push(c); });
			match res {
				Err(p) => return bad("panic", p),
				Ok(Poll::Pending) => t.fut = Some(fut),
				Ok(Poll::Ready(g)) => {
					drop(fut);
					net::with_ctx(|ctx| { ctx.src.say(|| format!("task {} => {}", i, kind_of(&g))); });
					t.got = Some(g);
					if order.len() < 40 { order.push_str(&format!("{}! ", i)); }
				},
			}
			continue;
		}
		match net::with(|n, ctx| n.step(ctx)) {
			None => if ready.is_empty() { break },
			Some(Some(i)) => if let Some(t) = tasks.get_mut(i) {
				if let Some(f) = t.fut.take() {
					net::with_ctx(|ctx| ctx.fault("cancelled"));
					t.cancelled = true;
					order.push_str(&format!("{}c ", i));
					if let Err(p) = guard(|| drop(f)) { return bad("panic", p); }
				}
			},
			Some(None) => {},
		}
	}
	net::with(|n, ctx| {
		if n.spun { return bad("stuck", "a task keeps reading or writing without getting anywhere".into()); }
		let mut shape = Vec::new();
		for (i, t) in tasks.iter().enumerate() {
			for c in &t.conns { ctx.src.note(&n.conns[*c].tx); }
			if t.conns.len() > 1 { return bad("framing", format!("task {} opened {} connections", i, t.conns.len())); }
			let c = match t.conns.first() { Some(c) => *c, None if t.cancelled => continue, None => return bad("stuck", format!("task {} never connected", i)) };
			shape.push(format!("{}{}", t.got.as_ref().map(kind_of).unwrap_or(if t.cancelled { "cancelled".into() } else { "waiting".into() }), n.conns[c].frames.len()));
			if let Some(g) = &t.got { ctx.src.note(kind_of(g).as_bytes()); ctx.probe(if g.is_ok() { "proof_built" } else { "failed" }); }
			if t.cancelled && !n.conns[c].closed { return bad("leak", format!("task {} was cancelled but left its connection open", i)); }
			judge_conn(n, c, &t.qn, t.qt, t.got.as_ref())?;
			if t.got.is_none() && !t.cancelled {
				// It waits for ever, which is fine if the resolver went silent on it.
				let conn = &n.conns[c];
				let wk = walk(&t.qn, t.qt, &conn.frames);
				let silent = conn.plan.silent.map(|k| k < wk.used_bytes || wk.starved).unwrap_or(false);
				let lost = ctx.st.faults.contains_key("response_lost") && wk.starved;
				if !silent && !lost { return bad("stuck", format!("task {} waits for ever after {} responses", i, conn.frames.len())); }
				ctx.probe("left_waiting");
			}
		}
		ctx.state(format!("{:?} {} {:?}", shape, order, ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes());
		Ok(())
	})?;
	// Whoever still waits gives up.
	for t in tasks.iter_mut() { t.fut = None; }
	net::with(|n, _| match n.conns.iter().position(|c| !c.closed) {
		Some(c) => bad("leak", format!("connection {} is still open at the end", c)),
		None => Ok(()),
	})
}

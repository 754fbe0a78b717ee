//! Drives the real `ProofBuilder` against a simulated resolver, without a transport.

use crate::dns::*;
use crate::run::*;
use crate::src::*;
use crate::world::*;
use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::rr::{Name, RR};
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::{verify_rr_stream, ValidationError, VerifiedRRStream};

pub fn lib_name(n: &Nm) -> Option<Name> { n.s().as_str().try_into().ok() }

pub fn qbuf(b: &[u8]) -> QueryBuf {
	let mut q = QueryBuf::new_zeroed(b.len() as u16);
	q.copy_from_slice(b);
	q
}

/// The same filled bit by bit, as by clients which read from a connection themselves.
pub fn qbuf_parts(ctx: &mut Ctx, b: &[u8]) -> Result<QueryBuf, Violation> {
	let k = if ctx.src.chance(1, 2) { ctx.src.idx(b.len() + 1) } else { 0 };
	let mut cuts = vec![k];
	let n = ctx.src.below(4);
	for _ in 0..n { cuts.push(if ctx.src.chance(1, 3) { (*ctx.src.pick(&[31usize, 32, 33, 2047, 2048, 2049])).min(b.len()) } else { ctx.src.idx(b.len() + 1) }.max(k)); }
	cuts.push(b.len());
	cuts.sort_unstable();
	let q = guard(|| {
		let mut q = QueryBuf::new_zeroed(k as u16);
		q.copy_from_slice(&b[..k]);
		for c in cuts.windows(2) { q.extend_from_slice(&b[c[0]..c[1]]); }
		q
	});
	ctx.fault("buffer_filled_in_parts");
	match q {
		Err(p) => bad("content", format!("filling a buffer in parts {:?} panics: {}", cuts, p)),
		Ok(q) if q[..] != *b || q.clone().into_vec() != b => bad("content", format!("a buffer filled in parts {:?} does not hold what was put in", cuts)),
		Ok(q) => Ok(q),
	}
}

/// Parses a query, insisting that it is exactly what a resolver expects: one question, the DNSSEC
/// OK flag, nothing else.
pub fn parse_query(q: &[u8]) -> Result<(Nm, u16), String> {
	if q.len() < 12 { return Err(format!("query of {} bytes", q.len())); }
	let u = |p: usize| u16::from_be_bytes([q[p], q[p + 1]]);
	if u(0) != 0 { return Err(format!("transaction id {}", u(0))); }
	let flags = u(2);
	if flags & 0x8000 != 0 { return Err("query is marked as a response".into()); }
	if flags & 0x7800 != 0 { return Err("opcode is not QUERY".into()); }
	if flags & 0x0100 == 0 { return Err("recursion not desired".into()); }
	if (u(4), u(6), u(8), u(10)) != (1, 0, 0, 1) { return Err("wrong section counts".into()); }
	// No compression is possible in a question.
	let mut p = 12;
	let mut labels = Vec::new();
	loop {
		let l = *q.get(p).ok_or("truncated name")? as usize;
		if l == 0 { break; }
		if l > 63 { return Err("label too long".into()); }
		labels.push(q.get(p + 1..p + 1 + l).ok_or("truncated name")?.to_ascii_lowercase());
		p += 1 + l;
	}
	p += 1;
	if p - 12 > 255 { return Err("name too long".into()); }
	let rest = &q[p..];
	if rest.len() < 4 { return Err("truncated question".into()); }
	let ty = u16::from_be_bytes([rest[0], rest[1]]);
	if rest[2..4] != [0, 1] { return Err("class is not IN".into()); }
	let opt = &rest[4..];
	if opt.len() != 11 || opt[0] != 0 || opt[1..3] != [0, 41] { return Err("no OPT record at the end".into()); }
	if opt[6] != 0 { return Err("EDNS version is not 0".into()); }
	if opt[7] & 0x80 == 0 { return Err("DNSSEC OK is not set".into()); }
	if opt[9..11] != [0, 0] { return Err("unexpected EDNS options".into()); }
	Ok((Nm(labels), ty))
}

#[derive(Default, Debug)]
pub struct Outcome {
	pub proof: Option<(Vec<u8>, u32)>,
	pub queries: Vec<(Nm, u16)>,
	/// The responses in the order they were processed, with the index of the query they answer.
	pub responses: Vec<(usize, Vec<u8>)>,
	pub rejected: usize,
	pub bad_query: Option<String>,
}

/// Runs a builder to the end. Outstanding queries are answered in an order the simulator picks.
pub fn drive(
	ctx: &mut Ctx, qn: &Nm, qt: u16, reorder: bool, responder: &mut dyn FnMut(&mut Ctx, &Nm, u16, usize) -> Vec<u8>,
) -> Result<Outcome, String> {
	let mut out = Outcome::default();
	let name = match lib_name(qn) { Some(n) => n, None => return Ok(out) };
	let (mut b, q) = guard(|| ProofBuilder::new(&name, qt))?;
	let mut outstanding: Vec<(usize, Nm, u16)> = Vec::new();
	let mut pending = vec![q.to_vec()];
	loop {
		for q in pending.drain(..) {
			match parse_query(&q) {
				Ok((n, t)) => { outstanding.push((out.queries.len(), n.clone(), t)); out.queries.push((n, t)); },
				Err(e) => { out.bad_query = Some(format!("{}: {}", e, hex(&q))); return Ok(out); },
			}
		}
		if !b.awaiting_responses() || outstanding.is_empty() { break; }
		let i = if reorder { ctx.src.idx(outstanding.len()) } else { 0 };
		if i != 0 { ctx.fault("response_reordered"); }
		let (qi, n, t) = outstanding.remove(i);
		let r = responder(ctx, &n, t, qi);
		if r.len() > 65535 { break; }
		ctx.src.say(|| format!("query {} {} -> {} bytes", n.s(), ty_str(t), r.len()));
		out.responses.push((qi, r.clone()));
		match guard(|| b.process_response(&qbuf(&r)))? {
			Ok(qs) => pending.extend(qs.into_iter().map(|q| q.into_vec())),
			Err(()) => { out.rejected += 1; break; },
		}
	}
	out.proof = guard(|| b.finish_proof())?.ok();
	Ok(out)
}

/// An honest resolver's answer, or a negative one.
pub fn honest_response(ctx: &mut Ctx, w: &World, e: usize, style: &Style, n: &Nm, t: u16, aged: bool) -> Vec<u8> {
	match w.answer(e, n, t) {
		Some((a, b, _)) => render(&mut ctx.src, style, n, t, &a, &b, aged),
		None => render_negative(n, t, 3),
	}
}

/// What a client makes of a proof.
#[derive(Clone, Debug, PartialEq)]
pub struct Verified { pub rrs: Vec<(Nm, u16, Vec<u8>)>, pub from: u64, pub expires: u64, pub ttl: u32 }
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Ok(Verified), Invalid, Unsupported, Unparseable, Panic(String) }

pub fn meanings(v: &VerifiedRRStream) -> Verified {
	Verified { rrs: v.verified_rrs.iter().map(|r| from_lib(r)).collect(), from: v.valid_from, expires: v.expires, ttl: v.max_cache_ttl }
}
pub fn verify_parsed(rrs: &[RR]) -> Verdict {
	match guard(|| verify_rr_stream(rrs).map(|v| meanings(&v))) {
		Ok(Ok(v)) => Verdict::Ok(v),
		Ok(Err(ValidationError::Invalid)) => Verdict::Invalid,
		Ok(Err(ValidationError::UnsupportedAlgorithm)) => Verdict::Unsupported,
		Err(p) => Verdict::Panic(p),
	}
}
pub fn verify_bytes(b: &[u8]) -> Verdict {
	match guard(|| parse_rr_stream(b)) {
		Ok(Ok(rrs)) => verify_parsed(&rrs),
		Ok(Err(())) => Verdict::Unparseable,
		Err(p) => Verdict::Panic(p),
	}
}

pub fn encode(recs: &[Rec]) -> Vec<u8> {
	let mut r = Vec::new();
	for x in recs { r.extend(x.wire()); }
	r
}

pub fn show(v: &Verdict) -> String {
	match v {
		Verdict::Ok(v) => format!("verified {} records valid {}..{} ttl {}: {}", v.rrs.len(), v.from, v.expires, v.ttl,
			v.rrs.iter().map(|(n, t, d)| format!("{} {} {}", n.s(), ty_str(*t), hex(&d[..d.len().min(12)]))).collect::<Vec<_>>().join("; ")),
		v => format!("{:?}", v),
	}
}

/// Delivers a set of records chosen by an attacker to the client, either as the proof itself or
/// by way of the resolver's answers to the real query builder.
pub fn deliver(ctx: &mut Ctx, qn: &Nm, qt: u16, recs: Vec<Rec>) -> Result<Option<Vec<u8>>, String> {
	if ctx.src.chance(1, 2) { return Ok(Some(encode(&recs))); }
	ctx.probe("attack_through_builder");
	let spread = ctx.src.chance(1, 2);
	let style = Style::random(&mut ctx.src);
	let all = recs.clone();
	let mut left = recs;
	let mut first = true;
	let o = drive(ctx, qn, qt, true, &mut |ctx, n, t, _| {
		let take: Vec<Rec> = if first && !spread { std::mem::take(&mut left) }
			else if first {
				// Everything which does not look like an answer to a later question.
				let (a, b): (Vec<Rec>, Vec<Rec>) = left.drain(..).partition(|r| {
					let ty = if r.ty == RRSIG { Sig::parse(&r.rdata).map(|s| s.ty).unwrap_or(0) } else { r.ty };
					ty != DNSKEY && ty != DS
				});
				left = b;
				a
			} else {
				let (a, b): (Vec<Rec>, Vec<Rec>) = left.drain(..).partition(|r| {
					let ty = if r.ty == RRSIG { Sig::parse(&r.rdata).map(|s| s.ty).unwrap_or(0) } else { r.ty };
					r.owner == *n && ty == t
				});
				left = b;
				a
			};
		first = false;
		let _ = &ctx;
		let take = if take.is_empty() { vec![Rec { owner: Nm::p("filler."), ty: A, ttl: 9, rdata: vec![1, 1, 1, 1] }] } else { take };
		render_recs(&style, n, t, &take, &[])
	})?;
	match o.proof {
		Some((p, _)) => Ok(Some(p)),
		None => {
			ctx.probe("builder_gave_up");
			let _ = Src::new; // the attacker can always hand over the bytes directly
			Ok(Some(encode(&all)))
		},
	}
}

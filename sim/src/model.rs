//! What building a proof should come to, worked out independently of the code under test.

use crate::dns::*;
use crate::net::Msg;
use crate::run::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub const LIMIT: usize = 10;

/// The walk from an answer up to the root, as specified: ask for the keys, and below the root the
/// delegation, of whoever signed anything that has been seen, once each.
#[derive(Clone)]
pub struct Model {
	pub asked: Vec<(Nm, u16)>,
	signers: BTreeSet<Nm>,
	pub pending: usize,
	pub kept: Vec<Rec>,
	pub ttl: u32,
}
impl Model {
	pub fn new(n: &Nm, t: u16) -> Model { Model { asked: vec![(n.clone(), t)], signers: BTreeSet::new(), pending: 1, kept: Vec::new(), ttl: u32::MAX } }
	pub fn over(&self) -> bool { self.asked.len() > LIMIT }
	pub fn awaiting(&self) -> bool { self.pending > 0 && !self.over() }
	/// Accepts a response, returning what is to be asked because of it.
	pub fn feed(&mut self, kept: &[Rec]) -> Vec<(Nm, u16)> {
		let mut q = Vec::new();
		for r in kept {
			self.ttl = self.ttl.min(r.ttl);
			if r.ty != RRSIG { continue; }
			let s = match Sig::parse(&r.rdata) { Some(s) => s.signer, None => continue };
			if self.signers.insert(s.clone()) {
				q.push((s.clone(), DNSKEY));
				if !s.0.is_empty() { q.push((s, DS)); }
			}
		}
		self.kept.extend_from_slice(kept);
		self.pending = self.pending - 1 + q.len();
		self.asked.extend(q.iter().cloned());
		if self.over() { Vec::new() } else { q }
	}
	/// The contents of the proof and its TTL.
	pub fn finish(&self) -> Option<(Vec<(Nm, u16, u32, Vec<u8>)>, u32)> {
		if self.pending > 0 || self.over() { return None; }
		Some((bag(&self.kept), self.ttl))
	}
}
/// Records as a multiset.
pub fn bag(r: &[Rec]) -> Vec<(Nm, u16, u32, Vec<u8>)> {
	let mut b: Vec<_> = r.iter().map(|r| (r.owner.clone(), r.ty, r.ttl, meaning(r.ty, &r.rdata))).collect();
	b.sort();
	b
}
/// Compares a proof with what should be in it.
pub fn same_proof(proof: &[u8], want: &[(Nm, u16, u32, Vec<u8>)]) -> Result<(), String> {
	let got = match parse_stream(proof) { Some(r) => bag(&r), None => return Err("the proof is not a series of records".into()) };
	if got == want { return Ok(()); }
	let mut diff: BTreeMap<&(Nm, u16, u32, Vec<u8>), i32> = BTreeMap::new();
	for g in &got { *diff.entry(g).or_insert(0) += 1; }
	for w in want { *diff.entry(w).or_insert(0) -= 1; }
	let d: Vec<String> = diff.iter().filter(|(_, c)| **c != 0).take(4)
		.map(|(r, c)| format!("{}{} {} ttl={} {}", if *c > 0 { "unexpected " } else { "missing " }, r.0.s(), ty_str(r.1), r.2, rdata_str(r.1, &r.3))).collect();
	Err(format!("the proof has {} records instead of {}: {}", got.len(), want.len(), d.join(", ")))
}

/// Walks a connection's messages in the order they were sent.
pub struct Walk { pub model: Model, pub refused: bool, pub starved: bool, pub used: usize, pub used_bytes: usize, pub query_bytes: usize }
pub fn walk(n: &Nm, t: u16, frames: &[Msg]) -> Walk {
	let qlen = |n: &Nm| 2 + 12 + n.wire_len() + 4 + 11;
	let mut w = Walk { model: Model::new(n, t), refused: false, starved: false, used: 0, used_bytes: 0, query_bytes: qlen(n) };
	while w.model.awaiting() {
		let f = match frames.get(w.used) { Some(f) => f, None => { w.starved = true; break; } };
		w.used += 1;
		w.used_bytes += 2 + f.bytes.len();
		match &f.kept {
			None => { w.refused = true; break; },
			Some(k) => for (n, _) in w.model.feed(k) { w.query_bytes += qlen(&n); },
		}
	}
	w
}
impl Walk {
	pub fn result(&self) -> Option<(Vec<(Nm, u16, u32, Vec<u8>)>, u32)> { if self.refused || self.starved { None } else { self.model.finish() } }
}

/// What belongs into a proof because of a message.
pub fn keep(ans: &[Rec], auth: &[Rec]) -> Vec<Rec> {
	let mut k = ans.to_vec();
	for r in auth {
		let yes = match r.ty {
			NSEC | NSEC3 => true,
			RRSIG => Sig::parse(&r.rdata).map(|s| s.ty == NSEC || s.ty == NSEC3).unwrap_or(false),
			_ => false,
		};
		if yes { k.push(r.clone()); }
	}
	k
}
pub fn message(st: &Style, n: &Nm, t: u16, ans: &[Rec], auth: &[Rec]) -> Msg {
	Msg { bytes: render_recs(st, n, t, ans, auth), kept: if ans.is_empty() { None } else { Some(keep(ans, auth)) } }
}
pub fn honest(ctx: &mut Ctx, w: &World, e: usize, st: &Style, n: &Nm, t: u16, aged: bool) -> Msg {
	// Nothing is that deep in a simulated world, and it would take long to find out.
	if n.0.len() > 20 { return Msg { bytes: render_negative(n, t, 3), kept: None }; }
	match w.answer(e, n, t) {
		Some((a, b, _)) => {
			let (a, b) = layout(&mut ctx.src, st, n, &a, &b, aged);
			let m = message(st, n, t, &a, &b);
			if m.bytes.len() > 65535 { return Msg { bytes: render_negative(n, t, 2), kept: None }; }
			m
		},
		None => Msg { bytes: render_negative(n, t, 3), kept: None },
	}
}
/// Spoils a good message so that it must be refused.
pub fn spoil(ctx: &mut Ctx, m: &mut Msg) {
	m.kept = None;
	let b = &mut m.bytes;
	if b.len() < 12 { return; }
	match ctx.src.below(16) {
		12..=15 if malformed_record(ctx, b) => ctx.fault("malformed_record"),
		0 => { b[3] = (b[3] & 0xf0) | *ctx.src.pick(&[2u8, 5, 1, 3, 4]); ctx.fault("error_code"); },
		1 => { b[3] = (b[3] & 0xf0) | *ctx.src.pick(&[8u8, 9, 10, 15]); ctx.fault("error_code"); },
		2 => { b[2] |= 2; ctx.fault("marked_truncated"); },
		3 => { b[2] &= 0x7f; ctx.fault("not_a_response"); },
		4 => { b[3] &= !0x20; ctx.fault("not_authenticated"); },
		5 => { b[2] |= *ctx.src.pick(&[0x08u8, 0x10, 0x20, 0x40]); ctx.fault("wrong_opcode"); },
		6 => { b[ctx.src.idx(2)] = 1 + ctx.src.below(255) as u8; ctx.fault("wrong_transaction_id"); },
		7 => { b[5] = *ctx.src.pick(&[0u8, 2, 255]); ctx.fault("wrong_question_count"); },
		8 => { b[6] = 0; b[7] = 0; ctx.fault("no_answers"); },
		9 => {
			let k = ctx.src.idx(12);
			b.truncate(k);
			ctx.fault("truncated");
		},
		_ => {
			// Somewhere before the end of the last record which is looked at.
			let end = used_length(b).unwrap_or(12);
			let k = 12 + ctx.src.idx((end - 12).max(1));
			b.truncate(k.min(end.saturating_sub(1)));
			ctx.fault("truncated");
		},
	}
}
/// A name as it appears in messages, with something wrong about it.
fn bad_name(ctx: &mut Ctx, at: usize) -> Vec<u8> {
	match ctx.src.below(10) {
		0 => vec![1, b'x'],
		1 => vec![3, b'x', b'y'],
		// A label which is none, and one with what separates labels in it.
		2 => { let l = *ctx.src.pick(&[64u8, 65, 100, 127, 128, 191]); let mut v = vec![l]; for i in 0..l { v.push(if i % 9 == 8 { b'.' } else { b'x' }); } v.push(0); v },
		3 => ctx.src.pick(&[&b"\x03a.b\0"[..], b"\x02a.\0", b"\x02.a\x01b\0", b"\x01.\0", b"\x01c\x04a..b\0"]).to_vec(),
		4 => { let mut v = vec![3, b'x', *ctx.src.pick(&[0u8, 0x1f, 0x7f, 0x80, 0xff, 0x0a]), b'z', 0]; if ctx.src.chance(1, 2) { v.insert(0, b'p'); v.insert(0, 1); } v },
		// Round and round
		5 => (0xc000 + at as u16).to_be_bytes().to_vec(),
		6 => { let mut v = vec![1, b'x']; v.extend((0xc000 + at as u16).to_be_bytes()); v },
		7 => vec![0xff, 0xff],
		8 => vec![0xc0],
		// 256 bytes and more
		_ => { let mut v = Vec::new(); let k = ctx.src.range(4, 6); for _ in 0..k { v.push(63); v.extend([b'l'; 63]); } v.push(0); v },
	}
}
/// Adds a record to a message which cannot be taken for anything. Returns false if it is too large.
fn malformed_record(ctx: &mut Ctx, b: &mut Vec<u8>) -> bool {
	let end = match used_length(b) { Some(e) if e <= b.len() && b.len() < 0x3c00 => e, _ => return false };
	let mut owner = vec![0xc0, 12];
	let mut class = 1u16;
	let mut ty = *ctx.src.pick(&[TXT, A, AAAA, NS, CNAME, DNAME, TLSA, NSEC, NSEC3, DS, DNSKEY, RRSIG]);
	let good_name = ctx.src.pick(&[&b"\0"[..], b"\x01x\0", b"\xc0\x0c"]).to_vec();
	let types = ctx.src.pick(&[&[0u8, 33][..], &[1, 255], &[0, 1], &[0, 6, 1, 2, 3], &[0], &[0, 1, 4, 7]]).to_vec();
	let at = end + 12;
	let mut d: Vec<u8> = match ty {
		TXT => ctx.src.pick(&[&[1u8][..], &[3, b'x', b'y'], &[1, b'x', 255, b'y'], &[0, 0, 2, 1]]).to_vec(),
		A => { let l = *ctx.src.pick(&[0usize, 1, 3, 5, 8, 16]); ctx.src.bytes(l) },
		AAAA => { let l = *ctx.src.pick(&[0usize, 4, 15, 17, 32]); ctx.src.bytes(l) },
		NS | CNAME | DNAME => match ctx.src.below(3) {
			0 => { let mut v = good_name; v.extend_from_slice(ctx.src.pick::<&[u8]>(&[&[0u8][..], &[1], &[0, 0], b"\x01y\0", &[0xc0, 12]])); v },
			_ => bad_name(ctx, at),
		},
		TLSA => { let l = ctx.src.below(3) as usize; ctx.src.bytes(l) },
		DNSKEY | DS => { let l = ctx.src.below(4) as usize; ctx.src.bytes(l) },
		RRSIG => { let l = ctx.src.range(0, 18) as usize; let mut v = ctx.src.bytes(l); if l == 18 && ctx.src.chance(3, 4) { v.extend(bad_name(ctx, at + 18)); while v.last() == Some(&0) || v.len() > 18 + 192 { v.pop(); } } v },
		NSEC => if ctx.src.chance(1, 2) { let mut v = good_name; let mut t = types; if t == [0, 33] { t.extend([1; 33]); } v.extend(t); v } else { bad_name(ctx, at) },
		_ => match ctx.src.below(3) {
			0 => { let l = ctx.src.below(5) as usize; ctx.src.bytes(l) },
			1 => { let k = ctx.src.range(1, 255) as usize; let mut v = vec![1, 0, 0, 1, k as u8]; let l = ctx.src.idx(k + 1); v.extend(ctx.src.bytes(l)); if l == k { v.push(20); v.extend([9; 19]); } v },
			_ => { let mut v = vec![1, 0, 0, 1, 0, 20]; v.extend([7; 20]); let mut t = types; if t == [0, 33] { t.extend([1; 33]); } v.extend(t); v },
		},
	};
	match ctx.src.below(8) {
		0 => { owner = bad_name(ctx, end); ty = A; d = vec![1, 2, 3, 4]; },
		1 => { class = *ctx.src.pick(&[0u16, 2, 3, 254, 255, 256]); ty = A; d = vec![1, 2, 3, 4]; },
		2 => { ty = *ctx.src.pick(&[0u16, 3, 6, 14, 17, 38, 40, 44, 49, 51, 53, 99, 257, 0x100 | A, 0x8000 | TXT, 65535]); d = vec![1, 2, 3, 4]; },
		_ => {},
	}
	let mut r = owner;
	r.extend(ty.to_be_bytes());
	r.extend(class.to_be_bytes());
	r.extend([0, 0, 0, 60]);
	r.extend((d.len() as u16).to_be_bytes());
	r.extend(d);
	if b.len() + r.len() > 65535 { return false; }
	b.splice(end..end, r);
	let i = if (b[8], b[9]) != (0, 0) || ctx.src.chance(1, 2) { 8 } else { 6 };
	let c = u16::from_be_bytes([b[i], b[i + 1]]) + 1;
	b[i..i + 2].copy_from_slice(&c.to_be_bytes());
	true
}
/// How far into a message the answers and authorities go.
pub fn used_length(b: &[u8]) -> Option<usize> {
	let cnt = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]) as usize;
	let mut p = 12;
	for _ in 0..cnt(4) { p = read_name(b, p)?.1 + 4; }
	for _ in 0..cnt(6) + cnt(8) {
		p = read_name(b, p)?.1;
		p += 10 + u16::from_be_bytes([*b.get(p + 8)?, *b.get(p + 9)?]) as usize;
	}
	Some(p)
}

//! C16: what a web page gets to see, from domain name to JSON.

use crate::attack::*;
use crate::dns::*;
use crate::hooks;
use crate::judge::*;
use crate::run::*;
use crate::session::*;
use crate::verify_props::*;
use crate::world::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover_wasm as wasm;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(u64), Str(String), List(Vec<J>), Map(Vec<(String, J)>) }
impl J {
	pub fn get(&self, k: &str) -> Result<&J, String> {
		match self { J::Map(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v).ok_or(format!("no \"{}\"", k)), _ => Err("not an object".into()) }
	}
	pub fn num(&self, k: &str) -> Result<u64, String> { match self.get(k)? { J::Num(n) => Ok(*n), v => Err(format!("\"{}\" is {:?}", k, v)) } }
	pub fn text(&self, k: &str) -> Result<&str, String> { match self.get(k)? { J::Str(s) => Ok(s), v => Err(format!("\"{}\" is {:?}", k, v)) } }
	fn bytes(&self, k: &str) -> Result<Vec<u8>, String> {
		match self.get(k)? {
			J::List(l) => l.iter().map(|b| match b { J::Num(n) if *n < 256 => Ok(*n as u8), v => Err(format!("{:?} is no byte", v)) }).collect(),
			v => Err(format!("\"{}\" is {:?}", k, v)),
		}
	}
	fn hex(&self, k: &str) -> Result<Vec<u8>, String> {
		let s = self.text(k)?;
		if s.len() % 2 != 0 || !s.bytes().all(|c| c.is_ascii_hexdigit()) { return Err(format!("\"{}\" is not hexadecimal", k)); }
		Ok(unhex(&s.to_ascii_lowercase()))
	}
	fn name(&self, k: &str) -> Result<Nm, String> { Ok(Nm::p(self.text(k)?)) }
}

/// A strict parser: RFC 8259, and no key twice.
pub fn parse_json(s: &str) -> Result<J, String> {
	let mut p = P { c: s.chars().collect(), i: 0 };
	let v = p.value(0)?;
	p.space();
	if p.i != p.c.len() { return Err(format!("something follows after character {}", p.i)); }
	Ok(v)
}
struct P { c: Vec<char>, i: usize }
impl P {
	fn peek(&self) -> char { self.c.get(self.i).copied().unwrap_or('\0') }
	fn space(&mut self) { while [' ', '\t', '\n', '\r'].contains(&self.peek()) { self.i += 1; } }
	fn want(&mut self, c: char) -> Result<(), String> {
		if self.peek() != c || self.i >= self.c.len() { return Err(format!("no '{}' at character {}", c, self.i)); }
		self.i += 1;
		Ok(())
	}
	fn word(&mut self, w: &str, v: J) -> Result<J, String> { for c in w.chars() { self.want(c)?; } Ok(v) }
	fn value(&mut self, depth: usize) -> Result<J, String> {
		if depth > 20 { return Err("nested too deeply".into()); }
		self.space();
		match self.peek() {
			'{' => {
				self.i += 1;
				let mut m: Vec<(String, J)> = Vec::new();
				self.space();
				if self.peek() == '}' { self.i += 1; return Ok(J::Map(m)); }
				loop {
					self.space();
					let k = self.string()?;
					if m.iter().any(|(n, _)| *n == k) { return Err(format!("\"{}\" appears twice", k)); }
					self.space();
					self.want(':')?;
					let v = self.value(depth + 1)?;
					m.push((k, v));
					self.space();
					if self.peek() == ',' { self.i += 1; continue; }
					self.want('}')?;
					return Ok(J::Map(m));
				}
			},
			'[' => {
				self.i += 1;
				let mut l = Vec::new();
				self.space();
				if self.peek() == ']' { self.i += 1; return Ok(J::List(l)); }
				loop {
					l.push(self.value(depth + 1)?);
					self.space();
					if self.peek() == ',' { self.i += 1; continue; }
					self.want(']')?;
					return Ok(J::List(l));
				}
			},
			'"' => Ok(J::Str(self.string()?)),
			't' => self.word("true", J::Bool(true)),
			'f' => self.word("false", J::Bool(false)),
			'n' => self.word("null", J::Null),
			c if c.is_ascii_digit() => {
				let s = self.i;
				while self.peek().is_ascii_digit() { self.i += 1; }
				let t: String = self.c[s..self.i].iter().collect();
				if t.len() > 1 && t.starts_with('0') { return Err(format!("number {} starts with a zero", t)); }
				t.parse().map(J::Num).map_err(|_| format!("number {} is too large", t))
			},
			_ => Err(format!("no value at character {}", self.i)),
		}
	}
	fn string(&mut self) -> Result<String, String> {
		self.want('"')?;
		let mut r = String::new();
		loop {
			if self.i >= self.c.len() { return Err("a string does not end".into()); }
			let c = self.peek();
			self.i += 1;
			match c {
				'"' => return Ok(r),
				'\\' => {
					let e = self.peek();
					self.i += 1;
					match e {
						'"' | '\\' | '/' => r.push(e),
						'n' => r.push('\n'), 't' => r.push('\t'), 'r' => r.push('\r'), 'b' => r.push('\x08'), 'f' => r.push('\x0c'),
						'u' => {
							let mut v = 0;
							for _ in 0..4 { v = v * 16 + self.peek().to_digit(16).ok_or("bad \\u escape")?; self.i += 1; }
							r.push(char::from_u32(v).ok_or("half of a surrogate pair")?);
						},
						_ => return Err(format!("bad escape at character {}", self.i)),
					}
				},
				c if (c as u32) < 0x20 => return Err(format!("control character {} in a string", c as u32)),
				c => r.push(c),
			}
		}
	}
}

/// What a record in JSON form says.
pub fn decode(j: &J) -> Result<(Nm, u16, Vec<u8>), String> {
	let n = j.name("name")?;
	let byte = |k: &str| -> Result<u8, String> { let v = j.num(k)?; if v < 256 { Ok(v as u8) } else { Err(format!("\"{}\" is {}", k, v)) } };
	let (t, d) = match j.text("type")? {
		"a" => (A, j.bytes("address")?),
		"aaaa" => (AAAA, j.bytes("address")?),
		"ns" => (NS, j.name("ns")?.wire()),
		"cname" => (CNAME, j.name("canonical_name")?.wire()),
		"dname" => (DNAME, j.name("delegation_name")?.wire()),
		"txt" => (TXT, match j.get("contents")? { J::Str(s) => s.as_bytes().to_vec(), _ => j.bytes("contents")? }),
		"tlsa" => { let mut d = vec![byte("usage")?, byte("selector")?, byte("data_ty")?]; d.extend(j.hex("data")?); (TLSA, d) },
		"dnskey" => (DNSKEY, dnskey_rdata(j.num("flags")? as u16, byte("protocol")?, byte("alg")?, &j.hex("pubkey")?)),
		"ds" => { let mut d = (j.num("key_tag")? as u16).to_be_bytes().to_vec(); d.push(byte("alg")?); d.push(byte("digest_type")?); d.extend(j.hex("digest")?); (DS, d) },
		"rrsig" => (RRSIG, Sig { ty: j.num("signed_record_type")? as u16, alg: byte("alg")?, labels: byte("signed_labels")?, ottl: j.num("orig_ttl")? as u32,
			exp: j.num("expiration")? as u32, inc: j.num("inception")? as u32, tag: j.num("key_tag")? as u16, signer: j.name("key_name")?, sig: j.hex("signature")? }.rdata()),
		"nsec" => { let mut d = j.name("next_name")?.wire(); d.extend(bitmap(&types(j)?)); (NSEC, d) },
		"nsec3" => {
			let mut d = vec![byte("hash_algo")?, byte("flags")?];
			d.extend((j.num("hash_iterations")? as u16).to_be_bytes());
			for k in ["salt", "next_name_hash"] { let b = j.bytes(k)?; d.push(b.len() as u8); d.extend(b); }
			d.extend(bitmap(&types(j)?));
			(NSEC3, d)
		},
		t => return Err(format!("unknown type {}", t)),
	};
	Ok((n, t, d))
}
fn types(j: &J) -> Result<Vec<u16>, String> {
	let l = match j.get("types")? { J::List(l) => l, v => return Err(format!("types are {:?}", v)) };
	let mut r = Vec::new();
	for t in l {
		r.push(match t {
			J::Num(n) if *n < 65536 => *n as u16,
			J::Str(s) => [A, NS, CNAME, TXT, AAAA, DNAME, DS, RRSIG, NSEC, DNSKEY, NSEC3, TLSA].into_iter().find(|t| ty_str(*t) == *s).ok_or(format!("unknown type {}", s))?,
			t => return Err(format!("{:?} is no type", t)),
		});
	}
	r.sort();
	r.dedup();
	if r.len() != l.len() { return Err("a type is listed twice".into()); }
	Ok(r)
}

pub fn spell(ctx: &mut Ctx, n: &Nm) -> String {
	let mut s = n.s();
	if s != "." && ctx.src.chance(1, 2) { s.pop(); }
	if ctx.src.chance(1, 4) { s = s.to_ascii_uppercase(); ctx.fault("domain_recapitalised"); }
	s
}

pub fn c16(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	if ctx.src.chance(1, 8) { cfg.algs = algs(ctx); }
	cfg.odd_text = ctx.src.chance(2, 3);
	cfg.evil = ctx.src.chance(1, 3);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	cfg.wild_heavy = ctx.src.chance(1, 4);
	cfg.insecure = ctx.src.chance(1, 6);
	cfg.odd_keys = ctx.src.chance(1, 6);
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let (qn, qt, steps) = match w.pick_query(&mut ctx.src, 0) { Some(x) => x, None => return Ok(()) };
	let domain = match ctx.src.below(14) {
		0 => {
			// Nothing that could be a name.
			let d = ctx.src.pick(&["", "..", "a..b", ".a", "a b.", "\"", "é.", "a\n", "a.\0", "\u{7f}.", "a\".b"]).to_string();
			let d = if ctx.src.chance(1, 4) { format!("{}.com", "x".repeat(64)) } else if ctx.src.chance(1, 4) { "ab.".repeat(90) } else { d };
			ctx.fault("bad_domain");
			match guard(|| wasm::init_proof_builder(d.clone(), qt)) {
				Err(p) => return bad("panic", p),
				// An empty name with a dot added is the root.
				Ok(Some(_)) if !d.is_empty() => return bad("domain", format!("{:?} was taken for a domain name", d)),
				Ok(_) => return Ok(()),
			}
		},
		_ => spell(ctx, &qn),
	};
	ctx.src.say(|| format!("looking up {:?} {}", domain, ty_str(qt)));
	let mut b = match guard(|| wasm::init_proof_builder(domain.clone(), qt)) {
		Err(p) => return bad("panic", p),
		Ok(Some(b)) => b,
		Ok(None) => return if qn.wire_len() <= 255 { bad("domain", format!("{:?} was not taken for a domain name", domain)) } else { Ok(()) },
	};
	let style = Style::random(&mut ctx.src);
	let faults = ctx.src.chance(1, 3);
	let parallel = ctx.src.range(1, 4) as usize;
	let mut trouble = false;
	let mut outstanding: Vec<(Nm, u16)> = Vec::new();
	let (mut asked, mut failed) = (0, false);
	let mut seen: Vec<(Nm, u16)> = Vec::new();
	loop {
		while outstanding.len() < parallel {
			match guard(|| wasm::get_next_query(&mut b)) {
				Err(p) => return bad("panic", p),
				Ok(None) => break,
				Ok(Some(q)) => {
					let q2 = match parse_query(&q) { Ok(q) => q, Err(e) => return bad("query", format!("malformed query ({}): {}", e, hex(&q))) };
					if asked == 0 && q2 != (qn.clone(), qt) { return bad("query", format!("the first query is for {} {} instead of {} {}", q2.0.s(), ty_str(q2.1), qn.s(), ty_str(qt))); }
					if seen.contains(&q2) { return bad("query", format!("{} {} was asked for twice", q2.0.s(), ty_str(q2.1))); }
					seen.push(q2.clone());
					asked += 1;
					if asked > 10 { return bad("query", "more than ten queries".into()); }
					outstanding.push(q2);
				},
			}
		}
		if outstanding.is_empty() { break; }
		let i = ctx.src.idx(outstanding.len());
		if i > 0 { ctx.fault("response_reordered"); }
		let (n, t) = outstanding.remove(i);
		let mut resp = honest_response(ctx, &w, 0, &style, &n, t, true);
		let mut copies = 1;
		if faults && ctx.src.chance(1, 5) {
			trouble = true;
			match ctx.src.below(7) {
				0 => { failed = true; ctx.fault("http_request_failed"); },
				1 => { resp = vec![0; 65535 + ctx.src.below(3) as usize * 1000]; ctx.fault("response_too_long"); },
				2 => { copies = 2; ctx.fault("response_duplicated"); },
				3 => { let k = ctx.src.idx(resp.len()); resp.truncate(k); ctx.fault("response_truncated"); },
				4 => { let k = ctx.src.idx(resp.len()); resp[k] ^= 1 << ctx.src.below(8); ctx.fault("bit_flipped"); },
				5 => { copies = 0; ctx.fault("response_lost"); },
				_ => { resp = b"<html><body>It works!</body></html>".to_vec(); ctx.fault("not_dns_at_all"); },
			}
		}
		if failed { break; }
		for _ in 0..copies {
			ctx.st.events += 1;
			if let Err(p) = guard(|| wasm::process_query_response(&mut b, resp.clone())) { return bad("panic", p); }
		}
	}
	let honest = !trouble;
	let need = needed_queries(&w, 0, &qn, qt).unwrap_or(99);
	let provable = honest && steps.iter().all(|s| w.secure(s.zone)) && need <= 10 && !nsec_trouble(&w, 0, &qn, qt);
	let mut proof = None;
	if !failed {
		proof = match guard(|| wasm::get_unverified_proof(b)) { Err(p) => return bad("panic", p), Ok(p) => p };
		if proof.is_none() && provable { return bad("incomplete", format!("no proof of {} {} although {} queries suffice", qn.s(), ty_str(qt), need)); }
	}
	let mut tampered = false;
	if ctx.src.chance(1, 3) {
		// The proof comes from somewhere else.
		tampered = true;
		let mut g = w.proof(0, &qn, qt).unwrap_or_default();
		let k = ctx.src.below(3);
		for _ in 0..k { attack_groups(ctx, &w, 0, &qn, qt, &mut g); }
		let mut r = flatten(&g);
		if ctx.src.chance(1, 2) { attack_recs(ctx, &mut r); }
		let mut p = encode(&r);
		if ctx.src.chance(1, 4) { let k = ctx.src.idx(p.len() + 1); p.truncate(k); ctx.fault("proof_truncated"); }
		proof = Some(p);
	}
	let proof = match proof { Some(p) => p, None => { ctx.state(format!("none {} {:?}", failed, ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes()); return Ok(()); } };
	let native = verify_bytes(&proof);
	settle(ctx, &native)?;
	let text = match guard(|| wasm::verify_byte_stream(proof.clone())) { Err(p) => return bad("panic", p), Ok(t) => t };
	ctx.src.note(text.as_bytes());
	ctx.src.say(|| text.chars().take(2000).collect());
	let j = match parse_json(&text) { Ok(j) => j, Err(e) => return bad("json", format!("the result is not JSON ({}): {}", e, text.chars().take(600).collect::<String>())) };
	let keys: Vec<&str> = match &j { J::Map(m) => m.iter().map(|(k, _)| k.as_str()).collect(), _ => return bad("json", format!("the result is not an object: {}", text)) };
	let mut accepted = 0;
	match &native {
		Verdict::Ok(v) => {
			let got = (|| -> Result<Verified, String> {
				let rrs = match j.get("verified_rrs")? { J::List(l) => l.iter().map(decode).collect::<Result<Vec<_>, _>>()?, v => return Err(format!("{:?} instead of records", v)) };
				Ok(Verified { rrs, from: j.num("valid_from")?, expires: j.num("expires")?, ttl: j.num("max_cache_ttl")? as u32 })
			})();
			let got = match got { Ok(g) => g, Err(e) => return bad("json", format!("{} in {}", e, text.chars().take(600).collect::<String>())) };
			if keys.contains(&"error") { return bad("json", "an error although there are verified records".into()); }
			if got != *v { return bad("differs", format!("JSON says {} but it is {}", show(&Verdict::Ok(got)), show(&native))); }
			accepted = got.rrs.len();
			for ((n, t), set) in sets(&got.rrs) {
				if let Err(m) = w.authentic(&n, t, &set) { return bad("forged", m); }
			}
			if provable && !tampered {
				let set = sets(&got.rrs);
				for (n, t, d) in truth(&w, 0, &steps) {
					if !set.get(&(n.clone(), t)).map(|s| s.contains(&d)).unwrap_or(false) { return bad("incomplete", format!("{} {} is missing from {}", n.s(), ty_str(t), text.chars().take(600).collect::<String>())); }
				}
				ctx.probe("proved");
			}
		},
		_ => {
			if keys != ["error"] || j.text("error").is_err() { return bad("differs", format!("verification fails with {} but the result is {}", show(&native), text.chars().take(600).collect::<String>())); }
			if provable && !tampered { return bad("incomplete", format!("the proof of {} {} is {}", qn.s(), ty_str(qt), show(&native))); }
		},
	}
	// Every record can be shown, whether or not it was accepted.
	if let Ok(Ok(rrs)) = guard(|| parse_rr_stream(&proof)) {
		if let Some(recs) = parse_stream(&proof) {
			for (rr, rec) in rrs.iter().zip(recs.iter()) {
				let t = match guard(|| rr.json()) { Err(p) => return bad("panic", p), Ok(t) => t };
				let d = match parse_json(&t).and_then(|j| decode(&j)) { Ok(d) => d, Err(e) => return bad("json", format!("a {} record is {} ({})", ty_str(rec.ty), t.chars().take(600).collect::<String>(), e)) };
				// The crate spells names in lower case.
				let low = |d: &[u8]| if [A, AAAA, TXT, TLSA, DNSKEY, DS].contains(&rec.ty) { d.to_vec() } else { d.to_ascii_lowercase() };
				let m = rec.meaning();
				// A type bitmap can be written in many ways by somebody who wants to.
				if [NSEC, NSEC3].contains(&rec.ty) && (tampered || !honest) { continue; }
				if (d.0, d.1, low(&d.2)) != (m.0, m.1, low(&m.2)) { return bad("json", format!("{} {} {} became {}", rec.owner.s(), ty_str(rec.ty), hex(&rec.rdata), t.chars().take(600).collect::<String>())); }
			}
		}
	}
	ctx.state(format!("{} {} {} {} {:?}", accepted, qn.len(), ty_str(qt), text.contains("error"), ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes());
	Ok(())
}

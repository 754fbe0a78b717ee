//! A few signed zones, just enough to demonstrate things with.
#![allow(dead_code, unused)]
use dnssec_prover::query::{ProofBuilder, QueryBuf};
use dnssec_prover::rr::*;
use dnssec_prover::ser::*;
use dnssec_prover::validation::*;
use ring::digest;
use ring::signature::{Ed25519KeyPair, KeyPair};

pub fn n(s: &str) -> Name { s.try_into().expect("name") }
pub fn wire(s: &str) -> Vec<u8> {
	let mut r = Vec::new();
	for l in s.split('.').filter(|l| !l.is_empty()) { r.push(l.len() as u8); r.extend_from_slice(l.as_bytes()); }
	r.push(0);
	r
}
pub struct Zone { pub name: &'static str, pub key: Ed25519KeyPair, pub flags: u16 }
pub const INC: u32 = 1_700_000_000;
pub const EXP: u32 = 1_800_000_000;
impl Zone {
	pub fn new(name: &'static str, seed: u8) -> Zone { Self::from_seed(name, [seed; 32]) }
	pub fn from_seed(name: &'static str, seed: [u8; 32]) -> Zone { Zone { name, key: Ed25519KeyPair::from_seed_unchecked(&seed).unwrap(), flags: 257 } }
	/// A different key with the same tag.
	pub fn collide(&self, name: &'static str) -> Zone {
		for i in 1u64.. {
			let mut seed = [77; 32];
			seed[..8].copy_from_slice(&i.to_be_bytes());
			let mut z = Zone::from_seed(name, seed);
			z.flags = self.flags;
			if z.dnskey().key_tag() == self.dnskey().key_tag() { return z; }
		}
		unreachable!()
	}
	pub fn dnskey(&self) -> DnsKey {
		DnsKey { name: n(self.name), flags: self.flags, protocol: 3, alg: 15, pubkey: self.key.public_key().as_ref().to_vec() }
	}
	pub fn ds(&self) -> DS {
		let k = self.dnskey();
		let mut d = wire(self.name);
		d.extend(k.flags.to_be_bytes());
		d.extend([k.protocol, k.alg]);
		d.extend(&k.pubkey);
		DS { name: n(self.name), key_tag: k.key_tag(), alg: 15, digest_type: 2, digest: digest::digest(&digest::SHA256, &d).as_ref().to_vec() }
	}
	/// Signs a set as this zone, with all fields as given.
	pub fn sign_as(&self, set: &[RR], source: &str, labels: u8, inc: u32, exp: u32, ttl: u32) -> RR {
		let mut s = RRSig { name: set[0].name().clone(), ty: Record::ty(&set[0]), alg: 15, labels, orig_ttl: ttl, expiration: exp, inception: inc,
			key_tag: self.dnskey().key_tag(), key_name: n(self.name), signature: Vec::new() };
		let mut d = Vec::new();
		d.extend(s.ty.to_be_bytes());
		d.extend([s.alg, s.labels]);
		d.extend(ttl.to_be_bytes());
		d.extend(exp.to_be_bytes());
		d.extend(inc.to_be_bytes());
		d.extend(s.key_tag.to_be_bytes());
		d.extend(wire(self.name));
		let mut rd: Vec<Vec<u8>> = set.iter().map(|r| { let mut b = Vec::new(); Record::write_u16_len_prefixed_data(r, &mut b); b }).collect();
		rd.sort_by(|a, b| a[2..].cmp(&b[2..]));
		rd.dedup();
		for r in rd {
			d.extend(wire(source));
			d.extend(s.ty.to_be_bytes());
			d.extend([0, 1]);
			d.extend(ttl.to_be_bytes());
			d.extend(r);
		}
		s.signature = self.key.sign(&d).as_ref().to_vec();
		RR::RRSig(s)
	}
	pub fn sign(&self, set: &[RR]) -> RR {
		let o = set[0].name().as_str().to_string();
		let l = set[0].name().labels() - o.starts_with("*.") as u8;
		self.sign_as(set, &o, l, INC, EXP, 3600)
	}
	/// The set with its signature.
	pub fn signed(&self, set: Vec<RR>) -> Vec<RR> { let s = self.sign(&set); let mut r = set; r.push(s); r }
	pub fn keys(&self) -> Vec<RR> { self.signed(vec![RR::DnsKey(self.dnskey())]) }
	pub fn delegate(&self, to: &Zone) -> Vec<RR> { self.signed(vec![RR::DS(to.ds())]) }
}
pub fn txt(name: &str, s: &str) -> RR { RR::Txt(Txt { name: n(name), data: s.as_bytes().to_vec() }) }
pub fn a(name: &str, last: u8) -> RR { RR::A(A { name: n(name), address: [10, 0, 0, last] }) }
pub fn cname(name: &str, to: &str) -> RR { RR::CName(CName { name: n(name), canonical_name: n(to) }) }
pub fn dname(name: &str, to: &str) -> RR { RR::DName(DName { name: n(name), delegation_name: n(to) }) }
pub fn nsec(name: &str, next: &str, types: &[u16]) -> RR { RR::NSec(NSec { name: n(name), next_name: n(next), types: NSecTypeMask::from_types(types) }) }
/// The hash of a name in NSEC3 records.
pub fn h3(name: &str, salt: &[u8], iterations: u16) -> Vec<u8> {
	let mut d = wire(name);
	d.extend(salt);
	let mut h = digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, &d).as_ref().to_vec();
	for _ in 0..iterations { h.extend(salt); h = digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, &h).as_ref().to_vec(); }
	h
}
pub fn b32(d: &[u8]) -> String {
	let (mut o, mut acc, mut bits) = (String::new(), 0u32, 0);
	for b in d {
		acc = acc << 8 | *b as u32;
		bits += 8;
		while bits >= 5 { bits -= 5; o.push(b"0123456789abcdefghijklmnopqrstuv"[(acc >> bits) as usize & 31] as char); }
	}
	o
}
/// The hash shifted by some (small) amount.
pub fn shift(h: &[u8], by: i8) -> Vec<u8> { let mut h = h.to_vec(); let l = h.len() - 2; h[l] = (h[l] as i16 + by as i16).clamp(0, 255) as u8; h }
pub fn nsec3(zone: &str, from: &[u8], to: &[u8], salt: &[u8], hash_iterations: u16, flags: u8, hash_algo: u8) -> RR {
	RR::NSec3(NSec3 { name: n(&format!("{}.{}", b32(from), zone)), hash_algo, flags, hash_iterations, salt: salt.to_vec(), next_name_hash: to.to_vec(),
		types: NSecTypeMask::from_types(&[1, 16, 46]) })
}
/// The wildcard's set as it appears at another name.
pub fn expand(z: &Zone, wild: &str, set: Vec<RR>) -> Vec<RR> {
	let labels = n(wild).labels() - 1;
	let s = z.sign_as(&set, wild, labels, INC, EXP, 3600);
	let mut r = set;
	r.push(s);
	r
}
#[cfg(dnssec_sim)]
static ANCHORS: std::sync::Mutex<Vec<(u16, u8, u8, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
/// Makes the given root zone the one to trust.
#[cfg(dnssec_sim)]
pub fn trust(root: &Zone) {
	use dnssec_prover::sim::*;
	let d = root.ds();
	*ANCHORS.lock().unwrap() = vec![(d.key_tag, d.alg, d.digest_type, d.digest)];
	fn anchors() -> Vec<(u16, u8, u8, Vec<u8>)> { ANCHORS.lock().unwrap().clone() }
	static ONCE: std::sync::Once = std::sync::Once::new();
	ONCE.call_once(|| install(Hooks { trust_anchors: anchors, on_signature_check: || COUNT.with(|c| c.set(c.get() + 1)), on_hash: || HASHES.with(|c| c.set(c.get() + 1)),
		connect: |_| unimplemented!(), read: |_, _| unimplemented!(), write: |_, _| unimplemented!(), start_connect: |_| unimplemented!(),
		poll_connect: |_, _| unimplemented!(), poll_read: |_, _, _| unimplemented!(), poll_write: |_, _, _| unimplemented!(),
		poll_accept: |_, _| unimplemented!(), shutdown: |_| unimplemented!(), close: |_| unimplemented!() }));
}
thread_local! { pub static COUNT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; pub static HASHES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub fn stream(parts: Vec<Vec<RR>>) -> Vec<RR> { parts.into_iter().flatten().collect() }
pub fn accepts(s: &[RR]) -> bool { verify_rr_stream(s).is_ok() }
/// Whether a record is among the accepted ones.
pub fn accepts_rr(s: &[RR], r: &RR) -> bool { verify_rr_stream(s).map(|v| v.verified_rrs.iter().any(|x| *x == r)).unwrap_or(false) }
pub fn bytes(s: &[RR]) -> Vec<u8> { let mut o = Vec::new(); for r in s { write_rr(r, 3600, &mut o); } o }

pub fn qbuf(b: &[u8]) -> QueryBuf { let mut q = QueryBuf::new_zeroed(b.len() as u16); q.copy_from_slice(b); q }
/// A response to a question for `name` and `ty` with the given answers and authorities, each with its TTL.
pub fn response(name: &str, ty: u16, ans: &[(RR, u32)], auth: &[(RR, u32)]) -> Vec<u8> {
	let mut m = vec![0, 0, 0x81, 0xa0, 0, 1];
	m.extend((ans.len() as u16).to_be_bytes());
	m.extend((auth.len() as u16).to_be_bytes());
	m.extend([0, 0]);
	m.extend(wire(name));
	m.extend(ty.to_be_bytes());
	m.extend([0, 1]);
	for (r, t) in ans.iter().chain(auth) { write_rr(r, *t, &mut m); }
	m
}
/// Name and type a query asks for.
pub fn asked(q: &[u8]) -> (String, u16) {
	let (mut p, mut s) = (12, String::new());
	while q[p] != 0 { let l = q[p] as usize; s += std::str::from_utf8(&q[p + 1..p + 1 + l]).unwrap(); s += "."; p += 1 + l; }
	if s.is_empty() { s = ".".into(); }
	(s, u16::from_be_bytes([q[p + 1], q[p + 2]]))
}
#[macro_export]
macro_rules! check { ($c: expr, $($m: tt)*) => { if !$c { println!($($m)*); std::process::exit(1); } } }

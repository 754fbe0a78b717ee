//! Deterministic signers for every algorithm the crate supports.

use crate::dns::*;
use crate::keytable;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub enum Secret {
	Ed(ring::signature::Ed25519KeyPair),
	Ec { curve: usize, d: Big },
	Rsa(ring::signature::RsaKeyPair, bool), RsaOther(RsaKey, bool),
	/// An algorithm nobody implements: "signatures" are a hash.
	Unknown,
}

pub struct Key { pub id: u32, pub alg: u8, pub pk: Vec<u8>, pub secret: Secret }

/// A key as it appears in a zone.
#[derive(Clone)]
pub struct ZKey { pub key: Rc<Key>, pub flags: u16, pub proto: u8 }
impl ZKey {
	pub fn rdata(&self) -> Vec<u8> { dnskey_rdata(self.flags, self.proto, self.key.alg, &self.key.pk) }
	pub fn tag(&self) -> u16 { key_tag(&self.rdata()) }
	pub fn ds(&self, zone: &Nm, digest_type: u8) -> Vec<u8> {
		let mut d = self.tag().to_be_bytes().to_vec();
		d.push(self.key.alg);
		d.push(digest_type);
		let mut inp = zone.wire();
		inp.extend_from_slice(&self.rdata());
		d.extend_from_slice(&match digest_type {
			1 => sha1(&inp), 2 => sha256(&inp), 4 => sha384(&inp), _ => sha256(&inp)[..20].to_vec(),
		});
		d
	}
}

// Little-endian limbs; six are enough for P-384.
pub type Big = [u64; 6];
fn big(b: &[u8]) -> Big {
	let mut r = [0; 6];
	for (i, c) in b.iter().rev().enumerate() { r[i / 8] |= (*c as u64) << (8 * (i % 8)); }
	r
}
fn big_bytes(b: &Big, len: usize) -> Vec<u8> { (0..len).rev().map(|i| (b[i / 8] >> (8 * (i % 8))) as u8).collect() }
fn geq(a: &Big, b: &Big) -> bool {
	for i in (0..6).rev() { if a[i] != b[i] { return a[i] > b[i]; } }
	true
}
fn sub(a: &Big, b: &Big) -> Big {
	let mut r = [0; 6];
	let mut br = false;
	for i in 0..6 {
		let (x, b1) = a[i].overflowing_sub(b[i]);
		let (x, b2) = x.overflowing_sub(br as u64);
		r[i] = x;
		br = b1 || b2;
	}
	r
}
fn add_mod(a: &Big, b: &Big, n: &Big) -> Big {
	let mut r = [0; 6];
	let mut c = false;
	for i in 0..6 {
		let (x, c1) = a[i].overflowing_add(b[i]);
		let (x, c2) = x.overflowing_add(c as u64);
		r[i] = x;
		c = c1 || c2;
	}
	if c || geq(&r, n) { sub(&r, n) } else { r }
}
fn mul_mod(a: &Big, b: &Big, n: &Big) -> Big {
	let mut r = [0; 6];
	for i in (0..384).rev() {
		r = add_mod(&r, &r, n);
		if (b[i / 64] >> (i % 64)) & 1 == 1 { r = add_mod(&r, a, n); }
	}
	r
}
const N: [&str; 2] = [
	"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
	"ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
];
const GX: [&str; 2] = [
	"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
	"aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
];

// Numbers of any size, for RSA keys ring would not sign with.
fn limbs(b: &[u8]) -> Vec<u64> {
	let mut r = vec![0; b.len().div_ceil(8)];
	for (i, c) in b.iter().rev().enumerate() { r[i / 8] |= (*c as u64) << (8 * (i % 8)); }
	r
}
fn bytes(a: &[u64]) -> Vec<u8> { a.iter().rev().flat_map(|l| l.to_be_bytes()).collect() }
fn mul(a: &[u64], b: &[u64]) -> Vec<u64> {
	let mut r = vec![0u64; a.len() + b.len()];
	for i in 0..a.len() {
		let mut c = 0u128;
		for j in 0..b.len() {
			c += r[i + j] as u128 + a[i] as u128 * b[j] as u128;
			r[i + j] = c as u64;
			c >>= 64;
		}
		r[i + b.len()] = c as u64;
	}
	r
}
fn less(a: &[u64], b: &[u64]) -> bool {
	for i in (0..a.len().max(b.len())).rev() {
		let (x, y) = (a.get(i).unwrap_or(&0), b.get(i).unwrap_or(&0));
		if x != y { return x < y; }
	}
	false
}
fn sub_from(a: &mut [u64], b: &[u64]) {
	let mut c = false;
	for i in 0..a.len() {
		let (x, c1) = a[i].overflowing_sub(*b.get(i).unwrap_or(&0));
		let (x, c2) = x.overflowing_sub(c as u64);
		a[i] = x;
		c = c1 || c2;
	}
}
/// The remainder, bit by bit.
fn rem(a: &[u64], n: &[u64]) -> Vec<u64> {
	let mut r = vec![0u64; n.len() + 1];
	for i in (0..a.len() * 64).rev() {
		for j in (0..r.len()).rev() { r[j] = r[j] << 1 | if j > 0 { r[j - 1] >> 63 } else { a[i / 64] >> (i % 64) & 1 }; }
		if !less(&r, n) { sub_from(&mut r, n); }
	}
	r.truncate(n.len());
	r
}
/// Exponentiation in Montgomery's representation.
fn pow_mod(a: &[u64], e: &[u64], n: &[u64]) -> Vec<u64> {
	let k = n.len();
	let mut inv = 1u64;
	for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(n[0].wrapping_mul(inv))); }
	let inv = inv.wrapping_neg();
	let mont = |a: &[u64], b: &[u64]| -> Vec<u64> {
		let mut t = mul(a, b);
		t.push(0);
		for i in 0..k {
			let m = t[i].wrapping_mul(inv);
			let mut c = 0u128;
			for j in 0..k {
				c += t[i + j] as u128 + m as u128 * n[j] as u128;
				t[i + j] = c as u64;
				c >>= 64;
			}
			let mut j = i + k;
			while c != 0 { c += t[j] as u128; t[j] = c as u64; c >>= 64; j += 1; }
		}
		let mut r = t[k..].to_vec();
		if !less(&r, n) { sub_from(&mut r, n); }
		r.truncate(k);
		r
	};
	let mut one = vec![0; k + 1];
	one[k] = 1;
	let one = rem(&one, n);
	let mut b = vec![0; k];
	b.extend_from_slice(a);
	let b = rem(&b, n);
	let mut r = one;
	for i in (0..e.len() * 64).rev() {
		r = mont(&r, &r);
		if e[i / 64] >> (i % 64) & 1 == 1 { r = mont(&r, &b); }
	}
	let mut o = vec![0; k];
	o[0] = 1;
	mont(&r, &o)
}
pub struct RsaKey { p: Vec<u64>, q: Vec<u64>, dp: Vec<u64>, dq: Vec<u64>, qinv: Vec<u64>, len: usize }
impl RsaKey {
	fn sign(&self, data: &[u8], sha512: bool) -> Vec<u8> {
		let (h, id): (Vec<u8>, &str) = if sha512 { (ring::digest::digest(&ring::digest::SHA512, data).as_ref().to_vec(), "3051300d060960864801650304020305000440") }
			else { (sha256(data), "3031300d060960864801650304020105000420") };
		let mut m = vec![0, 1];
		let t = [unhex(id), h].concat();
		m.resize(self.len - t.len() - 1, 0xff);
		m.push(0);
		m.extend(t);
		let m = limbs(&m);
		let (a, b) = (pow_mod(&rem(&m, &self.p), &self.dp, &self.p), pow_mod(&rem(&m, &self.q), &self.dq, &self.q));
		// Both put together again.
		let mut d = a;
		d.push(0);
		let b2 = rem(&b, &self.p);
		if less(&d, &b2) { let mut x = self.p.clone(); x.push(0); let mut c = 0u128; for i in 0..d.len() { c += d[i] as u128 + x[i] as u128; d[i] = c as u64; c >>= 64; } }
		sub_from(&mut d, &b2);
		let h = rem(&mul(&d, &self.qinv), &self.p);
		let mut s = mul(&h, &self.q);
		let mut c = 0u128;
		for i in 0..s.len() { c += s[i] as u128 + *b.get(i).unwrap_or(&0) as u128; s[i] = c as u64; c >>= 64; }
		let s = bytes(&s);
		let s = &s[s.iter().position(|x| *x != 0).unwrap_or(s.len())..];
		let mut out = vec![0; self.len - s.len()];
		out.extend_from_slice(s);
		out
	}
}

impl Key {
	/// Signs with a fixed nonce where the algorithm has one, so that signatures are a pure function
	/// of their input. None of these keys protect anything.
	fn sign_raw(&self, data: &[u8]) -> Vec<u8> {
		match &self.secret {
			Secret::Ed(k) => k.sign(data).as_ref().to_vec(),
			Secret::Ec { curve, d } => {
				let len = [32, 48][*curve];
				let n = big(&unhex(N[*curve]));
				let z = big(&if *curve == 0 { sha256(data) } else { sha384(data) });
				let z = if geq(&z, &n) { sub(&z, &n) } else { z };
				// With k = 1 the signature is r = x(G), s = z + r*d.
				let r = big(&unhex(GX[*curve]));
				let s = add_mod(&z, &mul_mod(&r, d, &n), &n);
				let mut out = big_bytes(&r, len);
				out.extend_from_slice(&big_bytes(&s, len));
				out
			},
			Secret::Rsa(k, sha512) => {
				let mut out = vec![0; k.public().modulus_len()];
				let alg: &dyn ring::signature::RsaEncoding = if *sha512 {
					&ring::signature::RSA_PKCS1_SHA512
				} else { &ring::signature::RSA_PKCS1_SHA256 };
				k.sign(alg, &ring::rand::SystemRandom::new(), data, &mut out).unwrap();
				out
			},
			Secret::RsaOther(k, sha512) => k.sign(data, *sha512),
			Secret::Unknown => sha256(data),
		}
	}
}

thread_local! {
	static KEYS: RefCell<HashMap<(u8, u32), Rc<Key>>> = RefCell::new(HashMap::new());
	static ED_PAIRS: RefCell<Option<Vec<(u32, u32)>>> = RefCell::new(None);
	static SIGS: RefCell<HashMap<(u8, u32, Vec<u8>), Vec<u8>>> = RefCell::new(HashMap::new());
}

fn ed_secret(n: u32) -> ring::signature::Ed25519KeyPair {
	let mut seed = [0x5a; 32];
	seed[..4].copy_from_slice(&n.to_be_bytes());
	ring::signature::Ed25519KeyPair::from_seed_unchecked(&seed).unwrap()
}
fn ed_pk(n: u32) -> Vec<u8> {
	use ring::signature::KeyPair;
	ed_secret(n).public_key().as_ref().to_vec()
}

/// Pairs of Ed25519 seeds whose DNSKEYs have the same key tag.
fn ed_pairs() -> Vec<(u32, u32)> {
	ED_PAIRS.with(|p| p.borrow_mut().get_or_insert_with(|| {
		let mut seen: HashMap<u16, u32> = HashMap::new();
		let mut r = Vec::new();
		for n in 0.. {
			let t = key_tag(&dnskey_rdata(256, 3, 15, &ed_pk(n)));
			match seen.remove(&t) {
				Some(m) => r.push((m, n)),
				None => { seen.insert(t, n); },
			}
			if r.len() >= 24 { break; }
		}
		r
	}).clone())
}

/// How many distinct keys there are per algorithm. Keys 2i and 2i+1 have the same key tag (given
/// the same flags), except for RSA.
pub fn key_count(alg: u8) -> u32 {
	match alg { 15 => 48, _ => 16 }
}

/// A key of another algorithm with the same tag (given the same flags, mostly), if we know any.
pub fn twin(k: &Key, alg: u8) -> Option<Rc<Key>> {
	if alg == k.alg { return None; }
	match alg {
		15 => keytable::CROSS.iter().position(|c| c.0 == k.alg && c.1 == k.id).map(|i| key(15, TWINS + 2 * i as u32)),
		// Nobody checks whether these are good for anything.
		16 => Some(key(16, TWINS + 2 * key_tag(&dnskey_rdata(257, 3, k.alg, &k.pk)) as u32)),
		_ => None,
	}
}
const TWINS: u32 = 0x10000;

pub fn key(alg: u8, id: u32) -> Rc<Key> {
	let id = if id >= TWINS && [15, 16].contains(&alg) { id } else { id % key_count(alg) };
	if let Some(k) = KEYS.with(|k| k.borrow().get(&(alg, id)).cloned()) { return k; }
	let (pk, secret) = match alg {
		15 if id >= TWINS => {
			let (i, evil) = ((id - TWINS) / 2, id % 2 == 1);
			let n = if evil { 0xff00_0000 + i } else { keytable::CROSS[i as usize].2 };
			(ed_pk(n), Secret::Ed(ed_secret(n)))
		},
		16 if id >= TWINS => {
			let (tag, evil) = (((id - TWINS) / 2) as u16, id % 2 == 1);
			let mut pk = sha256(&[16, evil as u8, 0]);
			for w in 0..=u16::MAX {
				pk[30..].copy_from_slice(&w.to_be_bytes());
				if key_tag(&dnskey_rdata(257, 3, 16, &pk)) == tag { break; }
			}
			(pk, Secret::Unknown)
		},
		15 => {
			let p = ed_pairs()[id as usize / 2];
			let n = if id % 2 == 0 { p.0 } else { p.1 };
			(ed_pk(n), Secret::Ed(ed_secret(n)))
		},
		13 | 14 => {
			let (d, pk) = if alg == 13 { keytable::P256[id as usize] } else { keytable::P384[id as usize] };
			(unhex(pk), Secret::Ec { curve: alg as usize - 13, d: big(&unhex(d)) })
		},
		8 | 10 if id >= 6 => {
			let k = &keytable::RSA_OTHER[id as usize - 6];
			let (p, q) = (limbs(&unhex(k.0)), limbs(&unhex(k.1)));
			let e = unhex(k.5);
			let n = bytes(&mul(&p, &q));
			let n: Vec<u8> = n.into_iter().skip_while(|b| *b == 0).collect();
			let mut pk = if id == 9 || id == 10 { vec![0, 0, e.len() as u8] } else { vec![e.len() as u8] };
			pk.extend_from_slice(&e);
			pk.extend_from_slice(&n);
			let k = RsaKey { p, q, dp: limbs(&unhex(k.2)), dq: limbs(&unhex(k.3)), qinv: limbs(&unhex(k.4)), len: n.len() };
			(pk, Secret::RsaOther(k, alg == 10))
		},
		8 | 10 => {
			let (p8, n, e) = keytable::RSA[id as usize];
			let (n, e) = (unhex(n), unhex(e));
			// Exponents may have their length written as they would if it was more than 255 bytes.
			let mut pk = if id == 4 { vec![0, 0, e.len() as u8] } else { vec![e.len() as u8] };
			pk.extend_from_slice(&e);
			pk.extend_from_slice(&n);
			(pk, Secret::Rsa(ring::signature::RsaKeyPair::from_pkcs8(&unhex(p8)).unwrap(), alg == 10))
		},
		_ => (sha256(&[alg, id as u8]), Secret::Unknown),
	};
	let k = Rc::new(Key { id, alg, pk, secret });
	KEYS.with(|m| m.borrow_mut().insert((alg, id), k.clone()));
	k
}

/// Signs the set, filling in the algorithm, tag and signature.
#[allow(clippy::too_many_arguments)]
pub fn sign(k: &ZKey, signer: &Nm, owner: &Nm, ty: u16, labels: u8, ottl: u32, inc: u32, exp: u32, rdatas: &[Vec<u8>]) -> Sig {
	let mut s = Sig { ty, alg: k.key.alg, labels, ottl, exp, inc, tag: k.tag(), signer: signer.clone(), sig: Vec::new() };
	let data = signed_data(&s, owner, rdatas);
	let ck = (k.key.alg, k.key.id, sha256(&data));
	s.sig = match SIGS.with(|m| m.borrow().get(&ck).cloned()) {
		Some(v) => v,
		None => {
			let v = k.key.sign_raw(&data);
			SIGS.with(|m| { let mut m = m.borrow_mut(); if m.len() > 50_000 { m.clear(); } m.insert(ck, v.clone()); });
			v
		},
	};
	s
}

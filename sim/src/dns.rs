//! An implementation of the parts of the DNS the simulation needs which shares no code with the
//! crate under test.

use std::cmp::Ordering;
use std::fmt;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const TXT: u16 = 16;
pub const AAAA: u16 = 28;
pub const DNAME: u16 = 39;
pub const DS: u16 = 43;
pub const RRSIG: u16 = 46;
pub const NSEC: u16 = 47;
pub const DNSKEY: u16 = 48;
pub const NSEC3: u16 = 50;
pub const TLSA: u16 = 52;

pub fn ty_str(ty: u16) -> String {
	match ty {
		A => "A".into(), NS => "NS".into(), CNAME => "CNAME".into(), TXT => "TXT".into(),
		AAAA => "AAAA".into(), DNAME => "DNAME".into(), DS => "DS".into(), RRSIG => "RRSIG".into(),
		NSEC => "NSEC".into(), DNSKEY => "DNSKEY".into(), NSEC3 => "NSEC3".into(), TLSA => "TLSA".into(),
		_ => format!("TYPE{}", ty),
	}
}

/// A domain name: lower case labels, the most specific one first. Ordered as in RFC 4034 6.1.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Nm(pub Vec<Vec<u8>>);

impl Ord for Nm {
	fn cmp(&self, o: &Nm) -> Ordering {
		let mut a = self.0.iter().rev();
		let mut b = o.0.iter().rev();
		loop {
			match (a.next(), b.next()) {
				(None, None) => return Ordering::Equal,
				(None, Some(_)) => return Ordering::Less,
				(Some(_), None) => return Ordering::Greater,
				(Some(x), Some(y)) => { let c = x.cmp(y); if c != Ordering::Equal { return c; } },
			}
		}
	}
}
impl PartialOrd for Nm { fn partial_cmp(&self, o: &Nm) -> Option<Ordering> { Some(self.cmp(o)) } }
impl fmt::Debug for Nm { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.s()) } }

impl Nm {
	pub fn root() -> Nm { Nm(Vec::new()) }
	pub fn p(s: &str) -> Nm {
		if s == "." { return Nm::root(); }
		Nm(s.trim_end_matches('.').split('.').map(|l| l.to_ascii_lowercase().into_bytes()).collect())
	}
	pub fn s(&self) -> String {
		if self.0.is_empty() { return ".".into(); }
		let mut r = String::new();
		for l in &self.0 { r.push_str(&String::from_utf8_lossy(l)); r.push('.'); }
		r
	}
	pub fn child(&self, l: &str) -> Nm {
		let mut v = vec![l.to_ascii_lowercase().into_bytes()];
		v.extend_from_slice(&self.0);
		Nm(v)
	}
	pub fn join(prefix: &[Vec<u8>], sfx: &Nm) -> Nm {
		let mut v = prefix.to_vec();
		v.extend_from_slice(&sfx.0);
		Nm(v)
	}
	pub fn parent(&self) -> Option<Nm> { if self.0.is_empty() { None } else { Some(Nm(self.0[1..].to_vec())) } }
	/// Whether this is `o` or below it.
	pub fn under(&self, o: &Nm) -> bool {
		self.0.len() >= o.0.len() && self.0[self.0.len() - o.0.len()..] == o.0[..]
	}
	pub fn trailing(&self, n: usize) -> Nm { Nm(self.0[self.0.len() - n..].to_vec()) }
	pub fn len(&self) -> usize { self.0.len() }
	pub fn is_wild(&self) -> bool { self.0.first().map(|l| l == b"*").unwrap_or(false) }
	/// The value of the labels field of an RRSIG covering a set at this owner.
	pub fn sig_labels(&self) -> u8 { (self.0.len() - self.is_wild() as usize) as u8 }
	pub fn wire(&self) -> Vec<u8> {
		let mut r = Vec::new();
		for l in &self.0 { r.push(l.len() as u8); r.extend_from_slice(l); }
		r.push(0);
		r
	}
	pub fn wire_len(&self) -> usize { self.0.iter().map(|l| l.len() + 1).sum::<usize>() + 1 }
}

/// A record, with canonical (uncompressed, lower case) data.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rec { pub owner: Nm, pub ty: u16, pub ttl: u32, pub rdata: Vec<u8> }
impl fmt::Debug for Rec {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{} {} {} {}", self.owner.s(), self.ttl, ty_str(self.ty), rdata_str(self.ty, &self.rdata))
	}
}
impl Rec {
	/// The uncompressed wire form, which is what RFC 9102 proofs are made of.
	pub fn wire(&self) -> Vec<u8> {
		let mut r = self.owner.wire();
		r.extend_from_slice(&self.ty.to_be_bytes());
		r.extend_from_slice(&1u16.to_be_bytes());
		r.extend_from_slice(&self.ttl.to_be_bytes());
		r.extend_from_slice(&(self.rdata.len() as u16).to_be_bytes());
		r.extend_from_slice(&self.rdata);
		r
	}
	/// What identifies the record to someone reading it through the crate's types.
	pub fn meaning(&self) -> (Nm, u16, Vec<u8>) { (self.owner.clone(), self.ty, meaning(self.ty, &self.rdata)) }
}

/// TXT records are exposed as the concatenation of their strings, everything else byte for byte.
pub fn meaning(ty: u16, rdata: &[u8]) -> Vec<u8> {
	if ty != TXT { return rdata.to_vec(); }
	let mut r = Vec::new();
	let mut p = 0;
	while p < rdata.len() {
		let l = rdata[p] as usize;
		r.extend_from_slice(&rdata[p + 1..(p + 1 + l).min(rdata.len())]);
		p += 1 + l;
	}
	r
}

pub fn rdata_str(ty: u16, d: &[u8]) -> String {
	match ty {
		CNAME | DNAME | NS => read_name(d, 0).map(|(n, _)| n.s()).unwrap_or(hex(d)),
		TXT => format!("{:?}", String::from_utf8_lossy(&meaning(ty, d)).chars().take(24).collect::<String>()),
		RRSIG => match Sig::parse(d) {
			Some(s) => format!("{} alg={} labels={} ttl={} exp={} inc={} tag={} signer={} sig={}..", ty_str(s.ty), s.alg,
				s.labels, s.ottl, s.exp, s.inc, s.tag, s.signer.s(), hex(&s.sig[..s.sig.len().min(4)])),
			None => hex(d),
		},
		DNSKEY if d.len() >= 4 => format!("flags={} proto={} alg={} tag={}",
			u16::from_be_bytes([d[0], d[1]]), d[2], d[3], key_tag(d)),
		DS if d.len() >= 4 => format!("tag={} alg={} digest={} {}..",
			u16::from_be_bytes([d[0], d[1]]), d[2], d[3], hex(&d[4..d.len().min(8)])),
		NSEC => match read_name(d, 0) {
			Some((n, p)) => format!("{} types={:?}", n.s(), bitmap_types(&d[p..])),
			None => hex(d),
		},
		_ => if d.len() > 24 { format!("{}..({} bytes)", hex(&d[..24]), d.len()) } else { hex(d) },
	}
}

pub fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{:02x}", b)).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The fields of an RRSIG.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sig {
	pub ty: u16, pub alg: u8, pub labels: u8, pub ottl: u32, pub exp: u32, pub inc: u32, pub tag: u16,
	pub signer: Nm, pub sig: Vec<u8>,
}
impl Sig {
	pub fn head(&self) -> Vec<u8> {
		let mut r = Vec::with_capacity(64);
		r.extend_from_slice(&self.ty.to_be_bytes());
		r.push(self.alg);
		r.push(self.labels);
		r.extend_from_slice(&self.ottl.to_be_bytes());
		r.extend_from_slice(&self.exp.to_be_bytes());
		r.extend_from_slice(&self.inc.to_be_bytes());
		r.extend_from_slice(&self.tag.to_be_bytes());
		r.extend_from_slice(&self.signer.wire());
		r
	}
	pub fn rdata(&self) -> Vec<u8> { let mut r = self.head(); r.extend_from_slice(&self.sig); r }
	pub fn parse(d: &[u8]) -> Option<Sig> {
		if d.len() < 19 { return None; }
		let u16a = |p: usize| u16::from_be_bytes([d[p], d[p + 1]]);
		let u32a = |p: usize| u32::from_be_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]);
		let (signer, p) = read_name(d, 18)?;
		Some(Sig { ty: u16a(0), alg: d[2], labels: d[3], ottl: u32a(4), exp: u32a(8), inc: u32a(12), tag: u16a(16),
			signer, sig: d[p..].to_vec() })
	}
}

/// The bytes a signature covers, RFC 4034 3.1.8.1.
pub fn signed_data(sig: &Sig, owner: &Nm, rdatas: &[Vec<u8>]) -> Vec<u8> {
	let mut r = sig.head();
	let mut sorted = rdatas.to_vec();
	sorted.sort();
	sorted.dedup();
	let eff = if (sig.labels as usize) < owner.len() && !(owner.is_wild() && sig.labels as usize + 1 == owner.len()) {
		owner.trailing(sig.labels as usize).child("*")
	} else { owner.clone() };
	for d in sorted {
		r.extend_from_slice(&eff.wire());
		r.extend_from_slice(&sig.ty.to_be_bytes());
		r.extend_from_slice(&1u16.to_be_bytes());
		r.extend_from_slice(&sig.ottl.to_be_bytes());
		r.extend_from_slice(&(d.len() as u16).to_be_bytes());
		r.extend_from_slice(&d);
	}
	r
}

/// RFC 4034 appendix B.
pub fn key_tag(rdata: &[u8]) -> u16 {
	let mut ac: u32 = 0;
	for (i, b) in rdata.iter().enumerate() { ac += if i & 1 == 1 { *b as u32 } else { (*b as u32) << 8 }; }
	ac += (ac >> 16) & 0xffff;
	ac as u16
}

pub fn dnskey_rdata(flags: u16, proto: u8, alg: u8, pk: &[u8]) -> Vec<u8> {
	let mut r = flags.to_be_bytes().to_vec();
	r.push(proto);
	r.push(alg);
	r.extend_from_slice(pk);
	r
}

pub fn txt_rdata(strings: &[&[u8]]) -> Vec<u8> {
	let mut r = Vec::new();
	for s in strings { r.push(s.len() as u8); r.extend_from_slice(s); }
	r
}
/// The common encoding, with every string but the last full.
pub fn txt_simple(data: &[u8]) -> Vec<u8> {
	if data.is_empty() { return vec![0]; }
	let c: Vec<&[u8]> = data.chunks(255).collect();
	txt_rdata(&c)
}

pub fn bitmap(types: &[u16]) -> Vec<u8> {
	let mut r = Vec::new();
	for win in 0..256u32 {
		let mut bits = [0u8; 32];
		let mut len = 0;
		for t in types {
			if (*t as u32) >> 8 == win {
				let lo = (*t & 0xff) as usize;
				bits[lo / 8] |= 0x80 >> (lo % 8);
				len = len.max(lo / 8 + 1);
			}
		}
		if len > 0 { r.push(win as u8); r.push(len as u8); r.extend_from_slice(&bits[..len]); }
	}
	r
}
pub fn bitmap_types(mut d: &[u8]) -> Vec<u16> {
	let mut r = Vec::new();
	while d.len() >= 2 {
		let (win, len) = (d[0] as u16, d[1] as usize);
		if d.len() < 2 + len { break; }
		for i in 0..len { for b in 0..8 {
			if d[2 + i] & (0x80 >> b) != 0 { r.push((win << 8) | (i as u16 * 8 + b)); }
		} }
		d = &d[2 + len..];
	}
	r
}

/// Reads a possibly compressed name, returning it and the position after it.
pub fn read_name(d: &[u8], mut p: usize) -> Option<(Nm, usize)> {
	let mut labels = Vec::new();
	let mut end = None;
	let mut hops = 0;
	loop {
		let l = *d.get(p)? as usize;
		if l == 0 { return Some((Nm(labels), end.unwrap_or(p + 1))); }
		if l >= 0xc0 {
			let t = ((l & 0x3f) << 8) | *d.get(p + 1)? as usize;
			end = end.or(Some(p + 2));
			hops += 1;
			if hops > 200 { return None; }
			p = t;
			continue;
		}
		if l > 63 { return None; }
		labels.push(d.get(p + 1..p + 1 + l)?.to_ascii_lowercase());
		if labels.len() > 130 { return None; }
		p += 1 + l;
	}
}

/// Parses a series of uncompressed records, as found in a proof.
pub fn parse_stream(d: &[u8]) -> Option<Vec<Rec>> {
	let mut p = 0;
	let mut r = Vec::new();
	while p < d.len() {
		let (owner, q) = read_name(d, p)?;
		if d.len() < q + 10 { return None; }
		let ty = u16::from_be_bytes([d[q], d[q + 1]]);
		if d[q + 2..q + 4] != [0, 1] { return None; }
		let ttl = u32::from_be_bytes([d[q + 4], d[q + 5], d[q + 6], d[q + 7]]);
		let len = u16::from_be_bytes([d[q + 8], d[q + 9]]) as usize;
		let rdata = d.get(q + 10..q + 10 + len)?.to_vec();
		r.push(Rec { owner, ty, ttl, rdata });
		p = q + 10 + len;
	}
	Some(r)
}

pub fn base32hex(d: &[u8]) -> String {
	const AL: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
	let (mut acc, mut bits, mut r) = (0u32, 0, String::new());
	for b in d {
		acc = (acc << 8) | *b as u32;
		bits += 8;
		while bits >= 5 { bits -= 5; r.push(AL[((acc >> bits) & 31) as usize] as char); }
	}
	if bits > 0 { r.push(AL[((acc << (5 - bits)) & 31) as usize] as char); }
	r
}

pub fn sha1(d: &[u8]) -> Vec<u8> {
	ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, d).as_ref().to_vec()
}
pub fn sha256(d: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA256, d).as_ref().to_vec() }
pub fn sha384(d: &[u8]) -> Vec<u8> { ring::digest::digest(&ring::digest::SHA384, d).as_ref().to_vec() }

pub fn nsec3_hash(n: &Nm, salt: &[u8], iterations: u16) -> Vec<u8> {
	let mut h = n.wire();
	for _ in 0..=iterations as u32 { h.extend_from_slice(salt); h = sha1(&h); }
	h
}

/// Converts a record as exposed by the crate under test, reading its public fields only.
pub fn from_lib(rr: &dnssec_prover::rr::RR) -> (Nm, u16, Vec<u8>) {
	use dnssec_prover::rr::RR;
	let n = Nm::p(rr.name().as_str());
	match rr {
		RR::A(r) => (n, A, r.address.to_vec()),
		RR::AAAA(r) => (n, AAAA, r.address.to_vec()),
		RR::NS(r) => (n, NS, Nm::p(r.name_server.as_str()).wire()),
		RR::Txt(r) => (n, TXT, r.data.clone()),
		RR::TLSA(r) => {
			let mut d = vec![r.cert_usage, r.selector, r.data_ty];
			d.extend_from_slice(&r.data);
			(n, TLSA, d)
		},
		RR::CName(r) => (n, CNAME, Nm::p(r.canonical_name.as_str()).wire()),
		RR::DName(r) => (n, DNAME, Nm::p(r.delegation_name.as_str()).wire()),
		RR::DnsKey(r) => (n, DNSKEY, dnskey_rdata(r.flags, r.protocol, r.alg, &r.pubkey)),
		RR::DS(r) => {
			let mut d = r.key_tag.to_be_bytes().to_vec();
			d.push(r.alg);
			d.push(r.digest_type);
			d.extend_from_slice(&r.digest);
			(n, DS, d)
		},
		RR::RRSig(r) => (n, RRSIG, Sig { ty: r.ty, alg: r.alg, labels: r.labels, ottl: r.orig_ttl, exp: r.expiration,
			inc: r.inception, tag: r.key_tag, signer: Nm::p(r.key_name.as_str()), sig: r.signature.clone() }.rdata()),
		RR::NSec(_) => (n, NSEC, Vec::new()),
		RR::NSec3(_) => (n, NSEC3, Vec::new()),
	}
}

/// Builds a DNS message, optionally with compressed and oddly capitalised names.
pub struct MsgBuilder { pub buf: Vec<u8>, names: Vec<(Nm, usize, u8)>, pub compress: bool, pub caps: u8,
	/// Point to the last occurrence of a name, even if that is a pointer itself.
	pub chain: bool }
impl MsgBuilder {
	pub fn new(flags: u16, counts: [u16; 4], compress: bool, caps: u8) -> MsgBuilder {
		let mut buf = vec![0, 0];
		buf.extend_from_slice(&flags.to_be_bytes());
		for c in counts { buf.extend_from_slice(&c.to_be_bytes()); }
		MsgBuilder { buf, names: Vec::new(), compress, caps, chain: false }
	}
	pub fn name(&mut self, n: &Nm, may_compress: bool) {
		let mut l = &n.0[..];
		while !l.is_empty() {
			if may_compress && self.compress {
				if self.point_to(l) { return; }
			}
			if self.compress && self.buf.len() < 0x4000 && l.len() < 20 { self.names.push((Nm(l.to_vec()), self.buf.len(), 0)); }
			self.buf.push(l[0].len() as u8);
			for (i, c) in l[0].iter().enumerate() {
				let up = self.caps != 0 && (self.caps >> ((i + l.len()) % 8)) & 1 == 1;
				self.buf.push(if up { c.to_ascii_uppercase() } else { *c });
			}
			l = &l[1..];
		}
		if self.chain && may_compress {
			if self.point_to(l) { return; }
			if self.buf.len() < 0x4000 { self.names.push((Nm::root(), self.buf.len(), 0)); }
		}
		self.buf.push(0);
	}
	fn point_to(&mut self, l: &[Vec<u8>]) -> bool {
		let known = if self.chain { self.names.iter().rev().find(|(m, _, depth)| m.0 == l && *depth < 100) }
			else { self.names.iter().find(|(m, _, _)| m.0 == l) };
		if let Some((n, p, depth)) = known.cloned() {
			if self.chain && self.buf.len() < 0x4000 { self.names.push((n, self.buf.len(), depth + 1)); }
			self.buf.extend_from_slice(&(0xc000 | p as u16).to_be_bytes());
			return true;
		}
		false
	}
	pub fn question(&mut self, n: &Nm, ty: u16) {
		self.name(n, true);
		self.buf.extend_from_slice(&ty.to_be_bytes());
		self.buf.extend_from_slice(&1u16.to_be_bytes());
	}
	pub fn rec(&mut self, r: &Rec) {
		self.name(&r.owner, true);
		self.buf.extend_from_slice(&r.ty.to_be_bytes());
		self.buf.extend_from_slice(&1u16.to_be_bytes());
		self.buf.extend_from_slice(&r.ttl.to_be_bytes());
		let lp = self.buf.len();
		self.buf.extend_from_slice(&[0, 0]);
		match r.ty {
			CNAME | NS | DNAME => match read_name(&r.rdata, 0) {
				Some((n, p)) if p == r.rdata.len() => self.name(&n, r.ty != DNAME),
				_ => self.buf.extend_from_slice(&r.rdata),
			},
			_ => self.buf.extend_from_slice(&r.rdata),
		}
		let l = (self.buf.len() - lp - 2) as u16;
		self.buf[lp..lp + 2].copy_from_slice(&l.to_be_bytes());
	}
	pub fn opt(&mut self) { self.opt_padded(0) }
	/// With this many bytes of options, nothing or at least four.
	pub fn opt_padded(&mut self, n: usize) {
		self.buf.extend_from_slice(&[0, 0, 41, 4, 0xd0, 0, 0, 0x80, 0]);
		self.buf.extend_from_slice(&(n as u16).to_be_bytes());
		if n > 0 {
			self.buf.extend_from_slice(&[0, 12]);
			self.buf.extend_from_slice(&(n as u16 - 4).to_be_bytes());
			self.buf.resize(self.buf.len() + n - 4, 0);
		}
	}
}

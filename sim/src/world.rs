//! A simulated DNS: a tree of signed zones run by honest or evil operators, whose contents, keys and
//! signatures change from epoch to epoch, and an honest recursive resolver in front of it.

use crate::dns::*;
use crate::keys::*;
use crate::src::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Denial { Nsec, Nsec3 { salt: Vec<u8>, iters: u16, optout: bool } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Security {
	/// A chain of trust exists with algorithms the crate supports.
	Secure,
	/// Signed, but the parent has no DS.
	Island,
	/// Signed only with an algorithm or delegated only with a digest nobody supports.
	Unsupported,
	/// Not signed at all.
	Unsigned,
}

#[derive(Clone)]
pub struct RRset { pub ttl: u32, pub rdatas: Vec<Vec<u8>> }

#[derive(Clone)]
pub struct ZState {
	pub nodes: BTreeMap<Nm, BTreeMap<u16, RRset>>,
	pub published: Vec<ZKey>,
	/// Sign the DNSKEY set.
	pub ksks: Vec<ZKey>,
	/// Sign everything else.
	pub zsks: Vec<ZKey>,
	/// What the parent publishes. Empty for the root.
	pub ds: Vec<Vec<u8>>,
	/// Signed NSEC3 records with an unknown hash algorithm or unknown flags, covering arbitrary ranges.
	pub odd_denials: Vec<(Nm, Vec<u8>)>,
	/// While its parameters are being changed a zone has a second, complete chain of NSEC3 records.
	pub second: Option<(Vec<u8>, u16)>,
}

pub struct Zone {
	pub name: Nm, pub parent: Option<usize>, pub evil: bool, pub security: Security, pub denial: Denial,
	pub states: Vec<ZState>,
}

/// A signed set as some operator published it in some epoch.
#[derive(Debug)]
pub struct Signed {
	pub zone: usize, pub epoch: usize, pub owner: Nm, pub ty: u16, pub ttl: u32, pub rdatas: Vec<Vec<u8>>,
	pub sigs: Vec<Sig>,
	/// True (not truncated to 32 bits) validity of all `sigs`.
	pub inc: u64, pub exp: u64,
}

/// A set as sent over the network: possibly renamed (wildcards), with its signatures.
#[derive(Clone, Debug)]
pub struct Group { pub owner: Nm, pub ty: u16, pub ttl: u32, pub rdatas: Vec<Vec<u8>>, pub sigs: Vec<Sig> }
impl Group {
	pub fn of(s: &Signed, owner: &Nm) -> Group {
		Group { owner: owner.clone(), ty: s.ty, ttl: s.ttl, rdatas: s.rdatas.clone(), sigs: s.sigs.clone() }
	}
	pub fn data(&self) -> Vec<Rec> {
		self.rdatas.iter().map(|d| Rec { owner: self.owner.clone(), ty: self.ty, ttl: self.ttl, rdata: d.clone() }).collect()
	}
	pub fn sig_recs(&self) -> Vec<Rec> {
		self.sigs.iter().map(|s| Rec { owner: self.owner.clone(), ty: RRSIG, ttl: self.ttl, rdata: s.rdata() }).collect()
	}
	pub fn recs(&self) -> Vec<Rec> { let mut r = self.data(); r.extend(self.sig_recs()); r }
}

/// One link of a resolution.
#[derive(Clone, Debug)]
pub struct Step {
	pub zone: usize, pub source: Nm, pub owner: Nm, pub ty: u16,
	/// Set when `source` is a wildcard expanded to `owner`.
	pub next_closer: Option<Nm>,
	/// The name resolution continues with.
	pub next: Option<Nm>,
}

#[derive(Clone)]
pub struct Cfg {
	pub algs: Vec<u8>,
	pub epochs: usize,
	pub evil: bool,
	pub max_zones: u32,
	/// Many zones below few.
	pub wide: bool,
	pub insecure: bool,
	/// Zones are often signed with an unsupported algorithm besides a supported one.
	pub dual: bool,
	pub odd_keys: bool,
	pub wild_heavy: bool,
	pub alias_heavy: bool,
	pub nsec3: bool,
	/// Zones may use NSEC3 with opt-out, and carry NSEC3 records nobody should understand.
	pub optout: bool,
	pub wide_times: bool,
	/// DNSKEY sets are sometimes signed by the zone signing keys as well.
	pub zsk_signs_keys: bool,
	/// TXT records may consist of several strings other than the crate would split them into.
	pub split_txt: bool,
	/// NSEC records give the next name in capitals. As RFC 6840 says, they are signed like that.
	pub nsec_caps: bool,
	/// Labels and TXT contents which need escaping in one place or another.
	pub odd_text: bool,
}
impl Cfg {
	pub fn basic() -> Cfg {
		Cfg { algs: vec![15], epochs: 1, evil: false, max_zones: 4, wide: false, insecure: false, dual: false, odd_keys: false, wild_heavy: false,
			alias_heavy: false, nsec3: true, optout: false, wide_times: false, zsk_signs_keys: true,
			split_txt: false, nsec_caps: false, odd_text: false }
	}
}

type SetKey = (usize, usize, Nm, u16);

pub struct World {
	pub cfg: Cfg,
	pub zones: Vec<Zone>,
	pub t: Vec<u64>,
	seed: u64,
	/// Whether there are long names, and of how many bytes on the wire.
	long: Option<usize>,
	cache: RefCell<BTreeMap<SetKey, Option<Rc<Signed>>>>,
	chains: RefCell<BTreeMap<(usize, usize), Rc<Vec<(Nm, Vec<u8>)>>>>,
	next_key: BTreeMap<(u8, bool), u32>,
}

const ZONE_LABELS: &[&str] = &["com", "om", "b", "ab", "xcom", "cab", "a-b", "org", "m"];
const LABELS: &[&str] = &["a", "b", "ab", "x", "www", "user", "_tcp", "-", "0", "z", "!a", "*a", "zz", "n1", "om", "com", "b~", "user2", "#", "$x"];
const ODD_LABELS: &[&str] = &["\\", "\\u0062", "a\\", "'", "<b>", "&amp;", "%41", "{", "}", "\\n", "[", ",", ":", "\\\\", "/", "`", "$x", "\\x", "a", "www"];
const ODD_TEXT: &[&[u8]] = &[b"\",\"name\":\"x", b"\\", b"\"", b"\\\"", b"\\u0041", b"a\\", b"\x00", b"\n", b"\x1f", b"\x7f", b"\xc2\x85", b"\xc2\x9f", b"\xe2\x80\xa8",
	b"\xf0\x9f\x98\x80", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"</script>", b"{}", b"]}", b"\xc3\xa9", b"\t", b"'", b"ab c", b"", b"\r", b"\xe2\x80\xae"];
fn odd_text(src: &mut Src) -> Vec<u8> {
	let mut v = Vec::new();
	let n = src.range(1, 3);
	for _ in 0..n { v.extend_from_slice(src.pick::<&[u8]>(ODD_TEXT)); if src.chance(1, 2) { v.extend_from_slice(b"xy"); } }
	v
}
pub const DATA_TYPES: &[u16] = &[TXT, A, AAAA, TLSA];

/// There are only so many keys of some algorithms, so a zone may get one again.
fn once(keys: &mut Vec<ZKey>) {
	let mut seen: Vec<Vec<u8>> = Vec::new();
	keys.retain(|k| { let d = k.rdata(); let new = !seen.contains(&d); if new { seen.push(d); } new });
}

impl World {
	pub fn fresh_key(&mut self, alg: u8, evil: bool) -> Rc<Key> {
		// There are RSA keys of many sizes, so start with any of them.
		let first = if [8, 10].contains(&alg) { (self.h(&[alg]) % 8) as u32 } else { 0 };
		let n = self.next_key.entry((alg, evil)).or_insert(first);
		let id = *n * 2 + evil as u32;
		*n += 1;
		key(alg, id % key_count(alg))
	}
	/// A key of the algorithm, which may have the same tag as one of another algorithm.
	fn key_beside(&mut self, src: &mut Src, k: &ZKey, alg: u8, evil: bool) -> Rc<Key> {
		if !evil && src.chance(1, 2) { if let Some(t) = twin(&k.key, alg) { return t; } }
		self.fresh_key(alg, evil)
	}
	/// A name below the given one, mostly by the label given.
	fn below(&self, src: &mut Src, base: &Nm, l: &str) -> Nm {
		if let Some(max) = self.long {
			if src.chance(1, 2) {
				let room = max.saturating_sub(base.wire_len() + 1);
				let len = *src.pick(&[63usize, 63, 62, 61, 40, 33, 200]);
				let len = len.min(room).min(63);
				if len > 0 {
					let c = *src.pick(&["a", "z", "l"]);
					return base.child(&c.repeat(len));
				}
			}
		}
		base.child(l)
	}
	fn labels(&self) -> &'static [&'static str] { if self.cfg.odd_text { ODD_LABELS } else { LABELS } }
	fn h(&self, salt: &[u8]) -> u64 { hash_bytes(mix(self.seed), salt) }

	pub fn generate(src: &mut Src, cfg: Cfg) -> World {
		let mut t0: u64 = 1_700_000_000 + src.below(50_000_000) as u64;
		if cfg.wide_times {
			match src.below(8) {
				0..=3 => {},
				4 => t0 = (1 << 31) - 20 * 86400 + src.below(40 * 86400) as u64,
				5 => t0 = (1 << 32) - 20 * 86400 + src.below(40 * 86400) as u64,
				6 => t0 = (1 << 32) + src.below(600 * 86400) as u64 * 15,
				_ => t0 = 900_000_000 + src.u32() as u64 / 2,
			}
		}
		let mut t = vec![t0];
		for _ in 1..cfg.epochs.max(1) { let l = *t.last().unwrap(); t.push(l + 86400 * src.range(1, 25) as u64); }
		let seed = src.below(0xffff_fff0) as u64;
		let long = if src.chance(1, 10) { Some(*src.pick(&[120usize, 170, 215, 240])) } else { None };
		let mut w = World { cfg, zones: Vec::new(), t, seed, long, cache: Default::default(), chains: Default::default(),
			next_key: BTreeMap::new() };
		w.make_zones(src);
		w.fill(src);
		w.evolve(src);
		w
	}

	fn pick_security(&self, src: &mut Src) -> Security {
		if !self.cfg.insecure { return Security::Secure; }
		match src.below(10) { 0..=6 => Security::Secure, 7 => Security::Island, 8 => Security::Unsupported, _ => Security::Unsigned }
	}

	fn new_zone(&mut self, src: &mut Src, name: Nm, parent: Option<usize>, evil: bool) -> usize {
		let security = if parent.is_none() { Security::Secure } else { self.pick_security(src) };
		let algs = self.cfg.algs.clone();
		let alg = if security == Security::Unsupported && src.chance(1, 2) { *src.pick(&[16u8, 7, 253]) } else { *src.pick(&algs) };
		let unsupported_digest = security == Security::Unsupported && [8, 10, 13, 14, 15].contains(&alg);
		let zk = |key: Rc<Key>, flags: u16| ZKey { key, flags, proto: 3 };
		// Not everyone marks the keys which parents vouch for (and unassigned bits are to be ignored).
		let sep = if !name.0.is_empty() && src.chance(1, 6) { *src.pick(&[256u16, 256, 256, 0x301]) } else { 257 };
		let (mut published, ksks, mut zsks);
		if src.chance(1, 3) {
			let k = zk(self.fresh_key(alg, evil), sep);
			published = vec![k.clone()];
			ksks = vec![k.clone()];
			zsks = vec![k];
		} else {
			let k = zk(self.fresh_key(alg, evil), sep);
			let z = zk(self.fresh_key(alg, evil), 256);
			published = vec![k.clone(), z.clone()];
			ksks = vec![k];
			zsks = vec![z];
		}
		let mut ksks = ksks;
		let mut trusted = ksks.clone();
		if src.chance(1, 4) {
			// A standby key, or a second algorithm.
			let a2 = if security == Security::Unsupported || src.chance(1, 2) { alg } else { *src.pick(&algs) };
			if a2 != alg {
				let k2 = zk(self.key_beside(src, &published[0], a2, evil), sep);
				published.push(k2.clone());
				ksks.push(k2.clone());
				zsks.push(k2.clone());
				if src.chance(1, 2) { trusted.push(k2); }
			} else {
				let fl = if src.chance(1, 2) { 257 } else { 256 };
				published.push(zk(self.fresh_key(a2, evil), fl));
			}
		}
		if self.cfg.insecure && security == Security::Secure && src.chance(1, if self.cfg.dual { 2 } else { 6 }) {
			// Additionally signed with something nobody supports.
			let k2 = zk(self.key_beside(src, &published[0], 16, evil), sep);
			published.push(k2.clone());
			ksks.push(k2.clone());
			zsks.push(k2.clone());
			if src.chance(1, 2) { trusted.push(k2); }
		}
		if self.cfg.zsk_signs_keys && src.chance(1, 4) {
			for z in zsks.clone() { if !ksks.iter().any(|k| k.rdata() == z.rdata()) { ksks.push(z); } }
		}
		if self.cfg.odd_keys && !evil && src.chance(1, 2) {
			// Keys somebody else controls sit in the DNSKEY set, which is harmless as they are not
			// marked as zone keys.
			let k = key(alg, 2 * src.below(8) + 1);
			let (flags, proto) = *src.pick(&[(0u16, 3u8), (1, 3), (0x8000, 3), (256, 2), (256, 0), (257, 255), (0x0080, 3), (0x0200, 3)]);
			published.push(ZKey { key: k, flags, proto });
		}
		if self.cfg.odd_keys && src.chance(1, 4) {
			// A zone key of an algorithm nobody supports, which is there to be tried out.
			let k = zk(self.key_beside(src, &published[0], 16, evil), published[0].flags);
			published.push(k);
		}
		once(&mut published);
		let mut ds = Vec::new();
		let digests: &[u8] = if unsupported_digest { *src.pick(&[&[3u8][..], &[4], &[1, 4], &[3, 4]]) } else {
			match src.below(6) { 0..=2 => &[2], 3 => &[2, 4], 4 => &[1, 2], _ => &[1] }
		};
		if security == Security::Secure || security == Security::Unsupported {
			for k in &trusted { for d in digests { ds.push(k.ds(&name, *d)); } }
			if security == Security::Secure && src.chance(1, 6) {
				// A DS for a key which is not published yet.
				let k = zk(self.fresh_key(alg, evil), 257);
				ds.push(k.ds(&name, if digests.contains(&2) { 2 } else { 1 }));
			}
			if self.cfg.odd_keys && !evil && security == Security::Secure && src.chance(1, 4) && digests.contains(&2) {
				// Somebody can produce SHA-1 second preimages: a SHA-1 digest matches their key.
				let k = zk(key(alg, 2 * src.below(8) + 1), 257);
				ds.push(k.ds(&name, 1));
			}
			if self.cfg.odd_keys && !evil && digests.contains(&4) && !digests.contains(&1) && src.chance(1, 2) {
				let k = zk(key(alg, 2 * src.below(8) + 1), 257);
				ds.push(k.ds(&name, 1));
			}
			if self.cfg.odd_keys && security == Security::Secure && src.chance(1, 6) {
				let mut junk = ds[0].clone();
				junk[3] = *src.pick(&[3u8, 5, 200]);
				if src.chance(1, 2) { junk.truncate(4); }
				ds.push(junk);
			}
		}
		if parent.is_none() { ds.clear(); }
		// There are only so many keys to go around.
		let mut uniq: Vec<Vec<u8>> = Vec::new();
		for d in ds { if !uniq.contains(&d) { uniq.push(d); } }
		let ds = uniq;
		let denial = if self.cfg.nsec3 && src.chance(1, 2) {
			let sl = if src.chance(1, 20) { *src.pick(&[16usize, 64, 128, 255]) } else { src.below(9) as usize };
			// 2500 is the most RFC 5155 allows any zone.
			let iters = *src.pick(&[0u16, 0, 0, 1, 1, 5, 5, 12, 100, 100, 150, 500]);
			let iters = if src.chance(1, 30) { 2500 } else { iters };
			Denial::Nsec3 { salt: src.bytes(sl), iters, optout: self.cfg.optout && src.chance(1, 4) }
		} else { Denial::Nsec };
		let mut odd_denials = Vec::new();
		if let Denial::Nsec3 { salt, iters, .. } = &denial {
			if self.cfg.optout && src.chance(1, 2) {
				let (algo, flags) = *src.pick(&[(2u8, 0u8), (0, 0), (1, 2), (1, 0x80), (255, 0), (1, 1)]);
				let mut b: Vec<[u8; 20]> = vec![[0; 20], [0xff; 20]];
				b[0][0] = src.below(30) as u8;
				b[1][0] = 200 + src.below(55) as u8;
				let mut d = vec![algo, flags];
				d.extend_from_slice(&iters.to_be_bytes());
				d.push(salt.len() as u8);
				d.extend_from_slice(salt);
				d.push(20);
				d.extend_from_slice(&b[1]);
				d.extend(bitmap(&[RRSIG]));
				odd_denials.push((name.child(&base32hex(&b[0])), d));
			}
		}
		let second = match &denial {
			Denial::Nsec3 { salt, iters, .. } if self.cfg.optout && src.chance(1, 3) => {
				let mut s2 = salt.clone();
				if src.chance(1, 2) { s2.push(1); } else { s2 = vec![7; s2.len() + 1]; }
				let other = if *iters < 2500 { iters + 1 } else { iters - 1 };
				let it = if src.chance(3, 4) { *iters } else { other };
				if src.chance(1, 4) { Some((salt.clone(), other)) } else { Some((s2, it)) }
			},
			_ => None,
		};
		let st = ZState { nodes: BTreeMap::new(), published, ksks, zsks, ds, odd_denials, second };
		let n = self.t.len();
		self.zones.push(Zone { name, parent, evil, security, denial, states: vec![st; n] });
		self.zones.len() - 1
	}

	fn make_zones(&mut self, src: &mut Src) {
		self.new_zone(src, Nm::root(), None, false);
		let n = if self.cfg.wide { self.cfg.max_zones } else { src.range(1, self.cfg.max_zones) };
		let mut have_evil = false;
		for i in 0..n {
			// Prefer deep trees, but leave room for siblings.
			let parent = if self.cfg.wide && src.chance(4, 5) { src.idx(self.zones.len().min(2)) } else if src.chance(1, 3) { src.idx(self.zones.len()) } else { self.zones.len() - 1 };
			if self.zones[parent].name.len() >= 4 { continue; }
			let l = *src.pick(ZONE_LABELS);
			let name = if src.chance(1, 6) { self.zones[parent].name.child("ent").child(l) } else { let p = self.zones[parent].name.clone(); self.below(src, &p, l) };
			// Leave room for the hashes of names.
			if name.wire_len() > 150 { continue; }
			if self.zones.iter().any(|z| z.name == name) { continue; }
			// A cut in the middle of an existing delegation would reparent it.
			if self.zones.iter().any(|z| z.name.under(&name)) { continue; }
			let last = i + 1 == n;
			let evil = self.cfg.evil && (src.chance(1, 4) || (last && !have_evil && src.chance(3, 4)));
			have_evil |= evil;
			self.new_zone(src, name, Some(parent), evil);
		}
		if self.cfg.evil && !have_evil {
			// Make sure most runs have someone to attack from: next to a victim.
			let v = src.idx(self.zones.len());
			let l = *src.pick(ZONE_LABELS);
			let name = self.zones[v].name.child(l);
			if name.len() < 5 && !self.zones.iter().any(|z| z.name.under(&name)) {
				self.new_zone(src, name, Some(v), true);
			}
		}
	}

	pub fn zone_of(&self, n: &Nm) -> usize {
		let mut best = 0;
		for (i, z) in self.zones.iter().enumerate() {
			if n.under(&z.name) && z.name.len() >= self.zones[best].name.len() { best = i; }
		}
		best
	}
	fn is_cut(&self, n: &Nm) -> bool { self.zones.iter().any(|z| !z.name.0.is_empty() && z.name == *n) }

	pub fn random_rdata(&self, src: &mut Src, ty: u16) -> Vec<u8> {
		match ty {
			A => if src.chance(1, 2) { src.bytes(4) } else { let b = src.below(250) as u8; vec![10, 0, 0, b] },
			AAAA => src.bytes(16),
			TLSA => {
				let mut d = if src.chance(1, 2) { vec![3, 1, 1] } else { vec![*src.pick(&[0u8, 1, 2, 3, 255]), *src.pick(&[0u8, 1, 255]), *src.pick(&[0u8, 1, 2, 255])] };
				let l = *src.pick(&[32usize, 32, 0, 64, 1, 300]);
				// Some are the beginning of others.
				if src.chance(1, 4) { d.extend(vec![7; l]); } else { d.extend(src.bytes(l)); }
				d
			},
			TXT => {
				let len = match src.below(10) { 0..=6 => src.range(1, 40), 7 => src.range(250, 260), 8 => src.range(505, 515), _ => if src.chance(1, 6) { src.range(2000, 9000) } else { src.range(1, 900) } };
				let b = src.below(26) as u8;
				let mut v: Vec<u8> = (0..len).map(|i| b'a' + ((b as u32 + i / 50) % 26) as u8).collect();
				if src.chance(1, 8) { v = src.bytes(len as usize); }
				if self.cfg.odd_text && src.chance(2, 3) { v = odd_text(src); }
				if self.cfg.split_txt { let i = v.len() / 2; return txt_rdata(&[&v[..i.min(200)], &v[i.min(200)..v.len().min(400)]]); }
				txt_simple(&v)
			},
			_ => Vec::new(),
		}
	}
	fn random_set(&self, src: &mut Src, ty: u16) -> RRset {
		let n = *src.pick(&[1u32, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 5, 5, 5, 30]);
		let mut rdatas: Vec<Vec<u8>> = (0..n).map(|_| self.random_rdata(src, ty)).collect();
		if ty == TXT && n > 1 && !self.cfg.split_txt && src.chance(1, 4) {
			// Alike for a while, differing where the strings they are made of have long ended.
			let len = *src.pick(&[3u32, 254, 255, 256, 510, 511, 700]) as usize;
			let same = vec![b's'; len];
			rdatas = (0..n).map(|_| { let mut v = same.clone(); let k = src.below(4) as usize; v.extend(src.bytes(k)); txt_simple(&v) }).collect();
		}
		rdatas.sort();
		// Two strings which mean the same cannot be told apart through the crate's types.
		rdatas.dedup();
		let ttl = self.random_ttl(src);
		RRset { ttl, rdatas }
	}
	fn random_ttl(&self, src: &mut Src) -> u32 { *src.pick(&[3600u32, 30, 0, 1, 300, 86400, 172800, 604800, 2592000]) }

	fn fill(&mut self, src: &mut Src) {
		// Apexes and delegations.
		for zi in 0..self.zones.len() {
			let name = self.zones[zi].name.clone();
			let n = *src.pick(&[1u32, 2, 3]);
			let mut ns: Vec<Vec<u8>> = Vec::new();
			for i in 0..n {
				let base = if src.chance(1, 2) { Nm::p("ns.") } else { name.child(["ns", "a-longer-server-name", "n"][i as usize]) };
				ns.push(base.child(*src.pick(self.labels())).wire());
			}
			ns.sort();
			ns.dedup();
			let ttl = self.random_ttl(src);
			for st in &mut self.zones[zi].states {
				st.nodes.entry(name.clone()).or_default().insert(NS, RRset { ttl, rdatas: ns.clone() });
			}
			if src.chance(1, 3) {
				let ty = *src.pick(DATA_TYPES);
				let set = self.random_set(src, ty);
				for st in &mut self.zones[zi].states { st.nodes.get_mut(&name).unwrap().insert(ty, set.clone()); }
			}
		}
		// Data.
		for zi in 1..self.zones.len() {
			let cnt = src.range(1, 5);
			for _ in 0..cnt {
				let mut base = self.zones[zi].name.clone();
				if src.chance(1, 2) {
					let names: Vec<Nm> = self.zones[zi].states[0].nodes.keys().cloned().collect();
					base = src.pick(&names).clone();
				}
				let depth = *src.pick(&[1, 1, 2, 3]);
				for _ in 0..depth { let l = *src.pick(self.labels()); base = self.below(src, &base, l); }
				let wild = if self.cfg.wild_heavy { src.chance(2, 3) } else { src.chance(1, 4) };
				if wild { base = base.child("*"); }
				self.add_node(src, zi, base);
			}
		}
		if src.chance(1, 2) {
			let l = *src.pick(self.labels());
			let n = self.below(src, &Nm::root(), l);
			self.add_node(src, 0, n);
		}
		// Aliases.
		let cnt = if self.cfg.alias_heavy { src.range(1, 6) } else { src.below(3) };
		for _ in 0..cnt {
			let zi = src.idx(self.zones.len());
			let names: Vec<Nm> = self.zones[zi].states[0].nodes.keys().cloned().collect();
			let base = src.pick(&names).clone();
			let mut n = base.child(*src.pick(&["alias", "al2", "c", "b", "ab"]));
			if src.chance(1, 5) { n = base.child("*"); }
			if self.blocked(zi, &n) || self.zones[zi].states[0].nodes.keys().any(|m| m.under(&n)) { continue; }
			if self.zones.iter().any(|z| z.name.under(&n)) { continue; }
			let (ty, target) = if src.chance(2, 3) {
				(CNAME, self.random_target(src))
			} else {
				if n.is_wild() { continue; }
				// Point at something with names below it.
				let zt = src.idx(self.zones.len());
				let names: Vec<Nm> = self.zones[zt].states[0].nodes.keys().cloned().collect();
				let t = src.pick(&names).clone();
				let t = if src.chance(1, 2) { self.zones[zt].name.clone() } else { t.parent().unwrap_or(t) };
				if t == n { continue; }
				(DNAME, t)
			};
			if target == n || target.is_wild() { continue; }
			let ttl = self.random_ttl(src);
			for st in &mut self.zones[zi].states {
				st.nodes.entry(n.clone()).or_default().insert(ty, RRset { ttl, rdatas: vec![target.wire()] });
			}
		}
	}

	/// Names which are not authoritative in the zone, or below an alias.
	fn blocked(&self, zi: usize, n: &Nm) -> bool {
		if self.zone_of(n) != zi || self.is_cut(n) || n.0.is_empty() { return true; }
		if n.wire_len() > 200 { return true; }
		// No labels after a wildcard one, to keep to wildcards people actually use.
		if n.0[1..].iter().any(|l| l == b"*") { return true; }
		let nodes = &self.zones[zi].states[0].nodes;
		nodes.iter().any(|(m, sets)| n.under(m) && n != m && sets.contains_key(&DNAME))
			|| nodes.get(n).map(|s| s.contains_key(&CNAME)).unwrap_or(false)
	}
	fn add_node(&mut self, src: &mut Src, zi: usize, n: Nm) {
		if self.blocked(zi, &n) { return; }
		let cnt = *src.pick(&[1, 1, 2]);
		for _ in 0..cnt {
			let ty = *src.pick(DATA_TYPES);
			let set = self.random_set(src, ty);
			for st in &mut self.zones[zi].states { st.nodes.entry(n.clone()).or_default().insert(ty, set.clone()); }
		}
	}
	fn random_target(&self, src: &mut Src) -> Nm {
		let zt = src.idx(self.zones.len());
		let names: Vec<Nm> = self.zones[zt].states[0].nodes.keys().cloned().collect();
		let t = src.pick(&names).clone();
		if t.is_wild() {
			let mut r = t.parent().unwrap();
			let d = src.range(1, 2);
			for _ in 0..d { let l = *src.pick(self.labels()); r = self.below(src, &r, l); }
			return r;
		}
		t
	}

	/// What changes from one epoch to the next.
	fn evolve(&mut self, src: &mut Src) {
		for e in 1..self.t.len() {
			for zi in 0..self.zones.len() {
				let mut st = self.zones[zi].states[e - 1].clone();
				let name = self.zones[zi].name.clone();
				let names: Vec<Nm> = st.nodes.keys().filter(|n| **n != name).cloned().collect();
				for n in names {
					match src.below(8) {
						5 => {
							// New contents.
							let tys: Vec<u16> = st.nodes[&n].keys().copied().filter(|t| DATA_TYPES.contains(t)).collect();
							if tys.is_empty() { continue; }
							let ty = *src.pick(&tys);
							let mut set = self.random_set(src, ty);
							let old = st.nodes[&n][&ty].rdatas.clone();
							if src.chance(1, 3) { set.rdatas.extend(old); set.rdatas.sort(); set.rdatas.dedup(); }
							st.nodes.get_mut(&n).unwrap().insert(ty, set);
						},
						6 => { st.nodes.remove(&n); },
						_ => {},
					}
				}
				if zi != 0 && src.chance(1, 3) {
					// Something new, often where only a wildcard matched before.
					let wilds: Vec<Nm> = st.nodes.keys().filter(|n| n.is_wild()).cloned().collect();
					let base = if !wilds.is_empty() && src.chance(2, 3) { src.pick(&wilds).parent().unwrap() } else { name.clone() };
					let l = *src.pick(self.labels());
					let n = self.below(src, &base, l);
					if !self.blocked(zi, &n) && !st.nodes.iter().any(|(m, s)| n.under(m) && n != *m && s.contains_key(&DNAME))
						&& !st.nodes.get(&n).map(|s| s.contains_key(&CNAME)).unwrap_or(false)
					{
						let ty = *src.pick(DATA_TYPES);
						let set = self.random_set(src, ty);
						st.nodes.entry(n).or_default().insert(ty, set);
					}
				}
				if zi != 0 && self.zones[zi].security == Security::Secure && src.chance(1, 4) && !st.ksks.is_empty() {
					self.roll(src, zi, &mut st);
				}
				for f in e..self.t.len() { self.zones[zi].states[f] = st.clone(); }
			}
		}
	}
	fn roll(&mut self, src: &mut Src, zi: usize, st: &mut ZState) {
		let evil = self.zones[zi].evil;
		let name = self.zones[zi].name.clone();
		let alg = st.ksks[0].key.alg;
		if src.chance(1, 2) {
			// Replace the key which signs the zone's data, keeping the old one around for a while.
			let z = ZKey { key: self.fresh_key(alg, evil), flags: 256, proto: 3 };
			if !src.chance(1, 2) {
				let old: Vec<Vec<u8>> = st.zsks.iter().map(|k| k.rdata()).collect();
				let keep: Vec<Vec<u8>> = st.ksks.iter().map(|k| k.rdata()).collect();
				st.published.retain(|k| !old.contains(&k.rdata()) || keep.contains(&k.rdata()));
			}
			st.published.push(z.clone());
			st.zsks = vec![z];
		} else {
			let k = ZKey { key: self.fresh_key(alg, evil), flags: st.ksks[0].flags, proto: 3 };
			let old: Vec<Vec<u8>> = st.ksks.iter().map(|k| k.rdata()).collect();
			let zs: Vec<Vec<u8>> = st.zsks.iter().map(|k| k.rdata()).collect();
			if !src.chance(1, 2) { st.published.retain(|k| !old.contains(&k.rdata()) || zs.contains(&k.rdata())); }
			st.published.push(k.clone());
			st.ksks = vec![k.clone()];
			st.ds = vec![k.ds(&name, 2)];
		}
		once(&mut st.published);
	}

	/// The trust anchors for the simulated root.
	pub fn anchors(&self) -> Vec<(u16, u8, u8, Vec<u8>)> {
		self.zones[0].states[0].ksks.iter().filter(|k| k.flags == 257).take(1).map(|k| {
			let d = k.ds(&Nm::root(), 2);
			(k.tag(), k.key.alg, 2, d[4..].to_vec())
		}).collect()
	}

	/// To be called after changing anything by hand.
	pub fn forget(&mut self) { self.cache.borrow_mut().clear(); self.chains.borrow_mut().clear(); }

	/// The set at exactly this owner in this zone, as its operator signs it.
	pub fn signed(&self, zi: usize, e: usize, owner: &Nm, ty: u16) -> Option<Rc<Signed>> {
		let ck = (zi, e, owner.clone(), ty);
		if let Some(r) = self.cache.borrow().get(&ck) { return r.clone(); }
		let r = self.make_signed(zi, e, owner, ty).map(Rc::new);
		self.cache.borrow_mut().insert(ck, r.clone());
		r
	}
	/// What the operator of a zone sets as TTL for everything which is not data.
	fn link_ttl(&self, zi: usize, e: usize, ty: u16) -> u32 {
		let h = self.h(&[zi as u8, e as u8, ty as u8, 1]);
		match ty { DNSKEY => [3600, 3600, 86400, 172800, 60, 20, 900, 7200][h as usize % 8], DS => [86400, 86400, 3600, 900, 10, 120, 172800, 25][h as usize % 8],
			_ => [300, 3600, 5, 900, 86400, 60, 15, 1800][h as usize % 8] }
	}
	fn make_signed(&self, zi: usize, e: usize, owner: &Nm, ty: u16) -> Option<Signed> {
		let z = &self.zones[zi];
		let st = &z.states[e];
		if z.security == Security::Unsigned { return None; }
		let (ttl, rdatas) = match ty {
			DNSKEY => {
				if *owner != z.name { return None; }
				(self.link_ttl(zi, e, DNSKEY), st.published.iter().map(|k| k.rdata()).collect())
			},
			DS => {
				let c = self.zones.iter().find(|c| c.parent == Some(zi) && c.name == *owner)?;
				if c.states[e].ds.is_empty() { return None; }
				(self.link_ttl(zi, e, DS), c.states[e].ds.clone())
			},
			NSEC | NSEC3 => {
				let ch = self.chain(zi, e);
				let (_, d) = ch.iter().chain(z.states[e].odd_denials.iter()).find(|(n, _)| n == owner)?;
				if (ty == NSEC) != (z.denial == Denial::Nsec) { return None; }
				(self.link_ttl(zi, e, NSEC), vec![d.clone()])
			},
			_ => {
				if ty == NS && self.zones.iter().any(|c| c.parent == Some(zi) && c.name == *owner) { return None; }
				let s = st.nodes.get(owner)?.get(&ty)?;
				(s.ttl, s.rdatas.clone())
			},
		};
		let mut salt = owner.wire();
		salt.extend_from_slice(&[zi as u8, e as u8, (ty >> 8) as u8, ty as u8]);
		let h = self.h(&salt);
		let inc = self.t[e] - 3600 - (h % (6 * 86400));
		let exp = self.t[e] + 86400 + ((h >> 24) % (25 * 86400));
		let keys = if ty == DNSKEY { &st.ksks } else { &st.zsks };
		let sigs = keys.iter().map(|k| sign(k, &z.name, owner, ty, owner.sig_labels(), ttl, inc as u32, exp as u32, &rdatas)).collect();
		Some(Signed { zone: zi, epoch: e, owner: owner.clone(), ty, ttl, rdatas, sigs, inc, exp })
	}

	/// All names with authoritative data or a delegation in the zone, without empty non-terminals.
	pub fn auth_names(&self, zi: usize, e: usize) -> Vec<Nm> {
		let mut v: Vec<Nm> = self.zones[zi].states[e].nodes.keys().cloned().collect();
		for c in &self.zones { if c.parent == Some(zi) { v.push(c.name.clone()); } }
		v.sort();
		v.dedup();
		v
	}
	pub fn exists(&self, zi: usize, e: usize, n: &Nm) -> bool {
		self.zones[zi].states[e].nodes.keys().any(|m| m.under(n))
			|| self.zones.iter().any(|c| c.parent == Some(zi) && c.name.under(n))
			|| self.zones[zi].name.under(n)
	}
	fn types_at(&self, zi: usize, e: usize, n: &Nm) -> Vec<u16> {
		let z = &self.zones[zi];
		if let Some(c) = self.zones.iter().find(|c| c.parent == Some(zi) && c.name == *n) {
			let mut v = vec![NS];
			if !c.states[e].ds.is_empty() { v.extend([DS, RRSIG]); }
			return v;
		}
		match z.states[e].nodes.get(n) {
			Some(s) => {
				let mut v: Vec<u16> = s.keys().copied().collect();
				v.push(RRSIG);
				if *n == z.name { v.extend([6, DNSKEY]); }
				// Types whose records are none of our business.
				let h = self.h(&n.wire());
				for (i, t) in [257u16, 65, 1, 15, 99, 256, 32769, 65280, 127].iter().enumerate() {
					if h >> (2 * i) & 3 == 0 && h >> 40 & 1 == 0 && !v.contains(t) && *t != A { v.push(*t); }
				}
				v.sort();
				v
			},
			None => Vec::new(),
		}
	}
	/// The zone's denial chain, as (owner, rdata), in chain order.
	pub fn chain(&self, zi: usize, e: usize) -> Rc<Vec<(Nm, Vec<u8>)>> {
		if let Some(c) = self.chains.borrow().get(&(zi, e)) { return c.clone(); }
		let z = &self.zones[zi];
		let names = self.auth_names(zi, e);
		let mut r = Vec::new();
		match &z.denial {
			Denial::Nsec => for (i, n) in names.iter().enumerate() {
				let mut types = self.types_at(zi, e, n);
				if !types.contains(&RRSIG) { types.push(RRSIG); }
				types.push(NSEC);
				let mut d = names[(i + 1) % names.len()].wire();
				if self.cfg.nsec_caps { d.make_ascii_uppercase(); }
				d.extend(bitmap(&types));
				r.push((n.clone(), d));
			},
			Denial::Nsec3 { salt, iters, optout } => {
				let names: Vec<Nm> = names.into_iter().filter(|n| {
					// Insecure delegations are left out when opting out.
					!*optout || !self.zones.iter().any(|c| c.parent == Some(zi) && c.name == *n && c.states[e].ds.is_empty())
				}).collect();
				let mut all = names.clone();
				for n in &names {
					let mut p = n.clone();
					while p != z.name { p = p.parent().unwrap(); all.push(p.clone()); }
				}
				all.sort();
				all.dedup();
				let mut chains = vec![(salt.clone(), *iters)];
				chains.extend(z.states[e].second.clone());
				for (salt, iters) in &chains {
					let mut hs: Vec<(Vec<u8>, Vec<u16>)> = all.iter()
						.map(|n| (nsec3_hash(n, salt, *iters), self.types_at(zi, e, n))).collect();
					hs.sort();
					for i in 0..hs.len() {
						let mut d = vec![1, *optout as u8];
						d.extend_from_slice(&iters.to_be_bytes());
						d.push(salt.len() as u8);
						d.extend_from_slice(salt);
						d.push(20);
						d.extend_from_slice(&hs[(i + 1) % hs.len()].0);
						d.extend(bitmap(&hs[i].1));
						r.push((z.name.child(&base32hex(&hs[i].0)), d));
					}
				}
			},
		}
		let r = Rc::new(r);
		self.chains.borrow_mut().insert((zi, e), r.clone());
		r
	}
	/// The signed record showing that nothing exists at or below `nc`. The flag says whether it is the
	/// last one of the chain, which wraps around.
	pub fn denial_of(&self, zi: usize, e: usize, nc: &Nm) -> Option<(Rc<Signed>, bool)> {
		let z = &self.zones[zi];
		let ch = self.chain(zi, e);
		match &z.denial {
			Denial::Nsec => {
				let i = ch.iter().rposition(|(n, _)| n < nc)?;
				Some((self.signed(zi, e, &ch[i].0, NSEC)?, i + 1 == ch.len()))
			},
			Denial::Nsec3 { salt, iters, .. } => {
				let h = z.name.child(&base32hex(&nsec3_hash(nc, salt, *iters)));
				let len = if z.states[e].second.is_some() { ch.len() / 2 } else { ch.len() };
				let mut own: Vec<&Nm> = ch[..len].iter().map(|(n, _)| n).collect();
				own.sort();
				match own.iter().rposition(|n| **n < h) {
					Some(i) => Some((self.signed(zi, e, own[i], NSEC3)?, i + 1 == own.len())),
					None => Some((self.signed(zi, e, own.last()?, NSEC3)?, true)),
				}
			},
		}
	}

	/// Looks a single name up, following nothing.
	pub fn lookup(&self, e: usize, n: &Nm, ty: u16) -> Option<Step> {
		let mut zi = self.zone_of(n);
		if ty == DS && self.zones[zi].name == *n { zi = self.zones[zi].parent?; }
		let z = &self.zones[zi];
		let nodes = &z.states[e].nodes;
		// The topmost alias above the name wins.
		for l in z.name.len()..n.len() {
			let a = n.trailing(l);
			if let Some(d) = nodes.get(&a).and_then(|s| s.get(&DNAME)) {
				let t = read_name(&d.rdatas[0], 0)?.0;
				let next = Nm::join(&n.0[..n.len() - l], &t);
				if next.wire_len() > 255 { return None; }
				if next.wire_len() > 255 { return None; }
				return Some(Step { zone: zi, source: a.clone(), owner: a, ty: DNAME, next_closer: None, next: Some(next) });
			}
		}
		let has = |src: &Nm, owner: &Nm, next_closer: Option<Nm>| -> Option<Step> {
			if ty == DS || ty == DNSKEY {
				self.signed(zi, e, src, ty)?;
				return Some(Step { zone: zi, source: src.clone(), owner: owner.clone(), ty, next_closer, next: None });
			}
			let s = nodes.get(src)?;
			if s.contains_key(&ty) {
				Some(Step { zone: zi, source: src.clone(), owner: owner.clone(), ty, next_closer, next: None })
			} else if let Some(c) = s.get(&CNAME) {
				let next = read_name(&c.rdatas[0], 0)?.0;
				Some(Step { zone: zi, source: src.clone(), owner: owner.clone(), ty: CNAME, next_closer, next: Some(next) })
			} else { None }
		};
		if self.exists(zi, e, n) { return has(n, n, None); }
		let mut ce = n.clone();
		let mut nc;
		loop {
			nc = ce.clone();
			ce = ce.parent()?;
			if self.exists(zi, e, &ce) { break; }
		}
		let w = ce.child("*");
		if nodes.contains_key(&w) { has(&w, n, Some(nc)) } else { None }
	}
	/// Full resolution.
	pub fn resolve(&self, e: usize, n: &Nm, ty: u16) -> Option<Vec<Step>> {
		let mut n = n.clone();
		let mut r: Vec<Step> = Vec::new();
		loop {
			let s = self.lookup(e, &n, ty)?;
			let next = s.next.clone();
			r.push(s);
			match next { None => return Some(r), Some(m) => n = m }
			if r.len() > 10 { return None; }
		}
	}

	/// Names which are interesting to ask for.
	pub fn query_names(&self, src: &mut Src, e: usize) -> Vec<Nm> {
		let mut r = Vec::new();
		for (zi, z) in self.zones.iter().enumerate() {
			for (n, sets) in &z.states[e].nodes {
				if n.is_wild() {
					let p = n.parent().unwrap();
					for l in ["a", "q", "zz"] { r.push(p.child(l)); }
					r.push(p.child("q").child("b"));
				} else { r.push(n.clone()); }
				if let Some(d) = sets.get(&DNAME) {
					if let Some((t, _)) = read_name(&d.rdatas[0], 0) {
						let tz = self.zone_of(&t);
						for m in self.zones[tz].states[e].nodes.keys() {
							if m.under(&t) && *m != t && !m.is_wild() { r.push(Nm::join(&m.0[..m.len() - t.len()], n)); }
						}
						r.push(n.child("q"));
					}
				}
				let _ = zi;
			}
		}
		r.retain(|n| n.wire_len() <= 255);
		r.sort();
		r.dedup();
		src.shuffle(&mut r);
		r
	}
	/// Some (name, type) with an answer, and how it is reached.
	pub fn pick_query(&self, src: &mut Src, e: usize) -> Option<(Nm, u16, Vec<Step>)> {
		let names = self.query_names(src, e);
		let mut tys = DATA_TYPES.to_vec();
		src.shuffle(&mut tys);
		for n in names.iter().take(12) {
			for ty in &tys {
				if let Some(s) = self.resolve(e, n, *ty) { return Some((n.clone(), *ty, s)); }
			}
		}
		None
	}

	/// What an honest resolver answers: the answer section, and the denials of the authority section.
	/// The flag says whether one of the denials wraps around.
	pub fn answer(&self, e: usize, n: &Nm, ty: u16) -> Option<(Vec<Group>, Vec<Group>, bool)> {
		let steps = self.resolve(e, n, ty)?;
		let mut ans: Vec<Group> = Vec::new();
		let mut auth: Vec<Group> = Vec::new();
		let mut wrap = false;
		let mut cur = n.clone();
		for s in &steps {
			match self.signed(s.zone, e, &s.source, s.ty) {
				Some(g) => { let g = Group::of(&g, &s.owner); if !ans.iter().any(|h| h.owner == g.owner && h.ty == g.ty) { ans.push(g); } },
				None => {
					let set = self.zones[s.zone].states[e].nodes.get(&s.source)?.get(&s.ty)?;
					ans.push(Group { owner: s.owner.clone(), ty: s.ty, ttl: set.ttl, rdatas: set.rdatas.clone(), sigs: Vec::new() });
				},
			}
			if s.ty == DNAME {
				// Unsigned, synthesised.
				let t = s.next.clone().unwrap();
				ans.push(Group { owner: cur.clone(), ty: CNAME, ttl: 0, rdatas: vec![t.wire()], sigs: Vec::new() });
			}
			if let Some(nc) = &s.next_closer {
				if let Some((d, wr)) = self.denial_of(s.zone, e, nc) {
					wrap |= wr;
					let g = Group::of(&d, &d.owner);
					// Both sides of a zone cut have an NSEC record of the same name.
					if !auth.iter().any(|h| h.owner == g.owner && h.ty == g.ty && h.sigs.iter().zip(&g.sigs).all(|(a, b)| a.signer == b.signer)) { auth.push(g); }
				}
			}
			if let Some(m) = &s.next { cur = m.clone(); }
		}
		Some((ans, auth, wrap))
	}

	/// Everything needed to prove the answer: answer, denials, and every zone's keys and delegation.
	pub fn proof(&self, e: usize, n: &Nm, ty: u16) -> Option<Vec<Group>> {
		let (mut g, auth, _) = self.answer(e, n, ty)?;
		g.extend(auth);
		let mut need: Vec<usize> = Vec::new();
		for s in self.resolve(e, n, ty)? { need.push(s.zone); }
		let mut done: Vec<usize> = Vec::new();
		while let Some(z) = need.pop() {
			if done.contains(&z) { continue; }
			done.push(z);
			g.extend(self.zone_link(z, e));
			if let Some(p) = self.zones[z].parent { need.push(p); }
		}
		Some(g)
	}
	/// The DNSKEYs of a zone and its DS.
	pub fn zone_link(&self, z: usize, e: usize) -> Vec<Group> {
		let mut g = Vec::new();
		let name = self.zones[z].name.clone();
		if let Some(k) = self.signed(z, e, &name, DNSKEY) { g.push(Group::of(&k, &name)); }
		if let Some(p) = self.zones[z].parent {
			if let Some(d) = self.signed(p, e, &name, DS) { g.push(Group::of(&d, &name)); }
		}
		g
	}
	/// The zones from this one up to the root.
	pub fn ancestry(&self, mut z: usize) -> Vec<usize> {
		let mut r = vec![z];
		while let Some(p) = self.zones[z].parent { r.push(p); z = p; }
		r
	}
	pub fn secure(&self, z: usize) -> bool { self.ancestry(z).iter().all(|z| self.zones[*z].security == Security::Secure) }
	pub fn evil_above(&self, z: usize) -> bool { self.ancestry(z).iter().any(|z| self.zones[*z].evil) }

	pub fn describe(&self) -> Vec<String> {
		let mut r = Vec::new();
		for z in &self.zones {
			let st = &z.states[0];
			r.push(format!("zone {} {}{:?} {:?} keys={:?} ds_digests={:?}", z.name.s(), if z.evil { "EVIL " } else { "" }, z.security,
				z.denial, st.published.iter().map(|k| (k.key.alg, k.flags, k.proto, k.tag())).collect::<Vec<_>>(),
				st.ds.iter().map(|d| d[3]).collect::<Vec<_>>()));
			for (e, st) in z.states.iter().enumerate() {
				for (n, s) in &st.nodes {
					r.push(format!("  epoch {} {} {:?}", e, n.s(), s.iter().map(|(t, s)| {
						format!("{}x{}{}", ty_str(*t), s.rdatas.len(), if *t == CNAME || *t == DNAME { format!("->{}", rdata_str(*t, &s.rdatas[0])) } else { "".into() })
					}).collect::<Vec<_>>()));
				}
			}
		}
		r
	}
}

/// How a resolver renders its answers.
#[derive(Clone, Debug, Default)]
pub struct Style { pub compress: bool, pub chain: bool, pub caps: u8, pub sigs_last: bool, pub extras: bool, pub shuffle: bool, pub min_ttl: Option<u32>,
	/// Header flags which are not as usual.
	pub bits: u16,
	/// Grow messages to this size by padding (RFC 7830).
	pub pad: usize }
impl Style {
	pub fn random(src: &mut Src) -> Style {
		Style { compress: src.chance(2, 3), chain: src.chance(1, 3), caps: if src.chance(1, 3) { src.below(256) as u8 } else { 0 }, sigs_last: src.chance(1, 4),
			extras: src.chance(1, 3), shuffle: src.chance(1, 2), min_ttl: None, bits: if src.chance(1, 3) { src.below(8) as u16 } else { 0 },
			pad: match src.below(64) { 0 => *src.pick(&[65535usize, 65534, 32768, 16385]), 1..=8 => *src.pick(&[2048usize, 2047, 2049, 2046, 2050, 468, 4096, 8193]), _ => 0 } }
	}
}

/// Renders groups as a DNS response. With TTLs aged: `age` says by how much per group.
/// Puts sets into the order a resolver sends them in.
pub fn layout(src: &mut Src, st: &Style, qn: &Nm, ans: &[Group], auth: &[Group], aged: bool) -> (Vec<Rec>, Vec<Rec>) {
	let mut a: Vec<Rec> = Vec::new();
	let mut tail: Vec<Rec> = Vec::new();
	for g in ans {
		let mut g = g.clone();
		if aged && src.chance(1, 2) { g.ttl = src.below(g.ttl.saturating_add(1)); }
		if st.shuffle { src.shuffle(&mut g.rdatas); src.shuffle(&mut g.sigs); }
		a.extend(g.data());
		if st.sigs_last { tail.extend(g.sig_recs()); } else { a.extend(g.sig_recs()); }
	}
	a.extend(tail);
	let mut b: Vec<Rec> = Vec::new();
	if st.extras { b.push(Rec { owner: qn.parent().unwrap_or(Nm::root()), ty: NS, ttl: 5, rdata: Nm::p("ns.example.").wire() }); }
	for g in auth {
		let mut g = g.clone();
		if aged && src.chance(1, 2) { g.ttl = src.below(g.ttl.saturating_add(1)); }
		if st.shuffle { src.shuffle(&mut g.sigs); }
		b.extend(g.recs());
	}
	(a, b)
}
pub fn render(src: &mut Src, st: &Style, qn: &Nm, qt: u16, ans: &[Group], auth: &[Group], aged: bool) -> Vec<u8> {
	let (a, b) = layout(src, st, qn, ans, auth, aged);
	render_recs(st, qn, qt, &a, &b)
}
pub fn render_recs(st: &Style, qn: &Nm, qt: u16, a: &[Rec], b: &[Rec]) -> Vec<u8> {
	// Checking disabled, authoritative, and no recursion available.
	let flags = 0x81a0 ^ (st.bits & 1) << 4 ^ (st.bits & 2) << 9 ^ (st.bits & 4) << 5;
	let extra = if st.extras { 2 } else { 1 };
	let mut m = MsgBuilder::new(flags, [1, a.len() as u16, b.len() as u16, extra], st.compress, st.caps);
	m.chain = st.compress && st.chain;
	m.question(qn, qt);
	for r in a { m.rec(r); }
	for r in b { m.rec(r); }
	if st.extras { m.rec(&Rec { owner: Nm::p("ns.example."), ty: A, ttl: 1, rdata: vec![1, 2, 3, 4] }); }
	let grow = st.pad.saturating_sub(m.buf.len() + 11);
	m.opt_padded(if grow >= 4 { grow } else { 0 });
	m.buf
}
/// NODATA or NXDOMAIN.
pub fn render_negative(qn: &Nm, qt: u16, rcode: u16) -> Vec<u8> {
	let mut m = MsgBuilder::new(0x81a0 | rcode, [1, 0, 0, 1], false, 0);
	m.question(qn, qt);
	m.opt();
	m.buf
}

//! The one source of every decision in a simulated run.
//!
//! A run is a pure function of the values returned by `Src::below`. While exploring they come from
//! a PRNG seeded from VERIF_SEED, the property and the run's index, and are recorded. Replaying a
//! recorded list repeats the run exactly; beyond the end of the list every choice is 0, which by
//! convention is always the simplest one ("no fault", "first", "deliver everything").

pub struct Src {
	state: u64,
	replay: Option<Vec<u32>>,
	pos: usize,
	pub log: Vec<u32>,
	/// A hash of everything observable, used to tell runs apart and to compare replays.
	pub digest: u64,
	pub trace: Option<Vec<String>>,
	/// Print each choice as it is made.
	pub tee: bool,
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e3779b97f4a7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
	for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3); }
	mix(h)
}

impl Src {
	pub fn new(seed: u64) -> Src {
		Src { state: mix(seed), replay: None, pos: 0, log: Vec::new(), digest: 7, trace: None, tee: false }
	}
	pub fn replay(choices: Vec<u32>) -> Src {
		Src { state: 0, replay: Some(choices), pos: 0, log: Vec::new(), digest: 7, trace: None, tee: false }
	}
	fn raw(&mut self) -> u64 {
		self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
		mix(self.state)
	}
	/// A value in 0..n.
	pub fn below(&mut self, n: u32) -> u32 {
		if n <= 1 { return 0; }
		let v = match &self.replay {
			None => (((self.raw() >> 32) * n as u64) >> 32) as u32,
			Some(l) => {
				let v = l.get(self.pos).copied().unwrap_or(0);
				self.pos += 1;
				if v >= n { v % n } else { v }
			}
		};
		self.log.push(v);
		if self.tee { println!("c {}", v); }
		v
	}
	pub fn idx(&mut self, n: usize) -> usize { self.below(n as u32) as usize }
	/// True with probability num/den; a zero choice is false.
	pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den) >= den - num }
	pub fn range(&mut self, lo: u32, hi: u32) -> u32 { lo + self.below(hi - lo + 1) }
	pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T { let i = self.idx(l.len()); &l[i] }
	pub fn u32(&mut self) -> u32 { (self.below(0x10000) << 16) | self.below(0x10000) }
	/// `len` pseudo-random bytes from a single choice.
	pub fn bytes(&mut self, len: usize) -> Vec<u8> {
		let mut s = self.below(0xffff_ffff) as u64;
		let mut r = Vec::with_capacity(len);
		while r.len() < len { s = mix(s); r.extend_from_slice(&s.to_be_bytes()); }
		r.truncate(len);
		r
	}
	/// Fisher-Yates where all-zero choices leave the order alone.
	pub fn shuffle<T>(&mut self, l: &mut [T]) {
		for i in 0..l.len().saturating_sub(1) {
			let j = i + self.idx(l.len() - i);
			l.swap(i, j);
		}
	}
	pub fn note(&mut self, b: &[u8]) { self.digest = hash_bytes(self.digest, b); }
	pub fn say<F: FnOnce() -> String>(&mut self, f: F) {
		if let Some(t) = &mut self.trace { if t.len() < 4000 { t.push(f()); } }
	}
}

//! Decides whether what a client accepted is true in the simulated world.

use crate::dns::*;
use crate::world::*;
use std::collections::BTreeMap;

/// Groups accepted records into sets.
pub fn sets(rrs: &[(Nm, u16, Vec<u8>)]) -> BTreeMap<(Nm, u16), Vec<Vec<u8>>> {
	let mut m: BTreeMap<(Nm, u16), Vec<Vec<u8>>> = BTreeMap::new();
	for (n, t, d) in rrs { m.entry((n.clone(), *t)).or_default().push(d.clone()); }
	for v in m.values_mut() { v.sort(); }
	m
}

fn same(set: &RRset, ty: u16, got: &[Vec<u8>]) -> bool {
	let mut v: Vec<Vec<u8>> = set.rdatas.iter().map(|d| meaning(ty, d)).collect();
	v.sort();
	v.dedup();
	let mut g = got.to_vec();
	g.dedup();
	v == g
}

impl World {
	/// Whether an accepted set was ever published for its name, either there or at a wildcard above
	/// it. Nothing below an evil zone can be held to anything.
	pub fn authentic(&self, n: &Nm, ty: u16, got: &[Vec<u8>]) -> Result<(), String> {
		let z = self.zone_of(n);
		if self.evil_above(z) { return Ok(()); }
		if !self.secure(z) { return Err(format!("{} {} was accepted, but there is no chain of trust to {}", n.s(), ty_str(ty), self.zones[z].name.s())); }
		for st in &self.zones[z].states {
			if st.nodes.get(n).and_then(|s| s.get(&ty)).map(|s| same(s, ty, got)).unwrap_or(false) { return Ok(()); }
			for l in self.zones[z].name.len()..n.len() {
				let w = n.trailing(l).child("*");
				if st.nodes.get(&w).and_then(|s| s.get(&ty)).map(|s| same(s, ty, got)).unwrap_or(false) { return Ok(()); }
			}
		}
		Err(format!("{} {} {:?} was accepted but never published by {}", n.s(), ty_str(ty),
			got.iter().map(|d| hex(&d[..d.len().min(24)])).collect::<Vec<_>>(), self.zones[z].name.s()))
	}

	/// Whether an accepted set, if it came from a wildcard, was at a name that wildcard applied to.
	pub fn wildcard_ok(&self, n: &Nm, ty: u16, got: &[Vec<u8>]) -> Result<bool, String> {
		let z = self.zone_of(n);
		if self.evil_above(z) || !self.secure(z) { return Ok(false); }
		let mut sources = Vec::new();
		for st in &self.zones[z].states {
			if st.nodes.get(n).and_then(|s| s.get(&ty)).map(|s| same(s, ty, got)).unwrap_or(false) { return Ok(false); }
			for l in self.zones[z].name.len()..n.len() {
				let w = n.trailing(l).child("*");
				if st.nodes.get(&w).and_then(|s| s.get(&ty)).map(|s| same(s, ty, got)).unwrap_or(false) { sources.push(l); }
			}
		}
		if sources.is_empty() { return Ok(false); }
		// The wildcard's contents may be from another epoch than the proof that nothing is in its way.
		for l in sources {
			for e in 0..self.t.len() { if !self.exists(z, e, &n.trailing(l + 1)) { return Ok(true); } }
		}
		Err(format!("{} {} was accepted from a wildcard, but that wildcard never applied to this name in {}", n.s(), ty_str(ty), self.zones[z].name.s()))
	}

	/// All genuine validity windows and TTLs of signatures in the stream over (owner, ty).
	pub fn genuine(&self, recs: &[Rec], owner: &Nm, ty: u16, signer: Option<&Nm>) -> Vec<(u64, u64, u32)> {
		let mut r = Vec::new();
		for x in recs {
			if x.ty != RRSIG || (x.owner != *owner) { continue; }
			let s = match Sig::parse(&x.rdata) { Some(s) => s, None => continue };
			if s.ty != ty || signer.map(|n| *n != s.signer).unwrap_or(false) { continue; }
			let zi = match self.zones.iter().position(|z| z.name == s.signer) { Some(z) => z, None => continue };
			let mut sources = vec![owner.clone()];
			for l in self.zones[zi].name.len()..owner.len() { sources.push(owner.trailing(l).child("*")); }
			for e in 0..self.t.len() { for src in &sources {
				if let Some(g) = self.signed(zi, e, src, ty) {
					if g.sigs.iter().any(|t| *t == s) { r.push((g.inc, g.exp, g.ttl)); }
				}
			} }
		}
		r
	}
}

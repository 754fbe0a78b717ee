//! What a malicious resolver, network or neighbouring zone operator does to the records on their
//! way to the client.

use crate::dns::*;
use crate::keys::*;
use crate::run::*;
use crate::world::*;
use std::rc::Rc;

fn tweak(ctx: &mut Ctx, d: &mut Vec<u8>) {
	if d.is_empty() { d.push(ctx.src.below(256) as u8); return; }
	match ctx.src.below(6) {
		0..=2 => { let i = ctx.src.idx(d.len()); let b = 1 + ctx.src.below(255) as u8; d[i] ^= b; },
		3 => { let i = ctx.src.idx(d.len()); d.truncate(i); },
		4 => { let n = ctx.src.range(1, 4) as usize; let b = ctx.src.bytes(n); d.extend(b); },
		_ => { let i = ctx.src.idx(d.len()); d.remove(i); },
	}
}

/// A key the attacker holds. It may have the same tag as one of the given keys.
pub fn attacker_key(ctx: &mut Ctx, w: &World, like: &[ZKey]) -> ZKey {
	let evil: Vec<ZKey> = w.zones.iter().filter(|z| z.evil).flat_map(|z| z.states[0].published.clone()).collect();
	let m = ctx.src.below(4);
	if m <= 1 && !like.is_empty() {
		let k = ctx.src.pick(like).clone();
		if k.key.id % 2 == 0 {
			ctx.probe("attacker_key_with_colliding_tag");
			return ZKey { key: key(k.key.alg, k.key.id ^ 1), flags: k.flags, proto: k.proto };
		}
	}
	if m == 2 && !evil.is_empty() { return ctx.src.pick(&evil).clone(); }
	let alg = if like.is_empty() { 15 } else { like[0].key.alg };
	let flags = if ctx.src.chance(1, 2) { 256 } else { 257 };
	ZKey { key: key(alg, 2 * ctx.src.below(8) + 1), flags, proto: 3 }
}

#[allow(clippy::too_many_arguments)]
pub fn forge(ctx: &mut Ctx, w: &World, e: usize, k: &ZKey, signer: &Nm, owner: &Nm, ty: u16, rdatas: Vec<Vec<u8>>, labels: u8) -> Group {
	let ttl = *ctx.src.pick(&[3600u32, 1, 86400]);
	let t = w.t[e];
	let s = sign(k, signer, owner, ty, labels, ttl, (t - 7200) as u32, (t + 10 * 86400) as u32, &rdatas);
	Group { owner: owner.clone(), ty, ttl, rdatas, sigs: vec![s] }
}

pub fn add_links(w: &World, e: usize, z: usize, g: &mut Vec<Group>) {
	for a in w.ancestry(z) {
		for l in w.zone_link(a, e) {
			if !g.iter().any(|h| h.owner == l.owner && h.ty == l.ty) { g.push(l); }
		}
	}
}

fn replace(g: &mut Vec<Group>, new: Group) {
	g.retain(|h| !(h.owner == new.owner && h.ty == new.ty));
	g.push(new);
}

/// Names an attacker wants to forge: the one asked for, or something around it.
pub fn victim_name(ctx: &mut Ctx, w: &World, qn: &Nm) -> Nm {
	match ctx.src.below(6) {
		0..=2 => qn.clone(),
		3 => qn.child("new"),
		4 => { let z = ctx.src.idx(w.zones.len()); w.zones[z].name.clone() },
		_ => {
			let z = ctx.src.idx(w.zones.len());
			let names: Vec<Nm> = w.zones[z].states[0].nodes.keys().cloned().collect();
			ctx.src.pick(&names).clone()
		},
	}
}

/// One attack on the sets of a proof.
pub fn attack_groups(ctx: &mut Ctx, w: &World, e: usize, qn: &Nm, qt: u16, g: &mut Vec<Group>) {
	let evil: Vec<usize> = (0..w.zones.len()).filter(|z| w.zones[*z].evil).collect();
	let victim = victim_name(ctx, w, qn);
	let vz = w.zone_of(&victim);
	let rd = |ctx: &mut Ctx, w: &World| -> (u16, Vec<Vec<u8>>) {
		let ty = if ctx.src.chance(1, 4) { *ctx.src.pick(&[TXT, A, TLSA, NS, CNAME]) } else { qt };
		let d = match ty { NS | CNAME => Nm::p("evil.example.").wire(), _ => w.random_rdata(&mut ctx.src, ty) };
		(ty, vec![d])
	};
	match ctx.src.below(16) {
		0 | 1 => if !evil.is_empty() {
			// An evil zone signs data for somebody else's name with its own keys.
			let ez = *ctx.src.pick(&evil);
			let (ty, d) = rd(ctx, w);
			let keys = w.zones[ez].states[e].zsks.clone();
			let k = ctx.src.pick(&keys).clone();
			let signer = match ctx.src.below(4) { 0..=2 => w.zones[ez].name.clone(), _ => w.zones[vz].name.clone() };
			let labels = if ctx.src.chance(1, 4) { ctx.src.below(victim.len() as u32 + 2) as u8 } else { victim.sig_labels() };
			let f = forge(ctx, w, e, &k, &signer, &victim, ty, d, labels);
			ctx.fault("forged_by_other_zone");
			if victim.s().ends_with(&w.zones[ez].name.s()) && !victim.under(&w.zones[ez].name) { ctx.probe("forger_is_string_suffix"); }
			add_links(w, e, ez, g);
			replace(g, f);
		},
		2 | 3 => {
			// Take over a zone: DS, keys, data, with whatever is missing to link them.
			let anc = w.ancestry(vz);
			let z = *ctx.src.pick(&anc);
			let zn = w.zones[z].name.clone();
			let like = w.zones[z].states[e].ksks.clone();
			let k = attacker_key(ctx, w, &like);
			let style = ctx.src.below(4);
			let mut keys = vec![k.rdata()];
			if style % 2 == 1 { keys.extend(w.zones[z].states[e].published.iter().map(|k| k.rdata())); }
			let kd = forge(ctx, w, e, &k, &zn, &zn, DNSKEY, keys, zn.sig_labels());
			add_links(w, e, z, g);
			replace(g, kd);
			if style >= 2 && !zn.0.is_empty() {
				let mut ds = vec![k.ds(&zn, 2)];
				let (signer, sk) = if !evil.is_empty() && ctx.src.chance(1, 2) {
					let ez = *ctx.src.pick(&evil);
					add_links(w, e, ez, g);
					(w.zones[ez].name.clone(), w.zones[ez].states[e].zsks[0].clone())
				} else if ctx.src.chance(1, 2) { (zn.clone(), k.clone()) } else { (zn.parent().unwrap(), k.clone()) };
				if ctx.src.chance(1, 2) { ds.extend(w.zones[z].states[e].ds.clone()); }
				let mut f = forge(ctx, w, e, &sk, &signer, &zn, DS, ds, zn.sig_labels());
				if ctx.src.chance(1, 4) {
					// By a key of the parent, if one could only check.
					let p = w.zones[z].parent.map(|p| w.zones[p].states[e].published.clone()).unwrap_or_default();
					let p: Vec<ZKey> = p.into_iter().filter(|k| ![8, 10, 13, 14, 15].contains(&k.key.alg)).collect();
					for s in &mut f.sigs {
						s.alg = 16;
						if !p.is_empty() { let k = ctx.src.pick(&p).clone(); s.alg = k.key.alg; s.tag = k.tag(); }
						s.signer = zn.parent().unwrap();
						if let Some(p) = w.zones[z].parent { s.signer = w.zones[p].name.clone(); }
					}
					ctx.fault("unverifiable_delegation");
				}
				if ctx.src.chance(1, 2) {
					// Keep the real delegation's signature next to it.
					if let Some(p) = w.zones[z].parent { if let Some(r) = w.signed(p, e, &zn, DS) { f.sigs.extend(r.sigs.clone()); } }
				}
				replace(g, f);
			}
			let (ty, d) = rd(ctx, w);
			let f = forge(ctx, w, e, &k, &zn, &victim, ty, d, victim.sig_labels());
			replace(g, f);
			ctx.fault("zone_takeover");
		},
		4 => {
			// A key set with an extra key, without a signature by it, or with the old ones kept.
			let anc = w.ancestry(vz);
			let z = *ctx.src.pick(&anc);
			let zn = w.zones[z].name.clone();
			add_links(w, e, z, g);
			let like = w.zones[z].states[e].published.clone();
			let k = attacker_key(ctx, w, &like);
			if let Some(h) = g.iter_mut().find(|h| h.owner == zn && h.ty == DNSKEY) {
				if ctx.src.chance(1, 2) { h.rdatas.insert(0, k.rdata()); } else { h.rdatas.push(k.rdata()); }
				if ctx.src.chance(1, 2) {
					let s = sign(&k, &zn, &zn, DNSKEY, zn.sig_labels(), h.ttl, (w.t[e] - 9000) as u32, (w.t[e] + 900000) as u32, &h.rdatas);
					if ctx.src.chance(1, 2) { h.sigs = vec![s]; } else { h.sigs.push(s); }
				}
			}
			let (ty, d) = rd(ctx, w);
			let f = forge(ctx, w, e, &k, &zn, &victim, ty, d, victim.sig_labels());
			replace(g, f);
			ctx.fault("key_injected");
		},
		5 | 6 => {
			// Sign with a key which is in the victim's key set but is no zone key, or whose only link
			// is a SHA-1 digest next to a better one.
			let anc = w.ancestry(vz);
			let z = *ctx.src.pick(&anc);
			let zn = w.zones[z].name.clone();
			add_links(w, e, z, g);
			let odd: Vec<ZKey> = w.zones[z].states[e].published.iter().filter(|k| k.flags & 256 == 0 || k.proto != 3).cloned().collect();
			let (ty, d) = rd(ctx, w);
			if !odd.is_empty() && ctx.src.chance(2, 3) {
				let mut k = ctx.src.pick(&odd).clone();
				let other = ctx.src.chance(1, 4);
				if other { k.flags = 256; k.proto = 3; }
				let f = forge(ctx, w, e, &k, &zn, &victim, ty, d, victim.sig_labels());
				replace(g, f);
				ctx.fault("signed_with_non_zone_key");
			} else if let Some(ds) = w.zones[z].states[e].ds.iter().find(|d| d[3] == 1 && w.zones[z].states[e].ds.iter().any(|d| d[3] == 2 || d[3] == 4)).cloned() {
				let tag = u16::from_be_bytes([ds[0], ds[1]]);
				for i in 0..8 {
					let k = ZKey { key: key(ds[2], 2 * i + 1), flags: 257, proto: 3 };
					if k.tag() == tag && k.ds(&zn, 1) == ds {
						let kd = forge(ctx, w, e, &k, &zn, &zn, DNSKEY, vec![k.rdata()], zn.sig_labels());
						replace(g, kd);
						let f = forge(ctx, w, e, &k, &zn, &victim, ty, d.clone(), victim.sig_labels());
						replace(g, f);
						ctx.fault("sha1_downgrade");
						break;
					}
				}
			}
		},
		7 | 8 => {
			// Replay a set from another time.
			if g.is_empty() || w.t.len() < 2 { return; }
			let i = ctx.src.idx(g.len());
			let f = ctx.src.idx(w.t.len());
			let (o, t) = (g[i].owner.clone(), g[i].ty);
			for z in 0..w.zones.len() {
				if let Some(s) = w.signed(z, f, &o, t) {
					let n = Group::of(&s, &o);
					if ctx.src.chance(1, 3) {
						// Next to the current one.
						let h = &mut g[i];
						for d in n.rdatas { if !h.rdatas.contains(&d) { h.rdatas.push(d); } }
						h.sigs.extend(n.sigs);
					} else { g[i] = n; }
					ctx.fault("stale_replay");
					break;
				}
			}
		},
		9 => if !g.is_empty() {
			let i = ctx.src.idx(g.len());
			if g[i].rdatas.len() > 1 { let j = ctx.src.idx(g[i].rdatas.len()); g[i].rdatas.remove(j); ctx.fault("record_dropped_from_set"); }
		},
		10 => if !g.is_empty() {
			let i = ctx.src.idx(g.len());
			let ty = g[i].ty;
			let d = if DATA_TYPES.contains(&ty) { w.random_rdata(&mut ctx.src, ty) } else {
				let mut d = g[i].rdatas[0].clone(); tweak(ctx, &mut d); d
			};
			if g[i].rdatas.contains(&d) { return; }
			if ctx.src.chance(1, 2) { g[i].rdatas.push(d); } else { g[i].rdatas = vec![d]; }
			ctx.fault("record_added_or_replaced");
		},
		11 => if !g.is_empty() {
			// Move a set to another name or type.
			let i = ctx.src.idx(g.len());
			let to = victim_name(ctx, w, qn);
			let mut h = g[i].clone();
			if ctx.src.chance(1, 3) { h.ty = *ctx.src.pick(&[TXT, A, DNSKEY, DS, TLSA]); if ctx.src.chance(1, 2) { for s in &mut h.sigs { s.ty = h.ty; } } } else { h.owner = to; }
			if ctx.src.chance(1, 2) { g[i] = h; } else { g.push(h); }
			ctx.fault("set_moved");
		},
		12 => if g.len() > 1 {
			let i = ctx.src.idx(g.len());
			let j = ctx.src.idx(g.len());
			let s = g[j].sigs.clone();
			if ctx.src.chance(1, 2) { g[i].sigs = s; } else { g[i].sigs.extend(s); }
			ctx.fault("signatures_swapped");
		},
		13 => if !g.is_empty() {
			let i = ctx.src.idx(g.len());
			if ctx.src.chance(1, 2) { g.remove(i); ctx.fault("set_dropped"); } else { g[i].sigs.clear(); ctx.fault("signatures_dropped"); }
		},
		14 => {
			// Bring in another zone's genuine data.
			if let Some((n, t, _)) = w.pick_query(&mut ctx.src, e) {
				if let Some(p) = w.proof(e, &n, t) {
					for h in p { if !g.iter().any(|x| x.owner == h.owner && x.ty == h.ty) { g.push(h); } }
					ctx.fault("unrelated_data_added");
				}
			}
		},
		_ => {
			// Claim an algorithm nobody can check.
			let (ty, d) = rd(ctx, w);
			let like = w.zones[vz].states[e].zsks.clone();
			let k = attacker_key(ctx, w, &like);
			let zn = w.zones[vz].name.clone();
			let mut f = forge(ctx, w, e, &k, &zn, &victim, ty, d, victim.sig_labels());
			let alg = *ctx.src.pick(&[253u8, 0, 5, 7, 16, 1]);
			for s in &mut f.sigs { s.alg = alg; if ctx.src.chance(1, 2) { if let Some(k) = like.first() { s.tag = k.tag(); } } }
			if ctx.src.chance(1, 4) { f.sigs.clear(); }
			if ctx.src.chance(1, 2) {
				if let Some(r) = g.iter().find(|h| h.owner == victim && h.ty == ty) { f.sigs.extend(r.sigs.clone()); }
			}
			replace(g, f);
			ctx.fault("unverifiable_algorithm");
		},
	}
}

/// One attack on individual records.
pub fn attack_recs(ctx: &mut Ctx, r: &mut Vec<Rec>) {
	if r.is_empty() { return; }
	let i = ctx.src.idx(r.len());
	match ctx.src.below(8) {
		0..=2 => {
			let sigs: Vec<usize> = (0..r.len()).filter(|i| r[*i].ty == RRSIG).collect();
			if sigs.is_empty() { return; }
			let i = *ctx.src.pick(&sigs);
			let mut s = match Sig::parse(&r[i].rdata) { Some(s) => s, None => return };
			match ctx.src.below(9) {
				0 => s.exp = s.exp.wrapping_add(86400 * 365),
				1 => s.inc = s.inc.wrapping_sub(86400 * 365),
				2 => s.ottl = s.ottl.wrapping_add(1 + ctx.src.below(100000)),
				3 => s.labels = if ctx.src.chance(1, 2) { s.labels.wrapping_sub(1) } else { s.labels.wrapping_add(1) },
				4 => s.alg = *ctx.src.pick(&[8u8, 10, 13, 14, 15, 16, 0, 5]),
				5 => s.tag = s.tag.wrapping_add(1 + ctx.src.below(3) as u16),
				6 => s.ty = *ctx.src.pick(&[A, TXT, DS, DNSKEY, NSEC, RRSIG, 0, 65535]),
				7 => { if let Some(p) = s.signer.parent() { s.signer = p } else { s.signer = Nm::p("com.") } },
				_ => { let mut b = std::mem::take(&mut s.sig); tweak(ctx, &mut b); s.sig = b; },
			}
			r[i].rdata = s.rdata();
			ctx.fault("signature_field_edited");
		},
		3 => { tweak(ctx, &mut r[i].rdata); ctx.fault("rdata_corrupted"); },
		4 => { r.remove(i); ctx.fault("record_dropped"); },
		5 => { let x = r[i].clone(); let j = ctx.src.idx(r.len() + 1); r.insert(j, x); ctx.fault("record_duplicated"); },
		6 => { r[i].ttl = ctx.src.u32(); ctx.fault("ttl_edited"); },
		_ => {
			if let Some(l) = r[i].owner.0.first_mut() {
				let j = ctx.src.idx(l.len());
				l[j] = b'q';
				ctx.fault("owner_edited");
			}
		},
	}
}

pub type Shared<T> = Rc<T>;

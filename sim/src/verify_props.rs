//! Properties of building and checking proofs, C01 to C08.

use crate::attack::*;
use crate::dns::*;
use crate::hooks;
use crate::judge::*;
use crate::keys::*;
use crate::run::*;
use crate::session::*;
use crate::world::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::verify_rr_stream;

pub fn algs(ctx: &mut Ctx) -> Vec<u8> {
	match ctx.src.below(12) {
		0..=5 => vec![15],
		6 | 7 => vec![15, 13],
		8 => vec![13, 14],
		9 => vec![15, 8],
		10 => vec![8, 10, 13],
		_ => vec![8, 10, 13, 14, 15],
	}
}
pub fn flatten(g: &[Group]) -> Vec<Rec> { g.iter().flat_map(|g| g.recs()).collect() }
pub fn dump_world(ctx: &mut Ctx, w: &World) {
	if ctx.src.trace.is_some() { for l in w.describe() { ctx.src.say(|| l.clone()); } }
}
pub fn dump_proof(ctx: &mut Ctx, proof: &[u8]) {
	if ctx.src.trace.is_none() { return; }
	if let Ok(r) = parse_rr_stream(proof) { for r in r { let (n, t, d) = from_lib(&r); ctx.src.say(|| format!("proof: {} {} {}", n.s(), ty_str(t), rdata_str(t, &d))); } }
}
pub fn dump_recs(ctx: &mut Ctx, what: &str, r: &[Rec]) {
	if ctx.src.trace.is_some() { for x in r.iter().take(150) { ctx.src.say(|| format!("{}: {:?}", what, x)); } }
}
pub fn kind(v: &Verdict) -> &'static str {
	match v { Verdict::Ok(_) => "accepted", Verdict::Invalid => "rejected_invalid", Verdict::Unsupported => "rejected_unsupported",
		Verdict::Unparseable => "rejected_unparseable", Verdict::Panic(_) => "panicked" }
}
/// Notes the verdict. Panics are other properties' business unless `crash`.
pub fn settle(ctx: &mut Ctx, v: &Verdict) -> Res {
	ctx.probe(kind(v));
	ctx.src.note(show(v).as_bytes());
	let s = show(v);
	ctx.src.say(|| s);
	match v { Verdict::Panic(p) => bad("panic", format!("verification panicked: {}", p)), _ => Ok(()) }
}
fn panicked<T>(r: Result<T, String>) -> Result<T, Violation> {
	match r { Ok(t) => Ok(t), Err(p) => bad("panic", format!("proof building panicked: {}", p)) }
}
fn zone_shape(w: &World, z: usize) -> String {
	let z = w.ancestry(z).iter().map(|z| {
		let z = &w.zones[*z];
		format!("{}{}{}", if z.evil { "E" } else { "" }, match z.denial { Denial::Nsec => "n", Denial::Nsec3 { optout: false, .. } => "3", _ => "o" },
			match z.security { Security::Secure => "", Security::Island => "i", Security::Unsupported => "u", Security::Unsigned => "-" })
	}).collect::<Vec<_>>();
	z.join("<")
}

/// C01: whatever mix of records an attacker puts together, only records which the owner of the name
/// published are ever accepted.
pub fn c01(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.epochs = ctx.src.range(1, 2) as usize;
	cfg.evil = !ctx.src.chance(1, 6);
	cfg.insecure = ctx.src.chance(1, 3);
	cfg.odd_keys = ctx.src.chance(1, 2);
	cfg.optout = ctx.src.chance(1, 6);
	cfg.max_zones = if ctx.tier_thorough { 6 } else { 4 };
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let e = ctx.src.idx(w.t.len());
	let (qn, qt) = match w.pick_query(&mut ctx.src, e) {
		Some((n, t, _)) => (n, t),
		None => (w.zones.last().unwrap().name.child("www"), TXT),
	};
	let mut g = w.proof(e, &qn, qt).unwrap_or_default();
	if ctx.src.chance(1, 10) { g.clear(); }
	let n = match ctx.src.below(12) { 0..=6 => 1, 7..=9 => 2, 10 => 3, _ => 0 };
	let before: Vec<(&'static str, u64)> = ctx.st.faults.iter().map(|(k, v)| (*k, *v)).collect();
	for _ in 0..n { attack_groups(ctx, &w, e, &qn, qt, &mut g); }
	let mut recs = flatten(&g);
	if ctx.src.chance(1, 4) { let k = ctx.src.range(1, 3); for _ in 0..k { attack_recs(ctx, &mut recs); } }
	match ctx.src.below(3) { 0 => {}, 1 => recs.reverse(), _ => ctx.src.shuffle(&mut recs) }
	dump_recs(ctx, "to client", &recs);
	let _ = before;
	let bytes = match panicked(deliver(ctx, &qn, qt, recs))? { Some(b) => b, None => return Ok(()) };
	let v = verify_bytes(&bytes);
	settle(ctx, &v)?;
	let sig = format!("{:?} {} {} {}", ctx.st.faults.keys().collect::<Vec<_>>(), kind(&v), ty_str(qt), zone_shape(&w, w.zone_of(&qn)));
	if let Verdict::Ok(v) = &v {
		for ((n, t), got) in sets(&v.rrs) {
			if let Err(m) = w.authentic(&n, t, &got) { return bad("forged", m); }
		}
		ctx.state(format!("{} {}", sig, v.rrs.len()).as_bytes());
	} else if n > 0 { ctx.state(sig.as_bytes()); }
	Ok(())
}

fn supported(alg: u8) -> bool { [8, 10, 13, 14, 15].contains(&alg) }
/// C23: a zone which can be checked is never reported as one which cannot.
pub fn c23(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.epochs = ctx.src.range(1, 2) as usize;
	cfg.evil = ctx.src.chance(1, 6);
	cfg.insecure = true;
	cfg.dual = true;
	cfg.odd_keys = ctx.src.chance(1, 3);
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let e = ctx.src.idx(w.t.len());
	let (qn, qt) = match w.pick_query(&mut ctx.src, e) { Some((n, t, _)) => (n, t), None => return Ok(()) };
	let mut g = w.proof(e, &qn, qt).unwrap_or_default();
	let n = ctx.src.below(4);
	for _ in 0..n {
		let z = *ctx.src.pick(&w.ancestry(w.zone_of(&qn)));
		let zn = w.zones[z].name.clone();
		let st = &w.zones[z].states[e];
		let link: Vec<usize> = (0..g.len()).filter(|i| g[*i].owner == zn && [DNSKEY, DS].contains(&g[*i].ty)).collect();
		match ctx.src.below(10) {
			0 | 1 => for i in &link { if g[*i].ty == DNSKEY { g[*i].sigs.retain(|s| !supported(s.alg)); ctx.fault("supported_signature_dropped"); } },
			2 => if !g.is_empty() { let i = ctx.src.idx(g.len()); g[i].sigs.retain(|s| !supported(s.alg)); ctx.fault("supported_signature_dropped"); },
			3 | 4 => if !link.is_empty() {
				// Signatures nobody can check cost nothing.
				let i = *ctx.src.pick(&link);
				let mut tags: Vec<(u16, u8)> = st.published.iter().map(|k| (k.tag(), k.key.alg)).collect();
				tags.extend(st.ds.iter().map(|d| (u16::from_be_bytes([d[0], d[1]]), d[2])));
				if ctx.src.chance(1, 2) { tags.retain(|t| !supported(t.1)); }
				if tags.is_empty() { continue; }
				let (tag, mut alg) = *ctx.src.pick(&tags);
				if ctx.src.chance(1, 3) { alg = *ctx.src.pick(&[16u8, 253, 5, 7, 0]); }
				let (len, ttl) = (*ctx.src.pick(&[0usize, 64, 114]), g[i].ttl);
				let s = Sig { ty: g[i].ty, alg, labels: zn.sig_labels(), ottl: ttl, exp: (w.t[e] + 900000) as u32, inc: (w.t[e] - 9000) as u32, tag,
					signer: if g[i].ty == DNSKEY { zn.clone() } else { zn.parent().unwrap_or(zn.clone()) }, sig: ctx.src.bytes(len) };
				match ctx.src.below(3) { 0 => g[i].sigs = vec![s], 1 => g[i].sigs.insert(0, s), _ => g[i].sigs.push(s) }
				ctx.fault("uncheckable_signature_added");
			},
			5 => if !link.is_empty() {
				// Leave out whatever could be checked.
				let i = *ctx.src.pick(&link);
				if g[i].ty == DS { g[i].rdatas.retain(|d| d.len() < 4 || !supported(d[2]) || ![1, 2].contains(&d[3])); } else { g[i].rdatas.retain(|d| d.len() < 4 || !supported(d[3])); }
				g.retain(|h| !h.rdatas.is_empty());
				ctx.fault("supported_records_dropped");
			},
			6 | 7 => attack_groups(ctx, &w, e, &qn, qt, &mut g),
			_ => {
				let mut r = flatten(&g);
				attack_recs(ctx, &mut r);
				let v = verify_bytes(&encode(&r));
				settle(ctx, &v)?;
				uncheckable(&w, &r, &v)?;
			},
		}
	}
	let mut recs = flatten(&g);
	match ctx.src.below(3) { 0 => {}, 1 => recs.reverse(), _ => ctx.src.shuffle(&mut recs) }
	dump_recs(ctx, "to client", &recs);
	let bytes = match panicked(deliver(ctx, &qn, qt, recs.clone()))? { Some(b) => b, None => return Ok(()) };
	let v = verify_bytes(&bytes);
	settle(ctx, &v)?;
	let z = w.zone_of(&qn);
	ctx.state(format!("{:?} {} {}", ctx.st.faults.keys().collect::<Vec<_>>(), kind(&v), zone_shape(&w, z)).as_bytes());
	uncheckable(&w, &recs, &v)?;
	if n == 0 && bytes == encode(&recs) {
		let way: Vec<Security> = w.ancestry(z).iter().rev().map(|z| w.zones[*z].security).collect();
		if way.iter().find(|s| **s != Security::Secure) == Some(&Security::Unsupported) {
			ctx.probe("honest_unsupported");
			if v != Verdict::Unsupported { return bad("unreported", format!("an honest proof for {} with a zone nobody can check on the way came out as {:?}", qn.s(), kind(&v))); }
		}
	}
	Ok(())
}
fn uncheckable(w: &World, recs: &[Rec], v: &Verdict) -> Res {
	if *v != Verdict::Unsupported { return Ok(()); }
	for (i, z) in w.zones.iter().enumerate() {
		let Some(p) = z.parent else { continue };
		if z.security == Security::Unsupported && (w.secure(p) || w.evil_above(p)) && recs.iter().any(|r| r.ty == DS && r.owner == z.name) { return Ok(()); }
		if w.evil_above(i) && recs.iter().any(|r| r.ty == DS && r.owner.under(&z.name) && r.owner != z.name) { return Ok(()); }
	}
	bad("downgraded", "the algorithms were said to be unsupported although every zone on the way has a delegation which can be checked".into())
}

fn some_wild(ctx: &mut Ctx, w: &World, e: usize) -> Option<(usize, Nm, u16)> {
	let mut l = Vec::new();
	for (zi, z) in w.zones.iter().enumerate() {
		if z.evil || w.evil_above(zi) || !w.secure(zi) { continue; }
		for (n, s) in &z.states[e].nodes {
			if n.is_wild() { for t in s.keys() { if *t != DNAME { l.push((zi, n.clone(), *t)); } } }
		}
	}
	if l.is_empty() { return None; }
	Some(ctx.src.pick(&l).clone())
}

/// C02: a wildcard is only accepted at names it applies to.
pub fn c02(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = vec![15];
	cfg.epochs = ctx.src.range(1, 2) as usize;
	cfg.evil = ctx.src.chance(2, 3);
	cfg.optout = ctx.src.chance(1, 2);
	cfg.insecure = ctx.src.chance(1, 6);
	cfg.wild_heavy = true;
	cfg.max_zones = 4;
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let e = ctx.src.idx(w.t.len());
	let (zi, wild, ty) = match some_wild(ctx, &w, e) { Some(x) => x, None => return Ok(()) };
	let base = wild.parent().unwrap();
	let mut g: Vec<Group> = Vec::new();
	let mut what = String::new();
	let expansions = if ctx.src.chance(1, 3) { 2 } else { 1 };
	let wilds: Vec<(Nm, u16)> = w.zones[zi].states[e].nodes.iter().filter(|(n, _)| n.is_wild()).flat_map(|(n, s)| s.keys().filter(|t| **t != DNAME).map(|t| (n.clone(), *t))).collect();
	let pairs: Vec<(usize, usize)> = (0..wilds.len()).flat_map(|i| (0..wilds.len()).map(move |j| (i, j)))
		.filter(|(i, j)| { let (a, b) = (wilds[*i].0.parent().unwrap(), wilds[*j].0.parent().unwrap()); b.under(&a) && a != b }).collect();
	if !pairs.is_empty() && ctx.src.chance(1, 3) {
		// An honest answer from one wildcard, and one from a wildcard further up for the names between.
		let (i, j) = *ctx.src.pick(&pairs);
		let (above, inner) = (wilds[i].0.parent().unwrap(), wilds[j].0.parent().unwrap());
		let absent = inner.child(*ctx.src.pick(&["q", "zzz", "-", "~"]));
		if let Some(s) = w.signed(zi, e, &wilds[j].0, wilds[j].1) { g.push(Group::of(&s, &if ctx.src.chance(1, 2) { absent.clone() } else { absent.child("q") })); }
		if let Some((d, _)) = w.denial_of(zi, e, &absent) { g.push(Group::of(&d, &d.owner)); }
		let mut target = inner.trailing(ctx.src.range(above.len() as u32 + 1, inner.len() as u32) as usize);
		if ctx.src.chance(1, 2) { target = target.child(*ctx.src.pick(&["q", "a", "0"])); }
		if let Some(s) = w.signed(zi, e, &wilds[i].0, wilds[i].1) { if !g.iter().any(|h| h.owner == target && h.ty == wilds[i].1) { g.push(Group::of(&s, &target)); } }
		ctx.fault("nested_wildcards");
		what.push_str("nested ");
	}
	for x in 0..expansions {
		// A name to pretend the wildcard applies to.
		let below: Vec<Nm> = w.zones.iter().flat_map(|z| z.states.iter().flat_map(|s| s.nodes.keys().cloned()))
			.filter(|n| n.under(&base) && *n != base).collect();
		let target = match ctx.src.below(8) {
			0 | 1 | 2 if !below.is_empty() => ctx.src.pick(&below).clone(),
			3 if !below.is_empty() => ctx.src.pick(&below).child(*["q", "a", "_tcp"].get(x).unwrap()),
			4 if !below.is_empty() => {
				let n = ctx.src.pick(&below).clone();
				let l = ctx.src.range(base.len() as u32 + 1, n.len() as u32) as usize;
				n.trailing(l)
			},
			5 => { let a = *ctx.src.pick(&["ent", "a", "zz", "0"]); base.child(a).child("ent") },
			6 => base.child(*ctx.src.pick(&["a", "q", "zz", "!", "~", "m"])),
			_ => { let a = *ctx.src.pick(&["q", "b", "-"]); let b = *ctx.src.pick(&["q", "x", "0"]); base.child(a).child(b) },
		};
		if target.is_wild() { continue; }
		let mut tys = vec![ty];
		if ctx.src.chance(1, 4) {
			tys = w.zones[zi].states[e].nodes.get(&wild).map(|s| s.keys().copied().collect()).unwrap_or(tys);
		}
		for ty in tys {
			if let Some(s) = w.signed(zi, e, &wild, ty) {
				if !g.iter().any(|h| h.owner == target && h.ty == ty) { g.push(Group::of(&s, &target)); }
			}
		}
		let ex = w.exists(zi, e, &target);
		what.push_str(match (ex, w.zone_of(&target) == zi) { (true, true) => "existing ", (true, false) => "cut ", (false, _) => "absent " });
		ctx.fault("wildcard_expanded");
		// Denials to go with it.
		let mut nc = target.clone();
		while nc.len() > base.len() + 1 { nc = nc.parent().unwrap(); }
		let n = ctx.src.range(0, 2);
		for _ in 0..=n {
			let f = ctx.src.idx(w.t.len());
			match ctx.src.below(18) {
				0..=2 => if let Some((d, _)) = w.denial_of(zi, f, &nc) { g.push(Group::of(&d, &d.owner)); what.push_str("right "); ctx.fault("denial_right"); },
				3 | 4 => {
					// A denial of some other name on the way.
					let l = ctx.src.range(w.zones[zi].name.len() as u32, target.len() as u32) as usize;
					let m = target.trailing(l);
					if let Some((d, _)) = w.denial_of(zi, f, &m) { g.push(Group::of(&d, &d.owner)); what.push_str("other-name "); ctx.fault("denial_of_other_name"); }
				},
				5 | 6 => {
					let ch = w.chain(zi, f);
					let (o, _) = ctx.src.pick(&ch).clone();
					let t = if w.zones[zi].denial == Denial::Nsec { NSEC } else { NSEC3 };
					if let Some(s) = w.signed(zi, f, &o, t) { g.push(Group::of(&s, &o)); what.push_str("random "); ctx.fault("denial_random"); }
				},
				7 | 8 => {
					// From another zone.
					let z2 = ctx.src.idx(w.zones.len());
					if let Some((d, _)) = w.denial_of(z2, f, &nc) {
						g.push(Group::of(&d, &d.owner));
						add_links(&w, f, z2, &mut g);
						what.push_str("other-zone ");
						ctx.fault("denial_from_other_zone");
					}
				},
				14 | 15 => {
					// The hash with one salt among hashes with another.
					if let (Denial::Nsec3 { salt, iters, .. }, Some((salt2, iters2))) = (&w.zones[zi].denial, &w.zones[zi].states[f].second) {
						let flip = ctx.src.chance(1, 2);
						let h = if flip { nsec3_hash(&nc, salt2, *iters2) } else { nsec3_hash(&nc, salt, *iters) };
						let h = w.zones[zi].name.child(&base32hex(&h));
						let ch = w.chain(zi, f);
						let half = ch.len() / 2;
						let (mine, other) = if flip { (&ch[half..], &ch[..half]) } else { (&ch[..half], &ch[half..]) };
						let mut own: Vec<&Nm> = other.iter().map(|(n, _)| n).collect();
						own.sort();
						let o = own.iter().rposition(|n| **n < h).map(|i| own[i]).unwrap_or(own[own.len() - 1]).clone();
						if let Some(s) = w.signed(zi, f, &o, NSEC3) { g.push(Group::of(&s, &o)); }
						let o = ctx.src.pick(mine).0.clone();
						if let Some(s) = w.signed(zi, f, &o, NSEC3) { g.push(Group::of(&s, &o)); }
						what.push_str("salts ");
						ctx.fault("denial_salts_mixed");
					}
				},
				16 | 17 => {
					// A wildcard's own denial, as if it were some other name's.
					let wilds: Vec<Nm> = w.chain(zi, f).iter().map(|c| c.0.clone()).filter(|n| n.is_wild()).collect();
					if w.zones[zi].denial != Denial::Nsec || wilds.is_empty() { continue; }
					let wn = ctx.src.pick(&wilds).clone();
					if let Some(s) = w.signed(zi, f, &wn, NSEC) {
						let p = wn.parent().unwrap();
						let o = if nc.under(&p) && ctx.src.chance(1, 2) { nc.clone() } else { p.child(*ctx.src.pick(&["!", "#", "a", "-", "0"])) };
						g.push(Group::of(&s, &o));
						what.push_str("moved ");
						ctx.fault("denial_of_wildcard_moved");
					}
				},
				9 => if let Some((o, _)) = w.zones[zi].states[f].odd_denials.first() {
					if let Some(s) = w.signed(zi, f, o, NSEC3) { g.push(Group::of(&s, o)); what.push_str("odd "); ctx.fault("denial_unknown_nsec3"); }
				},
				10 | 11 => {
					// An evil zone denies everything in sight, with its own keys.
					let evil: Vec<usize> = (0..w.zones.len()).filter(|z| w.zones[*z].evil).collect();
					if evil.is_empty() { continue; }
					let ez = *ctx.src.pick(&evil);
					let en = w.zones[ez].name.clone();
					let k = w.zones[ez].states[f].zsks[0].clone();
					let h = match &w.zones[zi].denial { Denial::Nsec3 { salt, iters, .. } => Some((salt.clone(), *iters)), _ => None };
					let (owner, t, d) = if h.is_some() || ctx.src.chance(1, 3) {
						let (salt, iters) = h.unwrap_or((vec![], 0));
						let hash = nsec3_hash(&nc, &salt, iters);
						let (mut lo, mut hi) = (hash.clone(), hash.clone());
						if ctx.src.chance(1, 2) { lo = vec![0; 20]; hi = vec![0xff; 20]; } else { lo[0] = lo[0].wrapping_sub(1); hi[0] = hi[0].wrapping_add(1); }
						let mut d = vec![1, 0];
						d.extend_from_slice(&iters.to_be_bytes());
						d.push(salt.len() as u8);
						d.extend_from_slice(&salt);
						d.push(20);
						d.extend_from_slice(&hi);
						d.extend(bitmap(&[RRSIG]));
						let at = if ctx.src.chance(1, 2) { en.clone() } else { w.zones[zi].name.clone() };
						(at.child(&base32hex(&lo)), NSEC3, d)
					} else {
						let owner = match ctx.src.below(3) { 0 => en.clone(), 1 => en.child("!"), _ => base.clone() };
						let mut d = match ctx.src.below(3) { 0 => nc.child("~").wire(), 1 => base.child("~~").wire(), _ => en.child("~").wire() };
						d.extend(bitmap(&[RRSIG, NSEC]));
						(owner, NSEC, d)
					};
					let labels = if ctx.src.chance(1, 6) { base.sig_labels() } else { owner.sig_labels() };
					let f2 = forge(ctx, &w, f, &k, &en, &owner, t, vec![d], labels);
					add_links(&w, f, ez, &mut g);
					g.push(f2);
					what.push_str("evil ");
					ctx.fault("denial_by_evil_zone");
				},
				12 => {
					// The right one, moved or edited.
					if let Some((d, _)) = w.denial_of(zi, f, &base.child("zzz")) {
						let mut h = Group::of(&d, &d.owner);
						if ctx.src.chance(1, 2) { h.owner = nc.clone(); } else { h.rdatas[0] = { let mut d = nc.child("~").wire(); d.extend(bitmap(&[NSEC])); d }; }
						g.push(h);
						what.push_str("edited ");
						ctx.fault("denial_edited");
					}
				},
				_ => {},
			}
		}
	}
	if ctx.src.chance(1, 8) {
		// The zone also has a delegation at the wildcard, to keys which somebody else holds. It does
		// not apply to names which exist any more than other records do.
		let all = |n: &Nm| (0..w.t.len()).all(|f| w.exists(zi, f, n));
		let there: Vec<Nm> = w.zones[zi].states[e].nodes.keys().chain(w.zones.iter().filter(|z| z.parent == Some(zi)).map(|z| &z.name))
			.filter(|n| n.under(&base) && **n != base && !n.is_wild() && !n.0.iter().any(|l| l == b"*") && all(&n.trailing(base.len() + 1))).cloned().collect();
		if !there.is_empty() {
			let target = ctx.src.pick(&there).clone();
			let k = attacker_key(ctx, &w, &[]);
			let zk = w.zones[zi].states[e].zsks[0].clone();
			let zn = w.zones[zi].name.clone();
			let ds = forge(ctx, &w, e, &zk, &zn, &target, DS, vec![k.ds(&target, 2)], wild.sig_labels());
			let kd = forge(ctx, &w, e, &k, &target, &target, DNSKEY, vec![k.rdata()], target.sig_labels());
			let owner = if ctx.src.chance(1, 2) { target.clone() } else { target.child("a") };
			let f = forge(ctx, &w, e, &k, &target, &owner, TXT, vec![txt_simple(b"not theirs")], owner.sig_labels());
			if ctx.src.chance(1, 2) {
				let nc = target.trailing(base.len() + 1);
				if let Some((d, _)) = w.denial_of(zi, e, &nc) { g.push(Group::of(&d, &d.owner)); }
			}
			g.retain(|h| !(h.owner == owner && h.ty == TXT) && !(h.owner == target && (h.ty == DS || h.ty == DNSKEY)));
			g.extend([ds, kd, f]);
			what.push_str("ds ");
			ctx.fault("delegation_at_wildcard_expanded");
		}
	}
	g.dedup_by(|a, b| a.owner == b.owner && a.ty == b.ty && a.rdatas == b.rdatas);
	let mut uniq: Vec<Group> = Vec::new();
	for h in g { if !uniq.iter().any(|u| u.owner == h.owner && u.ty == h.ty) { uniq.push(h); } }
	let mut g = uniq;
	add_links(&w, e, zi, &mut g);
	let mut recs = flatten(&g);
	if ctx.src.chance(1, 2) { ctx.src.shuffle(&mut recs); }
	dump_recs(ctx, "to client", &recs);
	let qn = g.first().map(|g| g.owner.clone()).unwrap_or(base);
	let bytes = match panicked(deliver(ctx, &qn, ty, recs))? { Some(b) => b, None => return Ok(()) };
	let v = verify_bytes(&bytes);
	settle(ctx, &v)?;
	ctx.state(format!("{}{} {}", what, kind(&v), zone_shape(&w, zi)).as_bytes());
	if let Verdict::Ok(v) = &v {
		for ((n, t), got) in sets(&v.rrs) {
			if let Err(m) = w.authentic(&n, t, &got) { return bad("forged", m); }
			match w.wildcard_ok(&n, t, &got) {
				Ok(true) => ctx.probe("wildcard_accepted"),
				Ok(false) => {},
				Err(m) => return bad("wildcard", m),
			}
		}
	}
	Ok(())
}

/// C03: the validity window and cache time never exceed those of any link.
pub fn c03(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.epochs = ctx.src.range(1, 3) as usize;
	cfg.evil = ctx.src.chance(1, 4);
	cfg.wide_times = ctx.src.chance(1, 2);
	cfg.wild_heavy = ctx.src.chance(1, 3);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let e = ctx.src.idx(w.t.len());
	let (qn, qt, _) = match w.pick_query(&mut ctx.src, e) { Some(x) => x, None => return Ok(()) };
	let mut g = match w.proof(e, &qn, qt) { Some(g) => g, None => return Ok(()) };
	let wrap = w.answer(e, &qn, qt).map(|a| a.2).unwrap_or(true);
	let mut tampered = false;
	let mut pattern = Vec::new();
	if w.t.len() > 1 && ctx.src.chance(2, 3) {
		// Links from different times.
		for i in 0..g.len() {
			if !ctx.src.chance(1, 3) { pattern.push(e); continue; }
			let f = ctx.src.idx(w.t.len());
			pattern.push(f);
			if f == e { continue; }
			let (o, t) = (g[i].owner.clone(), g[i].ty);
			let z = if t == DS { w.zones[w.zone_of(&o)].parent } else { Some(w.zone_of(&o)) };
			if let Some(s) = z.and_then(|z| w.signed(z, f, &o, t)) {
				if s.rdatas == g[i].rdatas && ctx.src.chance(1, 2) {
					// The same contents with both signatures.
					if ctx.src.chance(1, 2) { g[i].sigs.extend(s.sigs.iter().cloned()); } else { g[i].sigs.splice(0..0, s.sigs.iter().cloned()); }
				} else { g[i] = Group::of(&s, &o); }
				ctx.fault("link_from_another_time");
				tampered = true;
			}
		}
	}
	let mut recs = flatten(&g);
	if ctx.src.chance(1, 4) { attack_recs(ctx, &mut recs); tampered = true; }
	if ctx.src.chance(1, 3) {
		for r in recs.iter_mut() { if ctx.src.chance(1, 3) { r.ttl = ctx.src.u32(); } }
		ctx.fault("ttls_rewritten");
	}
	if ctx.src.chance(1, 2) { ctx.src.shuffle(&mut recs); }
	dump_recs(ctx, "to client", &recs);
	let v = verify_bytes(&encode(&recs));
	settle(ctx, &v)?;
	let v = match v { Verdict::Ok(v) => v, v => {
		ctx.state(format!("{:?} {}", pattern, kind(&v)).as_bytes());
		return Ok(())
	} };
	let era = w.t[0] >> 29;
	ctx.state(format!("{:?} {:?} {} {}", pattern, ctx.st.faults.keys().collect::<Vec<_>>(), era, zone_shape(&w, w.zone_of(&qn))).as_bytes());
	if v.from >= v.expires { return bad("window", format!("empty validity window {}..{}", v.from, v.expires)); }
	let mut zones: Vec<usize> = Vec::new();
	for ((n, t), got) in sets(&v.rrs) {
		let z = w.zone_of(&n);
		if w.evil_above(z) { continue; }
		if w.authentic(&n, t, &got).is_err() { continue; }
		zones.extend(w.ancestry(z));
		let l = w.genuine(&recs, &n, t, Some(&w.zones[z].name));
		link(&v, &l, &format!("{} {}", n.s(), ty_str(t)))?;
	}
	zones.sort();
	zones.dedup();
	for z in &zones {
		let n = &w.zones[*z].name;
		link(&v, &w.genuine(&recs, n, DNSKEY, Some(n)), &format!("{} DNSKEY", n.s()))?;
		if let Some(p) = w.zones[*z].parent {
			link(&v, &w.genuine(&recs, n, DS, Some(&w.zones[p].name)), &format!("{} DS", n.s()))?;
		}
	}
	if !tampered && !wrap && !w.zones.iter().any(|z| z.evil) {
		// Every signature counts, and all those of a set have the same times.
		let (mut from, mut exp, mut ttl) = (0, u64::MAX, u32::MAX);
		for h in &g {
			for (a, b, c) in w.genuine(&recs, &h.owner, h.ty, None) { from = from.max(a); exp = exp.min(b); ttl = ttl.min(c); }
		}
		ctx.probe("exact_window_checked");
		if (v.from, v.expires, v.ttl) != (from, exp, ttl) {
			return bad("window", format!("window {}..{} ttl {} but the signatures say {}..{} ttl {}", v.from, v.expires, v.ttl, from, exp, ttl));
		}
	}
	Ok(())
}
fn link(v: &Verified, l: &[(u64, u64, u32)], what: &str) -> Res {
	if l.is_empty() { return bad("window", format!("accepted without any genuine signature over {}", what)); }
	let inc = l.iter().map(|x| x.0).min().unwrap();
	let exp = l.iter().map(|x| x.1).max().unwrap();
	let ttl = l.iter().map(|x| x.2).max().unwrap();
	if v.from < inc { return bad("window", format!("valid from {} although {} was only signed from {}", v.from, what, inc)); }
	if v.expires > exp { return bad("window", format!("expires {} although the signature over {} expires {}", v.expires, what, exp)); }
	if v.ttl > ttl { return bad("window", format!("may be cached for {} although {} has a TTL of {}", v.ttl, what, ttl)); }
	Ok(())
}

/// How many queries it takes to walk up from the answer.
pub fn needed_queries(w: &World, e: usize, qn: &Nm, qt: u16) -> Option<usize> {
	let (a, b, _) = w.answer(e, qn, qt)?;
	let mut zones: Vec<usize> = Vec::new();
	for g in a.iter().chain(b.iter()) {
		for s in &g.sigs { zones.extend(w.ancestry(w.zones.iter().position(|z| z.name == s.signer)?)); }
	}
	zones.sort();
	zones.dedup();
	Some(1 + zones.iter().map(|z| if w.zones[*z].parent.is_none() { 1 } else { 2 }).sum::<usize>())
}
pub fn truth(w: &World, e: usize, steps: &[Step]) -> Vec<(Nm, u16, Vec<u8>)> {
	let s = steps.last().unwrap();
	let set = &w.zones[s.zone].states[e].nodes[&s.source][&s.ty];
	let mut r: Vec<_> = set.rdatas.iter().map(|d| (s.owner.clone(), s.ty, meaning(s.ty, d))).collect();
	r.sort();
	r.dedup();
	r
}
pub fn resolved(bytes: &[u8], n: &Nm) -> Result<Option<Vec<(Nm, u16, Vec<u8>)>>, String> { resolved_spelt(bytes, &n.s()) }
pub fn resolved_spelt(bytes: &[u8], n: &str) -> Result<Option<Vec<(Nm, u16, Vec<u8>)>>, String> {
	guard(|| {
		let rrs = parse_rr_stream(bytes).ok()?;
		let v = verify_rr_stream(&rrs).ok()?;
		let name: dnssec_prover::rr::Name = n.try_into().ok()?;
		let mut r: Vec<_> = v.resolve_name(&name).iter().map(|r| from_lib(r)).collect();
		r.sort();
		r.dedup();
		Some(r)
	})
}
pub fn honest_world(ctx: &mut Ctx) -> World {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.wild_heavy = ctx.src.chance(1, 3);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	cfg.wide_times = ctx.src.chance(1, 6);
	cfg.odd_keys = ctx.src.chance(1, 4);
	cfg.split_txt = known_mode("txt-strings");
	cfg.nsec_caps = known_mode("nsec-case");
	if known_mode("nsec-both") { cfg.wild_heavy = true; cfg.alias_heavy = true; }
	World::generate(&mut ctx.src, cfg)
}
/// A denial of the answer which uses the end of an NSEC chain. The crate's own tests demand that
/// these be rejected.
pub fn nsec_wraps(w: &World, e: usize, qn: &Nm, qt: u16) -> bool {
	w.resolve(e, qn, qt).map(|s| s.iter().any(|s| match &s.next_closer {
		Some(nc) => w.zones[s.zone].denial == Denial::Nsec && w.denial_of(s.zone, e, nc).map(|d| d.1).unwrap_or(false),
		None => false,
	})).unwrap_or(false)
}
/// A proof with the NSEC records of both sides of a zone cut, which have the same name and type but are
/// sets of their own. The crate takes them for one.
pub fn nsec_both_sides(w: &World, e: usize, qn: &Nm, qt: u16) -> bool {
	let mut seen: Vec<(Nm, usize)> = Vec::new();
	for s in w.resolve(e, qn, qt).unwrap_or_default() {
		let Some(nc) = &s.next_closer else { continue };
		if w.zones[s.zone].denial != Denial::Nsec { continue; }
		if let Some((d, _)) = w.denial_of(s.zone, e, nc) {
			if seen.iter().any(|x| x.0 == d.owner && x.1 != s.zone) { return true; }
			seen.push((d.owner.clone(), s.zone));
		}
	}
	false
}
/// Known findings about denials.
pub fn nsec_trouble(w: &World, e: usize, qn: &Nm, qt: u16) -> bool { nsec_wraps(w, e, qn, qt) || nsec_both_sides(w, e, qn, qt) }

/// Set while showing what is listed in known_findings.txt, which is otherwise stepped around.
pub fn known_mode(what: &str) -> bool { std::env::var("SIM_KNOWN").map(|k| k == what).unwrap_or(false) }

/// C04: with honest zones and an honest resolver, everything within the query limit can be proven.
pub fn c04(ctx: &mut Ctx) -> Res {
	let w = honest_world(ctx);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let (mut qn, mut qt, mut steps) = match w.pick_query(&mut ctx.src, 0) { Some(x) => x, None => return Ok(()) };
	if known_mode("nsec-both") {
		// Rare, so look for it.
		for _ in 0..60 {
			if nsec_both_sides(&w, 0, &qn, qt) && !nsec_wraps(&w, 0, &qn, qt) { break; }
			if let Some(x) = w.pick_query(&mut ctx.src, 0) { (qn, qt, steps) = x; }
		}
	}
	if !known_mode("nsec-wrap") && nsec_wraps(&w, 0, &qn, qt) { ctx.probe("skipped_nsec_wrap"); return Ok(()); }
	if !known_mode("nsec-both") && nsec_both_sides(&w, 0, &qn, qt) { ctx.probe("skipped_nsec_both_sides"); return Ok(()); }
	let need = needed_queries(&w, 0, &qn, qt).unwrap();
	let style = Style::random(&mut ctx.src);
	let aged = ctx.src.chance(1, 2);
	let reorder = ctx.src.chance(2, 3);
	ctx.src.say(|| format!("asking for {} {} ({} queries needed) {:?}", qn.s(), ty_str(qt), need, style));
	let o = panicked(drive(ctx, &qn, qt, reorder, &mut |ctx, n, t, _| honest_response(ctx, &w, 0, &style, n, t, aged)))?;
	if let Some(q) = o.bad_query { return bad("query", q); }
	if style.compress { ctx.fault("names_compressed"); }
	if style.caps != 0 { ctx.fault("names_recapitalised"); }
	if style.sigs_last || style.shuffle { ctx.fault("records_reordered"); }
	if style.extras { ctx.fault("unrelated_records_added"); }
	if aged { ctx.fault("ttls_aged"); }
	let shape: Vec<String> = steps.iter().map(|s| format!("{}{}@{}", ty_str(s.ty), if s.next_closer.is_some() { "*" } else { "" }, zone_shape(&w, s.zone))).collect();
	ctx.state(format!("{:?} {} {}", shape, need, o.queries.iter().map(|q| ty_str(q.1)).collect::<Vec<_>>().join(",")).as_bytes());
	let (proof, _) = match o.proof {
		Some(p) => p,
		None if need > 10 => { ctx.probe("over_query_limit"); return Ok(()); },
		None => return bad("incomplete", format!("no proof for {} {} although {} queries suffice ({} rejected)", qn.s(), ty_str(qt), need, o.rejected)),
	};
	if need > 10 { ctx.probe("over_query_limit"); return Ok(()); }
	let v = verify_bytes(&proof);
	dump_proof(ctx, &proof);
	settle(ctx, &v)?;
	match &v {
		Verdict::Ok(v) => {
			if v.from > w.t[0] || v.expires < w.t[0] { return bad("incomplete", format!("the proof of {} is not valid now, but {}..{}", qn.s(), v.from, v.expires)); }
		},
		v => return bad("incomplete", format!("the proof of {} {} is {}", qn.s(), ty_str(qt), show(v))),
	}
	let got = match resolved(&proof, &qn) { Ok(g) => g.unwrap_or_default(), Err(p) => return bad("panic", p) };
	let want = truth(&w, 0, &steps);
	if got != want { return bad("incomplete", format!("{} {} resolves to {:?} instead of {:?}", qn.s(), ty_str(qt), got, want)); }
	ctx.probe("proved");
	Ok(())
}

fn unordered(v: &Verdict) -> Verdict {
	match v { Verdict::Ok(v) => { let mut v = v.clone(); v.rrs.sort(); Verdict::Ok(v) }, v => v.clone() }
}
/// If several zones are in trouble for different reasons either may be reported.
fn same_verdict(a: &Verdict, b: &Verdict, whole: bool) -> bool {
	let no = |v: &Verdict| matches!(v, Verdict::Invalid | Verdict::Unsupported);
	unordered(a) == unordered(b) || (!whole && no(a) && no(b))
}
/// C05: the order of records in a proof, and of responses, does not matter.
pub fn c05(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.epochs = ctx.src.range(1, 2) as usize;
	cfg.insecure = ctx.src.chance(1, 3);
	cfg.wild_heavy = ctx.src.chance(1, 2);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	cfg.odd_keys = ctx.src.chance(1, 2);
	cfg.optout = ctx.src.chance(1, 4);
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let e = ctx.src.idx(w.t.len());
	let (qn, qt, _) = match w.pick_query(&mut ctx.src, e) { Some(x) => x, None => return Ok(()) };
	let mut a = String::new();
	if ctx.src.chance(1, 3) {
		// Answers arriving in another order, from resolvers which lay them out differently.
		let mut vs = Vec::new();
		for i in 0..3 {
			let style = if i == 0 { Style::default() } else { Style::random(&mut ctx.src) };
			let o = panicked(drive(ctx, &qn, qt, i > 0, &mut |ctx, n, t, _| honest_response(ctx, &w, e, &style, n, t, false)))?;
			let v = o.proof.map(|(p, _)| (unordered(&verify_bytes(&p)), resolved(&p, &qn).ok()));
			a.push_str(&o.queries.iter().map(|q| ty_str(q.1)).collect::<Vec<_>>().join(","));
			vs.push(v);
		}
		if let Some((v, _)) = &vs[0] { settle(ctx, v)?; }
		ctx.state(a.as_bytes());
		for v in &vs[1..] {
			if *v != vs[0] { return bad("order", format!("{} {}: {:?} became {:?} with responses in another order", qn.s(), ty_str(qt), vs[0], v)); }
		}
		return Ok(());
	}
	let mut g = match w.proof(e, &qn, qt) { Some(g) => g, None => return Ok(()) };
	let mut whole = true;
	let extra = ctx.src.below(3);
	for _ in 0..extra {
		if let Some((n, t, _)) = w.pick_query(&mut ctx.src, e) {
			for h in w.proof(e, &n, t).unwrap_or_default() {
				if !g.iter().any(|x| x.owner == h.owner && x.ty == h.ty) { g.push(h); }
			}
			ctx.fault("unrelated_proof_added");
		}
	}
	if w.t.len() > 1 && ctx.src.chance(1, 3) && !g.is_empty() {
		let i = ctx.src.idx(g.len());
		let f = ctx.src.idx(w.t.len());
		let (o, t) = (g[i].owner.clone(), g[i].ty);
		let z = if t == DS { w.zones[w.zone_of(&o)].parent } else { Some(w.zone_of(&o)) };
		if let Some(s) = z.and_then(|z| w.signed(z, f, &o, t)) {
			if s.rdatas == g[i].rdatas {
				// Any one signature over a DNSKEY set is enough, and which one is used is not specified.
				if t == DNSKEY { g[i].sigs.clear(); }
				whole = false;
				for s in &s.sigs { if !g[i].sigs.contains(s) { g[i].sigs.push(s.clone()); } }
				ctx.fault("both_old_and_new_signatures");
			} else { g[i] = Group::of(&s, &o); whole = false; ctx.fault("stale_replay"); }
		}
	}
	if ctx.src.chance(1, 8) && !g.is_empty() { let i = ctx.src.idx(g.len()); g.remove(i); whole = false; ctx.fault("set_dropped"); }
	let recs = flatten(&g);
	dump_recs(ctx, "to client", &recs);
	let v0 = verify_bytes(&encode(&recs));
	settle(ctx, &v0)?;
	let r0 = resolved(&encode(&recs), &qn).ok();
	for i in 0..4 {
		let mut p = recs.clone();
		match i { 0 => p.reverse(), _ => ctx.src.shuffle(&mut p) }
		ctx.fault("records_permuted");
		let b = encode(&p);
		let v = verify_bytes(&b);
		if !same_verdict(&v, &v0, whole) {
			dump_recs(ctx, "permuted", &p);
			return bad("order", format!("{} became {} when the records were reordered", show(&v0), show(&v)));
		}
		if resolved(&b, &qn).ok() != r0 { return bad("order", format!("{} resolves differently when the records are reordered", qn.s())); }
	}
	ctx.state(format!("{} {} {} {:?}", g.len(), recs.len(), kind(&v0), ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes());
	Ok(())
}

/// C24: everything with an unbroken chain is accepted, and nothing else, whatever else there is.
pub fn c24(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.insecure = ctx.src.chance(1, 2);
	cfg.dual = ctx.src.chance(1, 3);
	cfg.wild_heavy = ctx.src.chance(1, 3);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	cfg.odd_keys = ctx.src.chance(1, 3);
	cfg.wide_times = ctx.src.chance(1, 6);
	cfg.max_zones = 6;
	if ctx.src.chance(1, 4) {
		cfg.wide = true;
		cfg.max_zones = if ctx.src.chance(1, 40) { ctx.src.range(30, 80) } else { ctx.src.range(6, 16) };
	}
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let mut g: Vec<Group> = Vec::new();
	let n = if w.cfg.wide { ctx.src.range(6, if w.zones.len() > 24 { 90 } else { 24 }) } else { ctx.src.range(1, 6) };
	for _ in 0..n {
		let (qn, qt) = match w.pick_query(&mut ctx.src, 0) { Some((n, t, _)) => (n, t), None => continue };
		if nsec_trouble(&w, 0, &qn, qt) { ctx.probe("skipped_nsec_trouble"); continue; }
		let p = w.proof(0, &qn, qt).unwrap_or_default();
		let signer = |g: &Group| g.sigs.first().map(|s| s.signer.clone());
		if p.iter().any(|h| g.iter().any(|x| x.owner == h.owner && x.ty == h.ty && signer(x) != signer(h))) { ctx.probe("skipped_nsec_trouble"); continue; }
		for h in p {
			if !g.iter().any(|x| x.owner == h.owner && x.ty == h.ty) { g.push(h); }
		}
	}
	if ctx.src.chance(1, 4) {
		// Whatever else some zone has signed.
		let z = ctx.src.idx(w.zones.len());
		for (o, sets) in &w.zones[z].states[0].nodes { for t in sets.keys() {
			if g.iter().any(|x| x.owner == *o && x.ty == *t) || !ctx.src.chance(1, 2) { continue; }
			if let Some(s) = w.signed(z, 0, o, *t) { g.push(Group::of(&s, o)); ctx.fault("unasked_set_added"); }
		} }
		add_links(&w, 0, z, &mut g);
	}
	if g.is_empty() { return Ok(()); }
	// Parts which go missing without making anything else wrong.
	let k = ctx.src.below(3);
	for _ in 0..k {
		let z = ctx.src.idx(w.zones.len());
		let zn = w.zones[z].name.clone();
		let i = ctx.src.idx(g.len());
		match ctx.src.below(4) {
			0 if z > 0 => { g.retain(|h| h.owner != zn || h.ty != DS); ctx.fault("delegation_lost"); },
			1 if z > 0 => { g.retain(|h| h.owner != zn || ![DS, DNSKEY].contains(&h.ty)); ctx.fault("link_lost"); },
			2 if ![DNSKEY, NSEC, NSEC3].contains(&g[i].ty) => { g[i].sigs.clear(); ctx.fault("signatures_lost"); },
			3 if z > 0 && ctx.src.chance(1, 3) => {
				if ctx.src.chance(1, 2) { g.retain(|h| h.owner != zn || h.ty != DNSKEY); } else {
					for h in &mut g { if h.owner == zn && h.ty == DNSKEY { h.sigs.clear(); } }
				}
				ctx.fault("keys_lost");
			},
			_ if ![DNSKEY, DS, NSEC, NSEC3].contains(&g[i].ty) => { g.remove(i); ctx.fault("set_lost"); },
			_ => {},
		}
	}
	let mut reached = vec![0];
	let mut uncheckable = false;
	let mut keyless = false;
	let mut i = 0;
	while i < reached.len() {
		let name = &w.zones[reached[i]].name;
		keyless |= !g.iter().any(|h| h.owner == *name && h.ty == DNSKEY && !h.sigs.is_empty());
		for (c, z) in w.zones.iter().enumerate() {
			if z.parent != Some(reached[i]) || reached.contains(&c) || !g.iter().any(|h| h.owner == z.name && h.ty == DS && !h.sigs.is_empty()) { continue; }
			match z.security { Security::Secure => reached.push(c), Security::Unsupported => { uncheckable = true; keyless |= !g.iter().any(|h| h.owner == z.name && h.ty == DNSKEY && !h.sigs.is_empty()); }, _ => {} }
		}
		i += 1;
	}
	let mut want: Vec<(Nm, u16, Vec<u8>)> = Vec::new();
	for h in &g {
		if [DNSKEY, DS, NSEC, NSEC3].contains(&h.ty) || !h.sigs.iter().any(|s| supported(s.alg) && reached.iter().any(|z| w.zones[*z].name == s.signer)) { continue; }
		for d in &h.rdatas { want.push((h.owner.clone(), h.ty, meaning(h.ty, d))); }
	}
	want.sort();
	want.dedup();
	let mut recs = flatten(&g);
	if ctx.src.chance(2, 3) { ctx.src.shuffle(&mut recs); ctx.fault("records_shuffled"); }
	dump_recs(ctx, "to client", &recs);
	let v = verify_bytes(&encode(&recs));
	settle(ctx, &v)?;
	ctx.state(format!("{} {} {} {:?}", g.len(), reached.len(), kind(&v), ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes());
	let list = |l: &[(Nm, u16, Vec<u8>)]| l.iter().map(|(n, t, _)| format!("{} {}", n.s(), ty_str(*t))).collect::<Vec<_>>().join(", ");
	match &v {
		Verdict::Invalid | Verdict::Unsupported if keyless && uncheckable => Ok(()),
		Verdict::Invalid if keyless => { ctx.probe("keys_missing"); Ok(()) },
		v if keyless => bad("set", format!("{} although the keys of a zone with a delegation were missing", show(v))),
		Verdict::Ok(v) if uncheckable => bad("set", format!("{} records were accepted although the keys of a zone could not be checked", v.rrs.len())),
		Verdict::Ok(v) => {
			let mut got = v.rrs.clone();
			got.sort();
			if got != want { return bad("set", format!("accepted [{}] instead of [{}]", list(&got), list(&want))); }
			if want.len() > 1 { ctx.probe("several_accepted"); }
			Ok(())
		},
		Verdict::Unsupported if uncheckable => { ctx.probe("uncheckable_zone"); Ok(()) },
		v if uncheckable => bad("set", format!("{} although the only trouble is a zone whose keys cannot be checked", show(v))),
		Verdict::Invalid if want.is_empty() => { ctx.probe("nothing_to_accept"); Ok(()) },
		v => bad("set", format!("{} instead of accepting [{}]", show(v), list(&want))),
	}
}

/// Everything following aliases from a name may lead to, or `None` if there are too many ways.
fn model_resolve(rrs: &[(Nm, u16, Vec<u8>)], n: &Nm) -> (Option<Vec<Vec<(Nm, u16, Vec<u8>)>>>, &'static str) {
	// Every way of choosing among several aliases is fine.
	let mut out: Vec<Vec<(Nm, u16, Vec<u8>)>> = Vec::new();
	let mut edges: Vec<(Nm, Vec<Nm>)> = Vec::new();
	let mut todo = vec![n.clone()];
	let mut too_long = false;
	while let Some(n) = todo.pop() {
		if edges.iter().any(|(m, _)| *m == n) { continue; }
		if edges.len() > 400 { return (None, "too_many_ways"); }
		let mut next: Vec<Nm> = Vec::new();
		for (o, t, d) in rrs {
			if *t == CNAME && *o == n { if let Some((t, _)) = read_name(d, 0) { next.push(t); } }
			if *t == DNAME && n.under(o) && n != *o {
				if let Some((t, _)) = read_name(d, 0) { next.push(Nm::join(&n.0[..n.len() - o.len()], &t)); }
			}
		}
		if next.is_empty() {
			let mut r: Vec<_> = rrs.iter().filter(|(o, _, _)| *o == n).cloned().collect();
			r.sort();
			if !out.contains(&r) { out.push(r); }
		}
		next.retain(|m| { let ok = m.wire_len() <= 255; too_long |= !ok; ok });
		todo.extend(next.iter().cloned());
		edges.push((n, next));
	}
	// Whatever is left after repeatedly removing names leading nowhere else is part of a cycle.
	loop {
		let n = edges.len();
		let names: Vec<Nm> = edges.iter().map(|e| e.0.clone()).collect();
		edges.retain(|(_, next)| next.iter().any(|m| names.contains(m)));
		if edges.len() == n { break; }
	}
	let how = if !edges.is_empty() { "cycle" } else if too_long { "too_long" } else { "end" };
	if how != "end" && !out.contains(&Vec::new()) { out.push(Vec::new()); }
	(Some(out), how)
}

/// C06: following aliases. Operators keep rewriting their aliases, and the network combines what
/// they said at different times.
pub fn c06(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.max_zones = 2;
	cfg.epochs = ctx.src.range(1, 3) as usize;
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let labels = ["a", "b", "ab", "x", "com", "om"];
	let tops: Vec<Nm> = w.zones.iter().map(|z| z.name.clone()).collect();
	let name = |ctx: &mut Ctx, root: bool| -> Nm {
		let n = *ctx.src.pick(&[1u32, 2, 2, 3, 0]);
		let mut r = if root && ctx.src.chance(1, 2) { Nm::root() } else { ctx.src.pick(&tops).clone() };
		for _ in 0..n { r = r.child(*ctx.src.pick(&labels)); }
		if ctx.src.chance(1, 20) { for _ in 0..3 { r = r.child(&"l".repeat(60)); } }
		r
	};
	// What was published when: later versions of a set replace earlier ones.
	let mut sets: Vec<(Nm, u16, Vec<Vec<Vec<u8>>>)> = Vec::new();
	let mut pool: Vec<Nm> = vec![name(ctx, true)];
	let n = ctx.src.range(1, 9);
	for _ in 0..n {
		let o = if ctx.src.chance(1, 2) { ctx.src.pick(&pool).clone() } else { name(ctx, true) };
		let ty = *ctx.src.pick(&[CNAME, CNAME, CNAME, DNAME, DNAME, DNAME, TXT, TXT, A, AAAA, NS, TLSA]);
		if sets.iter().any(|s| s.0 == o && s.1 == ty) { continue; }
		pool.push(o.clone());
		let mut versions: Vec<Vec<Vec<u8>>> = Vec::new();
		for e in 0..w.t.len() {
			if e > 0 && ctx.src.chance(1, 2) { let v = versions[e - 1].clone(); versions.push(v); continue; }
			let mut v = Vec::new();
			// At most one alias record of a kind per name, as the DNS demands.
			let cnt = if ty == CNAME || ty == DNAME { 1 } else { ctx.src.range(1, 2) };
			for _ in 0..cnt {
				let d = match ty {
					TXT => txt_simple(&[b'a' + ctx.src.below(3) as u8]),
					A => vec![1, 2, 3, ctx.src.below(3) as u8],
					AAAA => { let mut v = vec![0x20; 15]; v.push(ctx.src.below(3) as u8); v },
					TLSA => { let mut v = vec![3, 1, 1]; v.extend([7; 31]); v.push(ctx.src.below(3) as u8); v },
					_ => {
						let t = match ctx.src.below(6) {
							0 | 1 => ctx.src.pick(&pool).clone(),
							2 => { let n = ctx.src.pick(&pool).clone(); n.child(*ctx.src.pick(&labels)) },
							_ => name(ctx, true),
						};
						pool.push(t.clone());
						t.wire()
					},
				};
				if !v.contains(&d) { v.push(d); }
			}
			v.sort();
			versions.push(v);
		}
		sets.push((o, ty, versions));
	}
	// A subtree which is an alias of what it is in: every visit makes a name shorter.
	let mut descent = None;
	if ctx.src.chance(1, 6) {
		let top = if ctx.src.chance(1, 2) { ctx.src.pick(&pool).clone() } else { name(ctx, true) };
		let l = *ctx.src.pick(&labels);
		let (o, end) = (top.child(l), top.child("end"));
		if end.wire_len() < 200 && !sets.iter().any(|s| (s.0 == o && s.1 == DNAME) || s.0 == end) {
			sets.push((o.clone(), DNAME, vec![vec![top.wire()]; w.t.len()]));
			sets.push((end, TXT, vec![vec![txt_simple(b"end")]; w.t.len()]));
			let k = *ctx.src.pick(&[1u32, 3, 10, 30, 125]);
			let mut q = o;
			for _ in 1..k { if q.wire_len() + 12 < 255 { q = q.child(l); } }
			descent = Some(q.child("end"));
			ctx.fault("aliases_visited_repeatedly");
		}
	}
	let e = ctx.src.idx(w.t.len());
	let mut g: Vec<Group> = Vec::new();
	let mut pattern = Vec::new();
	for (o, ty, versions) in &sets {
		let f = if ctx.src.chance(1, 3) { ctx.src.idx(w.t.len()) } else { e };
		if f != e && versions[f] != versions[e] { ctx.fault("alias_from_another_time"); }
		if ctx.src.chance(1, 12) { ctx.fault("set_lost"); continue; }
		pattern.push(f);
		let z = w.zone_of(o);
		let k = w.zones[z].states[f].zsks[0].clone();
		let zn = w.zones[z].name.clone();
		add_links(&w, f, z, &mut g);
		let mut s = forge(ctx, &w, f, &k, &zn, o, *ty, versions[f].clone(), o.sig_labels());
		// All validity periods overlap, whenever it was signed.
		for s2 in &mut s.sigs { *s2 = sign(&k, &zn, o, *ty, o.sig_labels(), 300, (w.t[0] - 1000) as u32, (w.t[w.t.len() - 1] + 1000) as u32, &versions[f]); }
		g.push(s);
	}
	let q = match ctx.src.below(4) {
		0 => name(ctx, true),
		1 => { let n = ctx.src.pick(&pool).clone(); n.child(*ctx.src.pick(&labels)) },
		_ => ctx.src.pick(&pool).clone(),
	};
	let q = match descent { Some(d) if ctx.src.chance(2, 3) => d, _ => q };
	let qname = match lib_name(&q) { Some(q) => q, None => return Ok(()) };
	let mut recs = flatten(&g);
	ctx.src.shuffle(&mut recs);
	dump_recs(ctx, "to client", &recs);
	let bytes = match panicked(deliver(ctx, &q, TXT, recs))? { Some(b) => b, None => return Ok(()) };
	let rrs = match guard(|| parse_rr_stream(&bytes)) { Ok(Ok(r)) => r, Ok(Err(())) => return Ok(()), Err(p) => return bad("panic", p) };
	let v = match guard(|| verify_rr_stream(&rrs)) { Ok(Ok(v)) => v, Ok(Err(_)) => { ctx.probe("not_accepted"); return Ok(()); }, Err(p) => return bad("panic", p) };
	let meant: Vec<_> = v.verified_rrs.iter().map(|r| from_lib(r)).collect();
	let (want, how) = model_resolve(&meant, &q);
	ctx.src.say(|| format!("resolving {}: {}, expecting one of {:?}", q.s(), how, want));
	ctx.probe(match how { "cycle" => "alias_cycle", "too_long" => "alias_too_long", _ => "alias_end" });
	if how != "end" { ctx.fault("unresolvable_aliases"); }
	let mut got = match guard(|| v.resolve_name(&qname).iter().map(|r| from_lib(r)).collect::<Vec<_>>()) { Ok(g) => g, Err(p) => return bad("panic", p) };
	got.sort();
	ctx.src.note(format!("{:?}", got).as_bytes());
	let shape: Vec<String> = g.iter().filter(|g| g.ty != DNSKEY && g.ty != DS).map(|g| format!("{}{}", ty_str(g.ty), g.owner.len())).collect();
	ctx.state(format!("{:?} {:?} {} {} {}", shape, pattern, q.len(), how, got.len()).as_bytes());
	let want = match want { Some(w) => w, None => return Ok(()) };
	if !want.contains(&got) { return bad("resolve", format!("{} resolved to {:?}, expected one of {:?}", q.s(), got, want)); }
	Ok(())
}

fn corrupt(ctx: &mut Ctx, b: &mut Vec<u8>) {
	if b.is_empty() { return; }
	let n = ctx.src.range(1, 4);
	for _ in 0..n {
		if b.is_empty() { return; }
		let i = ctx.src.idx(b.len());
		match ctx.src.below(9) {
			0 => { b[i] ^= 1 << ctx.src.below(8); ctx.fault("bit_flipped"); },
			1 => { b[i] = *ctx.src.pick(&[0u8, 0xff, 0x3f, 0x40, 0xc0, 0x80, 0x7f]); ctx.fault("byte_overwritten"); },
			2 => { b.truncate(i); ctx.fault("truncated"); },
			3 => { let l = ctx.src.range(1, 8) as usize; let x = ctx.src.bytes(l); b.splice(i..i, x); ctx.fault("bytes_inserted"); },
			4 => { let e = (i + ctx.src.range(1, 16) as usize).min(b.len()); b.drain(i..e); ctx.fault("bytes_removed"); },
			5 => if i + 2 <= b.len() { let v = *ctx.src.pick(&[0u16, 1, 0xff, 0x100, 0x7fff, 0xffff]); b[i..i + 2].copy_from_slice(&v.to_be_bytes()); ctx.fault("length_overwritten"); },
			6 => { let e = (i + ctx.src.range(1, 64) as usize).min(b.len()); let x = b[i..e].to_vec(); let j = ctx.src.idx(b.len()); b.splice(j..j, x); ctx.fault("bytes_repeated"); },
			7 => if i + 2 <= b.len() { let p = 0xc000 | ctx.src.below(b.len().min(0x3fff) as u32) as u16; b[i..i + 2].copy_from_slice(&p.to_be_bytes()); ctx.fault("pointer_inserted"); },
			_ => { b.extend(vec![ctx.src.below(256) as u8; ctx.src.range(1, 400) as usize]); ctx.fault("junk_appended"); },
		}
	}
}
/// Records whose fields are within the format but at its edges.
fn edgy(ctx: &mut Ctx, w: &World) -> Rec {
	let z = ctx.src.idx(w.zones.len());
	let zn = w.zones[z].name.clone();
	let owner = match ctx.src.below(5) { 0 => Nm::root(), 1 => zn.child(&"l".repeat(63)), 2 => Nm((0..120).map(|_| vec![b'a']).collect()), 3 => zn.child("*"), _ => zn.clone() };
	let ty = *ctx.src.pick(&[A, AAAA, NS, TXT, CNAME, DNAME, TLSA, DS, DNSKEY, RRSIG, NSEC, NSEC3, 6, 99]);
	let mut d = match ty {
		TXT => match ctx.src.below(5) { 0 => vec![], 1 => vec![0], 2 => txt_rdata(&[b"a", b"", b"bc"]), 3 => txt_simple(&vec![b'a'; 65535 - 257]), _ => vec![0; 300] },
		CNAME | DNAME | NS => { let mut d = owner.wire(); if ctx.src.chance(1, 2) { d.push(0); } d },
		RRSIG => {
			let labels = *ctx.src.pick(&[0u8, 1, 127, 128, 254, 255]);
			let s = Sig { ty: *ctx.src.pick(&[0u16, TXT, RRSIG, DNSKEY, DS, NSEC, NSEC3, 65535]), alg: *ctx.src.pick(&[0u8, 8, 13, 15, 255]), labels,
				ottl: u32::MAX, exp: *ctx.src.pick(&[0u32, 851472000, u32::MAX]), inc: *ctx.src.pick(&[0u32, 851471999, u32::MAX]), tag: 0, signer: owner.clone(),
				sig: vec![1; *ctx.src.pick(&[0usize, 1, 64, 5000, 65000])] };
			s.rdata()
		},
		NSEC => { let mut d = owner.wire(); d.extend(edgy_bitmap(ctx)); d },
		NSEC3 => {
			let mut d = vec![ctx.src.below(3) as u8, ctx.src.below(3) as u8];
			d.extend(ctx.src.pick(&[0u16, 1, 2500, 2501, 65535]).to_be_bytes());
			let sl = *ctx.src.pick(&[0u8, 1, 255]);
			d.push(sl);
			d.extend(vec![7; sl as usize]);
			let hl = *ctx.src.pick(&[0u8, 1, 19, 20, 21, 255]);
			d.push(hl);
			d.extend(vec![9; hl as usize]);
			d.extend(edgy_bitmap(ctx));
			d
		},
		DNSKEY => {
			let alg = *ctx.src.pick(&[8u8, 10, 13, 14, 15, 0]);
			let k = match ctx.src.below(8) { 0 => vec![], 1 => vec![0], 2 => vec![0, 0, 0], 3 => vec![0, 0xff, 0xff, 1], 4 => vec![255; 100], 5 => vec![0; 4], 6 => vec![1; 65000], _ => vec![4; 33] };
			dnskey_rdata(256, 3, alg, &k)
		},
		DS => { let mut d = vec![0, 1, 8, *ctx.src.pick(&[0u8, 1, 2, 4, 255])]; d.extend(vec![1; *ctx.src.pick(&[0usize, 20, 32, 33, 60000])]); d },
		_ => { let l = *ctx.src.pick(&[0usize, 3, 4, 5, 16, 17]); ctx.src.bytes(l) },
	};
	if ctx.src.chance(1, 4) { let l = ctx.src.idx(d.len() + 1); d.truncate(l); }
	if ctx.src.chance(1, 4) { let l = ctx.src.below(5) as usize; let b = ctx.src.bytes(l); d.extend(b); }
	ctx.fault("edge_case_record");
	d.truncate(65535);
	Rec { owner, ty, ttl: u32::MAX, rdata: d }
}
/// DNSKEY contents which no signer would generate.
fn odd_key(ctx: &mut Ctx) -> Vec<u8> {
	let alg = *ctx.src.pick(&[8u8, 8, 8, 10, 13, 14, 15, 16, 5, 0, 255]);
	let k = match ctx.src.below(16) {
		0 => vec![], 1 => vec![0], 2 => vec![0, 0], 3 => vec![1], 4 => vec![0, 0, 0], 5 => vec![0, 1, 0], 6 => vec![0, 0xff, 0xff, 1], 7 => vec![255; 100],
		8 => vec![1, 3], 9 => vec![3, 1, 0, 1], 10 => { let mut v = vec![1, 0]; v.extend(vec![0xff; 128]); v }, 11 => { let mut v = vec![3, 1, 0, 1]; v.extend(vec![0; 256]); v },
		12 => { let mut v = vec![0, 2, 0]; v.extend(vec![0xff; 512 + 128]); v }, 13 => { let l = *ctx.src.pick(&[31usize, 32, 33, 63, 64, 65, 95, 96, 97]); vec![0; l] },
		14 => { let l = *ctx.src.pick(&[32usize, 64, 96]); vec![0xff; l] },
		_ => { let l = ctx.src.below(300) as usize; ctx.src.bytes(l) },
	};
	dnskey_rdata(*ctx.src.pick(&[256u16, 257, 0x180]), 3, alg, &k)
}
fn edgy_bitmap(ctx: &mut Ctx) -> Vec<u8> {
	let mut d = Vec::new();
	let n = ctx.src.below(4);
	for _ in 0..n {
		d.push(*ctx.src.pick(&[0u8, 1, 254, 255]));
		let l = *ctx.src.pick(&[0u8, 1, 32, 33, 64, 255]);
		d.push(l);
		d.extend(vec![*ctx.src.pick(&[0u8, 0xff]); l as usize]);
	}
	d
}

/// C07: nothing received from the network makes the client panic, hang or use memory out of
/// proportion.
pub fn c07(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.evil = ctx.src.chance(1, 2);
	cfg.insecure = ctx.src.chance(1, 4);
	cfg.max_zones = 3;
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	let (qn, qt) = match w.pick_query(&mut ctx.src, 0) { Some((n, t, _)) => (n, t), None => (Nm::p("a.b."), TXT) };
	let live = wee_alloc::reset_peak();
	let entry = ctx.src.below(3);
	let mut fed = 0usize;
	let mut all: Vec<Vec<u8>> = Vec::new();
	let mut outcome = "none";
	// What ends up at the verifier.
	let mut streams: Vec<Vec<u8>> = Vec::new();
	match entry {
		0 => {
			let mut g = w.proof(0, &qn, qt).unwrap_or_default();
			if ctx.src.chance(1, 2) { attack_groups(ctx, &w, 0, &qn, qt, &mut g); }
			let mut r = flatten(&g);
			let n = ctx.src.below(4);
			for _ in 0..n { let x = edgy(ctx, &w); let i = ctx.src.idx(r.len() + 1); r.insert(i, x); }
			if ctx.src.chance(1, 3) { attack_recs(ctx, &mut r); }
			let mut b = encode(&r);
			if ctx.src.chance(2, 3) { corrupt(ctx, &mut b); }
			streams.push(b);
		},
		1 => {
			// Signed by a zone which is evil but linked from the root.
			let mut g = w.proof(0, &qn, qt).unwrap_or_default();
			let evil: Vec<usize> = (0..w.zones.len()).filter(|z| w.zones[*z].evil).collect();
			let ez = if evil.is_empty() { w.zones.len() - 1 } else { *ctx.src.pick(&evil) };
			add_links(&w, 0, ez, &mut g);
			let en = w.zones[ez].name.clone();
			if ctx.src.chance(1, 2) {
				// Its key set holds keys nobody could have made, and signatures which are said to be theirs.
				let st = &w.zones[ez].states[0];
				if let (Some(ksk), Some(h)) = (st.ksks.first(), g.iter_mut().find(|h| h.owner == en && h.ty == DNSKEY)) {
					let mut odd: Vec<Vec<u8>> = Vec::new();
					let k = ctx.src.range(1, 3);
					for _ in 0..k {
						let d = odd_key(ctx);
						if !h.rdatas.contains(&d) { if ctx.src.chance(1, 2) { h.rdatas.insert(0, d.clone()); } else { h.rdatas.push(d.clone()); } odd.push(d); }
					}
					h.sigs = vec![sign(ksk, &en, &en, DNSKEY, en.sig_labels(), h.ttl, (w.t[0] - 100) as u32, (w.t[0] + 100) as u32, &h.rdatas)];
					let data = vec![txt_simple(b"x")];
					for d in odd {
						let o = en.child(*ctx.src.pick(&["p", "q"]));
						let mut s = sign(ksk, &en, &o, TXT, o.sig_labels(), 60, (w.t[0] - 100) as u32, (w.t[0] + 100) as u32, &data);
						s.alg = d[3];
						s.tag = key_tag(&d);
						let l = *ctx.src.pick(&[0usize, 1, 32, 63, 64, 65, 96, 127, 128, 129, 256, 257, 512, 513, 60000]);
						s.sig = match ctx.src.below(3) { 0 => vec![0; l], 1 => vec![0xff; l], _ => ctx.src.bytes(l) };
						g.push(Group { owner: o, ty: TXT, ttl: 60, rdatas: data.clone(), sigs: vec![s] });
					}
					ctx.fault("impossible_keys");
				}
			}
			let n = ctx.src.range(1, 4);
			for _ in 0..n {
				let x = edgy(ctx, &w);
				let owner = if x.owner.under(&en) { x.owner.clone() } else { en.child("x") };
				if w.zones[ez].states[0].zsks.is_empty() { continue; }
				let k = w.zones[ez].states[0].zsks[0].clone();
				let labels = *ctx.src.pick(&[owner.sig_labels(), 0, 1, owner.len() as u8, 255]);
				let f = forge(ctx, &w, 0, &k, &en, &owner, x.ty, vec![x.rdata], labels);
				g.push(f);
			}
			let mut r = flatten(&g);
			if ctx.src.chance(1, 3) { ctx.src.shuffle(&mut r); }
			streams.push(encode(&r));
		},
		_ => {
			let style = Style::random(&mut ctx.src);
			let (mut sum, mut got) = (0usize, Vec::new());
			let o = drive(ctx, &qn, qt, true, &mut |ctx, n, t, _| {
				let mut b = honest_response(ctx, &w, 0, &style, n, t, true);
				if ctx.src.chance(1, 6) {
					let k = ctx.src.range(1, 3);
					let mut r: Vec<Rec> = Vec::new();
					for _ in 0..k { let x = edgy(ctx, &w); r.push(x); }
					b = render_recs(&style, n, t, &r, &[]);
				}
				if ctx.src.chance(1, 2) { corrupt(ctx, &mut b); }
				match ctx.src.below(40) {
					// Answers which blow up when compression is undone.
					39 => b = bomb(ctx),
					38 => b = spiral(ctx),
					_ => {},
				}
				b.truncate(65535);
				sum += b.len();
				got.push(b.clone());
				b
			});
			fed += sum;
			all.extend(got);
			match o {
				Err(p) => return bad("panic", format!("processing a response panicked: {}", p)),
				Ok(o) => {
					outcome = if o.proof.is_some() { "proof" } else if o.rejected > 0 { "refused" } else { "gave_up" };
					if let Some((p, _)) = o.proof { streams.push(p); }
				},
			}
		},
	}
	for b in &streams {
		fed += b.len();
		all.push(b.clone());
		ctx.src.say(|| format!("stream {}", hex(&b[..b.len().min(3000)])));
		let r = guard(|| {
			let rrs = match parse_rr_stream(b) { Ok(r) => r, Err(()) => return "unparseable" };
			for r in &rrs { let _ = r.json(); }
			let v = match verify_rr_stream(&rrs) { Ok(v) => v, Err(_) => return "rejected" };
			if let Some(n) = lib_name(&qn) { let _ = v.resolve_name(&n); }
			for r in &v.verified_rrs { let _ = v.resolve_name(r.name()); let _ = r.json(); }
			"accepted"
		});
		outcome = match r { Ok(o) => o, Err(p) => return bad("panic", format!("a client panicked: {}", p)) };
	}
	let used = wee_alloc::peak().saturating_sub(live);
	ctx.state(format!("{} {} {:?}", entry, outcome, ctx.st.faults.iter().map(|(k, v)| (*k, (*v).min(3))).collect::<Vec<_>>()).as_bytes());
	ctx.src.note(outcome.as_bytes());
	ctx.src.say(|| format!("outcome {}, {} bytes of input", outcome, fed));
	let limit = fair_memory(fed, &all);
	if used > limit { return bad("memory", format!("{} bytes of memory for {} bytes of input (at most {} are in proportion)", used, fed, limit)); }
	Ok(())
}
/// Memory in proportion to some input. A parsed NSEC record takes 8 KiB whatever its size on the
/// wire, and undoing compression turns two bytes into a name of 255, so what records there are counts.
fn fair_memory(fed: usize, all: &[Vec<u8>]) -> usize {
	let count = |p: &[u8]| all.iter().map(|b| b.windows(p.len()).filter(|w| *w == p).count()).sum::<usize>();
	let records = count(&[0, 1]);
	let denials = count(&[0, 47, 0, 1]) + count(&[0, 50, 0, 1]);
	(1 << 20) + 25 * fed + 1200 * records + 9000 * denials
}
/// Names which go on and on by way of pointers back into themselves.
fn spiral(ctx: &mut Ctx) -> Vec<u8> {
	ctx.fault("compression_spiral");
	let mut b = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0];
	let in_question = ctx.src.chance(1, 2);
	if !in_question { b.extend([1, b'a', 0, 0, 16, 0, 1]); }
	let start = b.len();
	let l = *ctx.src.pick(&[63usize, 1, 7]);
	let n = *ctx.src.pick(&[1usize, 3, 60, 250, 900]);
	for _ in 0..n { if b.len() < 65000 { b.push(l as u8); b.extend(vec![b'x'; l]); } }
	let back = start + (l + 1) * *ctx.src.pick(&[0usize, 1, n / 2, n - 1]);
	let back = if back > 0x3fff { start } else { back };
	b.extend((0xc000 | back as u16).to_be_bytes());
	b.extend([0, 16, 0, 1]);
	if in_question { b.extend([0xc0, 12, 0, 16, 0, 1]); }
	b.extend([0, 0, 0, 1, 0, 2, 1, b'a']);
	b
}
fn bomb(ctx: &mut Ctx) -> Vec<u8> {
	ctx.fault("compression_bomb");
	let n = 2000u16;
	let mut b = vec![0, 0, 0x81, 0xa0, 0, 1];
	b.extend(n.to_be_bytes());
	b.extend([0, 0, 0, 0]);
	for _ in 0..120 { b.extend([1, b'a']); }
	b.push(0);
	b.extend([0, 16, 0, 1]);
	for _ in 0..n {
		b.extend([0xc0, 12]);
		if ctx.src.chance(1, 64) { b.extend(Rec { owner: Nm::root(), ty: NSEC, ttl: 1, rdata: vec![0xc0, 12, 255, 1, 1] }.wire().into_iter().skip(1)); }
		else { b.extend([0, 2, 0, 1, 0, 0, 0, 1, 0, 2, 0xc0, 12]); }
	}
	b
}

/// C08: the number of signature checks and hashes is bounded by what is in the proof.
pub fn c08(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.evil = true;
	cfg.odd_keys = ctx.src.chance(1, 2);
	cfg.wild_heavy = true;
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let (qn, qt) = match w.pick_query(&mut ctx.src, 0) { Some((n, t, _)) => (n, t), None => (Nm::p("a.b."), TXT) };
	let mut g = w.proof(0, &qn, qt).unwrap_or_default();
	let evil: Vec<usize> = (0..w.zones.len()).filter(|z| w.zones[*z].evil && w.secure(*z)).collect();
	let n = ctx.src.range(1, 4);
	for _ in 0..n {
		if evil.is_empty() || ctx.src.chance(1, 6) { attack_groups(ctx, &w, 0, &qn, qt, &mut g); continue; }
		let ez = *ctx.src.pick(&evil);
		let en = w.zones[ez].name.clone();
		let zsk = w.zones[ez].states[0].zsks[0].clone();
		let ksk = w.zones[ez].states[0].ksks[0].clone();
		add_links(&w, 0, ez, &mut g);
		match ctx.src.below(6) {
			0 | 1 => {
				// Many keys with one tag, and signatures which match none of them.
				let h = match g.iter_mut().find(|h| h.owner == en && h.ty == DNSKEY) { Some(h) => h, None => continue };
				let k = ctx.src.range(2, 24);
				for i in 0..k {
					// The first two bytes of a public key shift the tag; undo it with the next two.
					let mut d = zsk.rdata();
					let n = d.len();
					let a = u16::from_be_bytes([d[n - 4], d[n - 3]]);
					let b = u16::from_be_bytes([d[n - 2], d[n - 1]]);
					let s = i as u16 + 1;
					if a < s || b > 0xffff - s { continue; }
					d[n - 4..n - 2].copy_from_slice(&(a - s).to_be_bytes());
					d[n - 2..].copy_from_slice(&(b + s).to_be_bytes());
					if key_tag(&d) == zsk.tag() && !h.rdatas.contains(&d) { h.rdatas.insert(0, d); }
				}
				let t0 = w.t[0];
				h.sigs = vec![sign(&ksk, &en, &en, DNSKEY, en.sig_labels(), h.ttl, (t0 - 100) as u32, (t0 + 100) as u32, &h.rdatas)];
				ctx.fault("colliding_keys");
			},
			2 | 3 => {
				// Many signatures over one set.
				if g.is_empty() { continue; }
				let i = ctx.src.idx(g.len());
				let k = ctx.src.range(1, 40);
				let mut v = Vec::new();
				for j in 0..k {
					if let Some(s) = g[i].sigs.first() {
						let mut s = s.clone();
						match ctx.src.below(3) { 0 => {}, 1 => s.exp = s.exp.wrapping_add(j), _ => if let Some(b) = s.sig.last_mut() { *b ^= 1 + j as u8; } }
						v.push(s);
					}
				}
				if ctx.src.chance(1, 2) { g[i].sigs.extend(v); } else { g[i].sigs.splice(0..0, v); }
				ctx.fault("many_signatures");
			},
			4 => {
				// Wildcards in need of proof, next to expensive NSEC3s with many parameters.
				let names = ctx.src.range(1, 6);
				for i in 0..names {
					let o = en.child(&format!("w{}", i));
					let f = forge(ctx, &w, 0, &zsk, &en, &o, TXT, vec![txt_simple(b"x")], en.sig_labels());
					g.push(f);
				}
				let k = ctx.src.range(1, 12);
				for i in 0..k {
					let iters = *ctx.src.pick(&[2500u16, 100, 2501, 65535, 2499]);
					let mut d = vec![1, 0];
					d.extend(iters.to_be_bytes());
					d.extend([1, i as u8, 20]);
					d.extend([0u8; 20]);
					d.extend(bitmap(&[TXT]));
					let o = en.child(&base32hex(&[i as u8; 20]));
					let f = forge(ctx, &w, 0, &zsk, &en, &o, NSEC3, vec![d], o.sig_labels());
					g.push(f);
				}
				ctx.fault("expensive_nsec3");
			},
			_ => {
				// A delegation which leads back to the zone itself or one above it.
				let anc = w.ancestry(ez);
				let z = *ctx.src.pick(&anc);
				let zn = w.zones[z].name.clone();
				let ds = w.zones[z].states[0].ds.clone();
				if ds.is_empty() { continue; }
				let f = forge(ctx, &w, 0, &zsk, &en, &zn, DS, ds, zn.sig_labels());
				match g.iter_mut().find(|h| h.owner == zn && h.ty == DS) { Some(h) => h.sigs.extend(f.sigs), None => g.push(f) }
				ctx.fault("delegation_loop");
			},
		}
	}
	let mut recs = flatten(&g);
	if ctx.src.chance(1, 2) { ctx.src.shuffle(&mut recs); }
	dump_recs(ctx, "to client", &recs);
	let cnt = |t: u16| recs.iter().filter(|r| r.ty == t).count() as u64;
	let (sigs, keys, dses) = (cnt(RRSIG), cnt(DNSKEY), cnt(DS) + 8);
	hooks::reset_work();
	let v = verify_bytes(&encode(&recs));
	let (sc, hc) = hooks::work();
	settle(ctx, &v)?;
	ctx.src.note(&sc.to_be_bytes());
	ctx.src.note(&hc.to_be_bytes());
	ctx.src.say(|| format!("{} signature checks for {} signatures, {} hashes", sc, sigs, hc));
	ctx.state(format!("{:?} {} {} {}", ctx.st.faults.keys().collect::<Vec<_>>(), kind(&v), 64 - sc.leading_zeros(), 64 - hc.leading_zeros()).as_bytes());
	if sc > sigs { return bad("work", format!("{} signature checks although there are only {} signatures", sc, sigs)); }
	let wild: u64 = recs.iter().filter(|r| r.ty == RRSIG && Sig::parse(&r.rdata).map(|s| (s.labels as usize) < r.owner.len()).unwrap_or(false)).count() as u64;
	let bound = keys * dses + wild * 2 * 2501;
	if hc > bound { return bad("work", format!("{} hashes for {} keys, {} delegations and {} wildcards (at most {})", hc, keys, dses, wild, bound)); }
	Ok(())
}

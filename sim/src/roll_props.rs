//! Properties about what time and caches do to honest zones, C25 and C26.

use crate::attack::*;
use crate::dns::*;
use crate::hooks;
use crate::keys::*;
use crate::run::*;
use crate::session::*;
use crate::verify_props::*;
use crate::world::*;
use std::rc::Rc;

/// One stage of a key rollover: DNSKEY set, its signers, the signers of everything else, and the keys
/// the parent commits to.
struct Stage { published: Vec<ZKey>, ksks: Vec<ZKey>, zsks: Vec<ZKey>, ds: Vec<ZKey> }

/// The key rollovers of RFC 6781 (and 7583), as sequences of stages each of which lasts for longer than
/// any cache keeps things.
fn plan(ctx: &mut Ctx, w: &mut World, zi: usize) -> (&'static str, Vec<Stage>) {
	let algs = w.cfg.algs.clone();
	let mut have: Vec<ZKey> = Vec::new();
	let mut fresh = |w: &mut World, alg: u8, flags: u16| -> ZKey {
		loop {
			let k = ZKey { key: w.fresh_key(alg, false), flags, proto: 3 };
			if have.iter().any(|h| h.tag() == k.tag() || Rc::ptr_eq(&h.key, &k.key)) { continue; }
			have.push(k.clone());
			return k;
		}
	};
	let alg = *ctx.src.pick(&algs);
	let other = *ctx.src.pick(&[13u8, 14, 15, 15, 16]);
	let root = w.zones[zi].parent.is_none();
	// Not everyone marks the keys which parents vouch for.
	let sep = if !root && ctx.src.chance(1, 6) { 256 } else { 257 };
	let (k1, z1) = (fresh(w, alg, sep), fresh(w, alg, 256));
	let (k2, z2) = (fresh(w, alg, sep), fresh(w, alg, 256));
	let which = ctx.src.below(9);
	// Nothing keeps a key which is never published together with the other from having the same tag.
	let k2 = if which == 3 && !root && ctx.src.chance(1, 2) { let k = ZKey { key: key(alg, k1.key.id ^ 1), ..k1.clone() }; if k.tag() == k1.tag() { k } else { k2 } } else { k2 };
	// Keys of different algorithms may have the same tag even if they are published together.
	let (t1, u1) = (k1.clone(), z1.clone());
	let beside = |ctx: &mut Ctx, w: &mut World, fresh: &mut dyn FnMut(&mut World, u8, u16) -> ZKey| -> (ZKey, ZKey) {
		let (mut k, mut z) = (fresh(w, other, 257), fresh(w, other, 256));
		if ctx.src.chance(1, 2) { if let Some(t) = twin(&t1.key, other) { k.key = t; ctx.fault("same_tag_other_algorithm"); } }
		if ctx.src.chance(1, 2) { if let Some(t) = twin(&u1.key, other) { z.key = t; ctx.fault("same_tag_other_algorithm"); } }
		if k.tag() == z.tag() { z = fresh(w, other, 256); }
		(k, z)
	};
	let s = |published: &[&ZKey], ksks: &[&ZKey], zsks: &[&ZKey], ds: &[&ZKey]| {
		let v = |l: &[&ZKey]| l.iter().map(|k| (*k).clone()).collect::<Vec<_>>();
		Stage { published: v(published), ksks: v(ksks), zsks: v(zsks), ds: v(ds) }
	};
	let start = s(&[&k1, &z1], &[&k1], &[&z1], &[&k1]);
	let (name, mut l) = match which {
		_ if root && which > 1 => ("root_key_signing_key", vec![start,
			s(&[&k1, &k2, &z1], &[&k1], &[&z1], &[]),
			s(&[&k1, &k2, &z1], &[&k2], &[&z1], &[]),
			{
				// Revoked, and signing that, as RFC 5011 has it.
				let r1 = ZKey { key: k1.key.clone(), flags: 0x181, proto: 3 };
				if r1.tag() == k2.tag() || r1.tag() == z1.tag() { s(&[&k2, &z1], &[&k2], &[&z1], &[]) } else { s(&[&r1, &k2, &z1], &[&r1, &k2], &[&z1], &[]) }
			},
			s(&[&k2, &z1], &[&k2], &[&z1], &[])]),
		0 => ("zone_key_published_first", vec![start,
			s(&[&k1, &z1, &z2], &[&k1], &[&z1], &[&k1]),
			s(&[&k1, &z1, &z2], &[&k1], &[&z2], &[&k1]),
			s(&[&k1, &z2], &[&k1], &[&z2], &[&k1])]),
		1 => ("zone_key_double_signatures", vec![start,
			s(&[&k1, &z1, &z2], &[&k1], &[&z1, &z2], &[&k1]),
			s(&[&k1, &z2], &[&k1], &[&z2], &[&k1])]),
		2 => ("key_signing_key_double_signatures", vec![start,
			s(&[&k1, &k2, &z1], &[&k1, &k2], &[&z1], &[&k1]),
			s(&[&k1, &k2, &z1], &[&k1, &k2], &[&z1], &[&k2]),
			s(&[&k2, &z1], &[&k2], &[&z1], &[&k2])]),
		3 => ("key_signing_key_double_ds", vec![start,
			s(&[&k1, &z1], &[&k1], &[&z1], &[&k1, &k2]),
			s(&[&k2, &z1], &[&k2], &[&z1], &[&k1, &k2]),
			s(&[&k2, &z1], &[&k2], &[&z1], &[&k2])]),
		4 | 5 => {
			let (k3, z3) = beside(ctx, w, &mut fresh);
			// Signatures are added first and removed last.
			("algorithm_conservative", vec![start,
				s(&[&k1, &z1], &[&k1], &[&z1, &z3], &[&k1]),
				s(&[&k1, &z1, &k3, &z3], &[&k1, &k3], &[&z1, &z3], &[&k1]),
				s(&[&k1, &z1, &k3, &z3], &[&k1, &k3], &[&z1, &z3], &[&k3]),
				s(&[&k3, &z3], &[&k3], &[&z1, &z3], &[&k3]),
				s(&[&k3, &z3], &[&k3], &[&z3], &[&k3])])
		},
		6 => {
			let (k3, z3) = beside(ctx, w, &mut fresh);
			("algorithm_liberal", vec![start,
				s(&[&k1, &z1, &k3, &z3], &[&k1, &k3], &[&z1, &z3], &[&k1]),
				s(&[&k1, &z1, &k3, &z3], &[&k1, &k3], &[&z1, &z3], &[&k3]),
				s(&[&k3, &z3], &[&k3], &[&z3], &[&k3])])
		},
		7 => ("single_key", vec![s(&[&k1], &[&k1], &[&k1], &[&k1]),
			s(&[&k1, &k2], &[&k1, &k2], &[&k1], &[&k1]),
			s(&[&k1, &k2], &[&k1, &k2], &[&k1], &[&k2]),
			s(&[&k1, &k2], &[&k1, &k2], &[&k2], &[&k2]),
			s(&[&k2], &[&k2], &[&k2], &[&k2])]),
		_ => ("single_key_split", vec![s(&[&k1], &[&k1], &[&k1], &[&k1]),
			s(&[&k1, &z2], &[&k1], &[&k1], &[&k1]),
			s(&[&k1, &z2], &[&k1], &[&z2], &[&k1])]),
	};
	// A zone on its way to something we do not support can only be checked until its delegation changes.
	if let Some(i) = l.iter().position(|s| !root && !s.ds.iter().any(|k| k.key.alg != 16)) { l.truncate(i); }
	if ctx.src.chance(1, 4) {
		// Some sign their keys with all of them.
		for s in &mut l { for z in s.zsks.clone() { if s.published.iter().any(|k| k.rdata() == z.rdata()) && !s.ksks.iter().any(|k| k.rdata() == z.rdata()) { s.ksks.push(z); } } }
	}
	(name, l)
}

/// C25: proofs can be built at any time during any number of key rollovers, whatever is cached.
pub fn c25(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = if ctx.src.chance(1, 2) { vec![15] } else { vec![13, 14, 15] };
	cfg.wild_heavy = ctx.src.chance(1, 3);
	cfg.alias_heavy = ctx.src.chance(1, 3);
	let mut w = World::generate(&mut ctx.src, cfg);
	// Who replaces keys, and when they move on.
	let mut anchors = w.anchors();
	let mut rolls: Vec<(usize, &'static str, Vec<Stage>)> = Vec::new();
	for zi in 0..w.zones.len() {
		if !ctx.src.chance(2, 3) { continue; }
		let (name, l) = plan(ctx, &mut w, zi);
		if zi == 0 {
			anchors.clear();
			for k in l.iter().flat_map(|s| s.ksks.iter()) {
				let d = k.ds(&Nm::root(), 2);
				let a = (k.tag(), k.key.alg, 2, d[4..].to_vec());
				if k.flags == 257 && !anchors.contains(&a) { anchors.push(a); }
			}
		}
		rolls.push((zi, name, l));
	}
	let stages = ctx.src.range(1, 6) as usize;
	for e in 0..stages {
		if e > 0 {
			let l = w.t[e - 1];
			// Longer than caches keep anything, and shorter than signatures last.
			w.t.push(l + ctx.src.range(4000, 70000) as u64);
			for z in &mut w.zones { let s = z.states[e - 1].clone(); z.states.push(s); }
		}
	}
	for (zi, name, l) in &rolls {
		let mut at = ctx.src.idx(l.len());
		for e in 0..stages {
			if e > 0 && at + 1 < l.len() && ctx.src.chance(3, 4) { at += 1; ctx.fault(name); }
			let zn = w.zones[*zi].name.clone();
			let s = &l[at];
			let st = &mut w.zones[*zi].states[e];
			st.published = s.published.clone();
			st.ksks = s.ksks.clone();
			st.zsks = s.zsks.clone();
			st.ds = if *zi == 0 { Vec::new() } else { s.ds.iter().map(|k| k.ds(&zn, 2)).collect() };
		}
	}
	w.forget();
	hooks::set_anchor_list(anchors);
	dump_world(ctx, &w);
	let e = stages - 1;
	let (qn, qt, steps) = match w.pick_query(&mut ctx.src, e) { Some(x) => x, None => return Ok(()) };
	if nsec_trouble(&w, e, &qn, qt) { ctx.probe("skipped_nsec_trouble"); return Ok(()); }
	if needed_queries(&w, e, &qn, qt).unwrap_or(99) > 10 { ctx.probe("over_query_limit"); return Ok(()); }
	let style = Style::random(&mut ctx.src);
	let reorder = ctx.src.chance(1, 2);
	let mut cached: Vec<(Nm, u16, bool)> = Vec::new();
	let mut old_sets = 0;
	ctx.src.say(|| format!("asking for {} {} in stage {}", qn.s(), ty_str(qt), e));
	let o = drive(ctx, &qn, qt, reorder, &mut |ctx, n, t, _| {
		let Some((mut a, mut b, _)) = w.answer(e, n, t) else { return render_negative(n, t, 3) };
		for g in a.iter_mut().chain(b.iter_mut()) {
			if e == 0 || g.sigs.is_empty() { continue; }
			// Each set may have been cached a while ago, which is the same for everybody asking.
			let old = match cached.iter().find(|c| c.0 == g.owner && c.1 == g.ty) {
				Some(c) => c.2,
				None => { let old = ctx.src.chance(1, 2); cached.push((g.owner.clone(), g.ty, old)); old },
			};
			if !old { continue; }
			let zi = w.zones.iter().position(|z| z.name == g.sigs[0].signer).unwrap();
			let source = match steps.iter().find(|s| s.owner == g.owner && s.ty == g.ty) { Some(s) => s.source.clone(), None => g.owner.clone() };
			if let Some(s) = w.signed(zi, e - 1, &source, g.ty) { *g = Group::of(&s, &g.owner); old_sets += 1; ctx.fault("cached_before_the_last_stage"); }
		}
		render(&mut ctx.src, &style, n, t, &a, &b, true)
	});
	let o = match o { Ok(o) => o, Err(p) => return bad("panic", p) };
	let (proof, _) = match o.proof { Some(p) => p, None => return bad("rollover", format!("no proof for {} {} while keys were being replaced", qn.s(), ty_str(qt))) };
	dump_proof(ctx, &proof);
	let v = verify_bytes(&proof);
	settle(ctx, &v)?;
	let way: Vec<String> = w.ancestry(w.zone_of(&qn)).iter().map(|z| rolls.iter().find(|r| r.0 == *z).map(|r| r.1.to_string()).unwrap_or_default()).collect();
	ctx.state(format!("{:?} {} {} {}", way, old_sets, kind(&v), o.queries.len()).as_bytes());
	match &v {
		Verdict::Ok(v) => if v.from > w.t[e] || v.expires < w.t[e] { return bad("rollover", format!("the proof of {} is not valid now, but {}..{}", qn.s(), v.from, v.expires)); },
		v => return bad("rollover", format!("the proof of {} {} is {} while keys were being replaced ({:?})", qn.s(), ty_str(qt), show(v), way)),
	}
	let got = match resolved(&proof, &qn) { Ok(g) => g.unwrap_or_default(), Err(p) => return bad("panic", p) };
	if got != truth(&w, e, &steps) { return bad("rollover", format!("{} {} resolves to something else while keys were being replaced", qn.s(), ty_str(qt))); }
	if old_sets > 0 { ctx.probe("proved_across_stages"); } else { ctx.probe("proved"); }
	Ok(())
}

/// Flips the case of letters of a name, as far as the source says so.
fn respell(ctx: &mut Ctx, wire: &mut [u8], how: u8) {
	let mut p = 0;
	while p < wire.len() && wire[p] != 0 {
		let l = wire[p] as usize;
		for i in p + 1..(p + 1 + l).min(wire.len()) {
			if wire[i].is_ascii_alphabetic() && (how == 1 || ctx.src.chance(1, 2)) { wire[i] ^= 0x20; }
		}
		p += 1 + l;
	}
}

/// C26: neither the capitalisation of names nor the TTLs of records have any influence.
pub fn c26(ctx: &mut Ctx) -> Res {
	let mut cfg = Cfg::basic();
	cfg.algs = algs(ctx);
	cfg.epochs = ctx.src.range(1, 2) as usize;
	cfg.evil = ctx.src.chance(1, 3);
	cfg.insecure = ctx.src.chance(1, 4);
	cfg.wild_heavy = ctx.src.chance(1, 2);
	cfg.alias_heavy = ctx.src.chance(1, 2);
	cfg.odd_keys = ctx.src.chance(1, 4);
	let w = World::generate(&mut ctx.src, cfg);
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let e = ctx.src.idx(w.t.len());
	let (qn, qt, _) = match w.pick_query(&mut ctx.src, e) { Some(x) => x, None => return Ok(()) };
	let mut g = match w.proof(e, &qn, qt) { Some(g) => g, None => return Ok(()) };
	if ctx.src.chance(1, 2) {
		if let Some((n, t, _)) = w.pick_query(&mut ctx.src, e) {
			for h in w.proof(e, &n, t).unwrap_or_default() { if !g.iter().any(|x| x.owner == h.owner && x.ty == h.ty) { g.push(h); } }
		}
	}
	if ctx.src.chance(1, 3) { attack_groups(ctx, &w, e, &qn, qt, &mut g); }
	let recs = flatten(&g);
	let plain = encode(&recs);
	let v0 = verify_bytes(&plain);
	settle(ctx, &v0)?;
	let r0 = resolved(&plain, &qn).ok();
	dump_recs(ctx, "to client", &recs);
	for _ in 0..3 {
		let how = ctx.src.below(3) as u8;
		let ttls = ctx.src.below(3);
		let mut b = Vec::new();
		for r in &recs {
			let mut owner = r.owner.wire();
			let mut d = r.rdata.clone();
			if how > 0 && (how == 1 || ctx.src.chance(1, 2)) {
				respell(ctx, &mut owner, how);
				// Only where nothing but a name can follow.
				match r.ty {
					NS | CNAME | DNAME | NSEC => respell(ctx, &mut d, how),
					RRSIG if d.len() > 18 => respell(ctx, &mut d[18..], how),
					_ => {},
				}
			}
			let ttl = match ttls { 0 => r.ttl, 1 => *ctx.src.pick(&[0u32, 1, 86400, 0x7fff_ffff, 0x8000_0000, u32::MAX]), _ => ctx.src.u32() };
			b.extend_from_slice(&owner);
			b.extend_from_slice(&r.ty.to_be_bytes());
			b.extend_from_slice(&[0, 1]);
			b.extend_from_slice(&ttl.to_be_bytes());
			b.extend_from_slice(&(d.len() as u16).to_be_bytes());
			b.extend_from_slice(&d);
		}
		if how > 0 { ctx.fault("names_recapitalised"); }
		if ttls > 0 { ctx.fault("ttls_rewritten"); }
		let v = verify_bytes(&b);
		if v != v0 { return bad("spelling", format!("{} became {} (capitalisation {}, TTLs {})", show(&v0), show(&v), how, ttls)); }
		let mut spelt = qn.s().into_bytes();
		if how > 0 { for c in &mut spelt { if c.is_ascii_alphabetic() && ctx.src.chance(1, 2) { *c ^= 0x20; } } }
		let r = resolved_spelt(&b, std::str::from_utf8(&spelt).unwrap()).ok();
		if r != r0 { return bad("spelling", format!("{} resolves to {:?} instead of {:?} (capitalisation {}, TTLs {})", qn.s(), r, r0, how, ttls)); }
	}
	ctx.state(format!("{} {:?} {}", kind(&v0), ctx.st.faults.keys().collect::<Vec<_>>(), recs.len()).as_bytes());
	Ok(())
}

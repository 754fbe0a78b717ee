//! Properties of the HTTP server, C13 and C14, and of the TTLs everything reports, C15.

use crate::dns::*;
use crate::hooks;
use crate::model::walk;
use crate::net::{self, End, Ev, Kind, Net, Plan};
use crate::net_props::*;
use crate::run::*;
use crate::verify_props::*;
use crate::world::*;
use std::cell::Cell;
use std::io::ErrorKind;
use std::rc::Rc;

/// What a client has a right to.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
	/// The proof for what it asked for, or to be told that there is none.
	Proof,
	/// To be told off.
	Refusal,
	/// Nothing, as it did not ask for anything or did not wait.
	Nothing,
}
struct Client { conn: usize, want: Want, qn: Nm, qt: u16, probe: bool, whole: bool }
impl Client {
	/// What the client gets to see.
	fn sees<'a>(&self, n: &'a Net, ctx: &mut Ctx) -> &'a [u8] {
		let c = &n.conns[self.conn];
		// Of a connection which is reset, any part may get through.
		if !c.reset || !self.whole { return &c.tx; }
		ctx.fault("reset_by_server");
		&c.tx[..ctx.src.idx(c.tx.len() + 1)]
	}
}

fn random_case(ctx: &mut Ctx, s: &str) -> String {
	match ctx.src.below(4) {
		0 | 1 => s.to_string(),
		2 => s.to_ascii_uppercase(),
		_ => { let m = ctx.src.below(256); s.chars().enumerate().map(|(i, c)| if (m >> (i % 8)) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect() },
	}
}
fn type_name(t: u16) -> &'static str { match t { TXT => "txt", A => "a", AAAA => "aaaa", _ => "tlsa" } }
/// The first line of a request for a proof, without its line ending.
fn request_line(ctx: &mut Ctx, n: &Nm, t: u16) -> Vec<u8> {
	let d = format!("d={}", random_case(ctx, &n.s()));
	let t = format!("t={}", random_case(ctx, type_name(t)));
	let mut args = if ctx.src.chance(1, 3) { vec![t, d] } else { vec![d, t] };
	if ctx.src.chance(1, 4) {
		let x = *ctx.src.pick(&["x=1", "dd=a.com.", "tt=a", "D=b.com.", "z=", "=", "nonce=0123456789abcdef", "q=a=b"]);
		let i = ctx.src.idx(3);
		args.insert(i, x.into());
	}
	format!("GET /dnssecproof?{} HTTP/1.{}", args.join("&"), ctx.src.below(2)).into_bytes()
}
/// What follows the first line. None of it should matter.
fn headers(ctx: &mut Ctx, r: &mut Vec<u8>) {
	r.extend(b"\r\n");
	match ctx.src.below(6) {
		0 | 1 => r.extend(b"Host: localhost\r\n\r\n"),
		2 => r.extend(b"\r\n"),
		3 => { r.extend(b"Cookie: "); r.extend([0xff, 0xfe, 0xc3]); r.extend(b"\r\n\r\n"); },
		4 => { r.extend(b"Cookie: "); let l = ctx.src.range(1, 9000) as usize; r.extend(vec![b'x'; l]); r.extend(b"\r\n\r\n"); },
		_ => { let k = ctx.src.range(1, 300); for i in 0..k { r.extend(format!("X-{}: y\r\n", i).bytes()); } r.extend(b"\r\n"); },
	}
	// A body, or the next request right after this one, which nobody has to read.
	if ctx.src.chance(1, 12) {
		ctx.probe("bytes_after_request");
		match ctx.src.below(5) {
			0 => r.extend(b"a=b"),
			1 => r.extend(b"\r\n"),
			2 => { let first = r.clone(); r.extend(first); },
			3 => { let l = ctx.src.range(1, 3000) as usize; let b = ctx.src.bytes(l); r.extend(b); },
			_ => r.extend(b"GET / HTTP/1.1\r\n\r\n"),
		}
	}
}
fn request(ctx: &mut Ctx, n: &Nm, t: u16) -> Vec<u8> {
	let mut r = request_line(ctx, n, t);
	if ctx.src.chance(1, 20) {
		// As long as the server lets it be.
		let end = r.iter().rposition(|c| *c == b' ').unwrap();
		let tail = r.split_off(end);
		r.extend(b"&pad=");
		while r.len() + tail.len() < 4094 { r.push(b'p'); }
		r.extend(tail);
		ctx.probe("longest_request");
		r.extend(b"\r\n\r\n");
		return r;
	}
	headers(ctx, &mut r);
	r
}
fn bad_request(ctx: &mut Ctx, n: &Nm, t: u16) -> Vec<u8> {
	let good = String::from_utf8(request_line(ctx, n, t)).unwrap();
	let d = n.s();
	ctx.fault("bad_request");
	let mut r = match ctx.src.below(20) {
		0 => good.replacen("GET", "POST", 1).into_bytes(),
		1 => good.replacen("/dnssecproof?", "/", 1).into_bytes(),
		2 => good.replacen("HTTP/1.", "HTTP/2.", 1).into_bytes(),
		3 => good.replacen(" HTTP", "  HTTP", 1).into_bytes(),
		4 => good.rsplitn(2, ' ').last().unwrap().as_bytes().to_vec(),
		5 => format!("GET /dnssecproof?d={}&t=mx HTTP/1.1", d).into_bytes(),
		6 => format!("GET /dnssecproof?d=&t=txt HTTP/1.1").into_bytes(),
		7 => format!("GET /dnssecproof?d={}&t= HTTP/1.1", d).into_bytes(),
		8 => format!("GET /dnssecproof?d={} HTTP/1.1", d).into_bytes(),
		9 => format!("GET /dnssecproof?d={}&t=txt HTTP/1.1", if d == "." { "com" } else { d.trim_end_matches('.') }).into_bytes(),
		10 => format!("GET /dnssecproof?d={}&t=txt&flag HTTP/1.1", d).into_bytes(),
		11 => { let mut g = good.into_bytes(); let i = g.len() - 10; g[i] = 0xff; g },
		12 => Vec::new(),
		13 => {
			let l = ctx.src.range(4097, 9000) as usize;
			let mut g = good.into_bytes();
			g.splice(5..5, vec![b'x'; l]);
			g
		},
		14 => { let l = ctx.src.range(1, 300) as usize; ctx.src.bytes(l).into_iter().filter(|c| *c != b'\r' && *c != b'\n').collect() },
		15 => format!("{}{}", good, ctx.src.pick(&[" ", " HTTP/1.1", " x", "0", "x", ".1", "\t"])).into_bytes(),
		16 => good.replacen("GET", *ctx.src.pick(&["get", "HEAD", "GETX", "XGET", "", "GET GET", "OPTIONS"]), 1).into_bytes(),
		17 => good.replacen("/dnssecproof?", *ctx.src.pick(&["/dnssecproof", "/dnssecproof/?", "dnssecproof?", "/dnssecproofs?", "//dnssecproof?", "/Dnssecproof?", "?", "/dnssecproof?&"]), 1).into_bytes(),
		18 => good.replacen("HTTP/1.", *ctx.src.pick(&["HTTP/0.", "http/1.", "HTTP1.", "HTTP/1", "HTTPS/1.", "HTTP/1.2 HTTP/1.", "HTTP/11.", "XHTTP/1."]), 1).into_bytes(),
		_ => format!("GET /dnssecproof?d={}&t=txt HTTP/1.1", ["a..b.", "..", "a\u{e9}.", "sixty-four-bytes-are-too-long-for-a-label-0123456789012345678901.", "\"."][ctx.src.idx(5)]).into_bytes(),
	};
	if ctx.src.chance(1, 8) && r.len() > 4096 { return r; }
	headers(ctx, &mut r);
	r
}

pub struct Response { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
impl Response {
	pub fn header(&self, n: &str) -> Option<&str> { self.headers.iter().find(|h| h.0 == n).map(|h| h.1.as_str()) }
	fn ages(&self) -> Option<(u32, u32)> {
		let c = self.header("cache-control")?;
		let get = |k: &str| c.split(',').filter_map(|p| p.trim().split_once('=')).find(|p| p.0.eq_ignore_ascii_case(k)).map(|p| p.1.trim_matches('"').parse().ok());
		let own = get("max-age")??;
		Some((own, match get("s-maxage") { None => own, Some(s) => s? }))
	}
}
/// Parses exactly one response with nothing after it.
pub fn parse_response(b: &[u8]) -> Result<Response, String> {
	let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("its headers do not end")?;
	let head = std::str::from_utf8(&b[..end]).map_err(|_| "its headers are not text")?;
	let mut lines = head.split("\r\n");
	let first = lines.next().unwrap_or("");
	let mut p = first.splitn(3, ' ');
	let v = p.next().unwrap_or("");
	if v != "HTTP/1.1" && v != "HTTP/1.0" { return Err(format!("it starts with {:?}", first)); }
	let status = p.next().and_then(|s| if s.len() == 3 { s.parse().ok() } else { None }).ok_or("it has no status")?;
	let mut headers = Vec::new();
	for l in lines {
		let (k, v) = l.split_once(':').ok_or(format!("it has a bad header {:?}", l))?;
		headers.push((k.trim().to_ascii_lowercase(), v.trim().to_string()));
	}
	let r = Response { status, headers, body: b[end + 4..].to_vec() };
	let l: usize = r.header("content-length").and_then(|l| l.parse().ok()).ok_or("it has no length")?;
	if l != r.body.len() { return Err(format!("its body is {} bytes instead of {}", r.body.len(), l)); }
	Ok(r)
}

/// Lets every task of the server run until all of them wait for the network.
async fn settle() -> Result<(), Violation> {
	let calls = || net::with(|n, _| n.calls);
	let (mut last, mut quiet) = (calls(), 0);
	for _ in 0..20_000 {
		tokio_crate::task::yield_now().await;
		let c = calls();
		if c == last { quiet += 1; if quiet >= 4 { return Ok(()); } } else { last = c; quiet = 0; }
	}
	bad("stuck", "the server is busy although nothing happens".into())
}
async fn until_idle(server: &tokio_crate::task::JoinHandle<()>) -> Res {
	loop {
		settle().await?;
		let more = net::with(|n, ctx| {
			let mut k = if ctx.src.chance(1, 4) { ctx.src.range(2, 5) } else { 1 };
			let mut any = false;
			while k > 0 && n.step(ctx).is_some() { any = true; k -= 1; }
			any
		});
		if net::with(|n, _| n.spun) { return bad("stuck", "a task keeps reading or writing without getting anywhere".into()); }
		if server.is_finished() { return bad("down", "the server stopped serving".into()); }
		if let Some(p) = take_panic() { return bad("panic", format!("a task panicked: {}", p)); }
		if !more { return Ok(()); }
	}
}

/// Lets a client connect and send its request, one way or another.
fn new_client(n: &mut Net, ctx: &mut Ctx, w: &World, others: &[Client], calm: bool, probe: bool) -> Client {
	let (mut qn, qt) = question(ctx, w);
	let mut qt = basic_type(qt);
	if !others.is_empty() && ctx.src.chance(1, 3) {
		// What somebody else asked for, or something else about the same name.
		let o = &others[ctx.src.idx(others.len())];
		qn = o.qn.clone();
		qt = if ctx.src.chance(1, 2) { o.qt } else { *ctx.src.pick(&[TXT, A, AAAA, TLSA]) };
	}
	let mut plan = Plan::calm(ctx);
	let mut want = Want::Proof;
	let mut kind = 0;
	if !calm && ctx.src.chance(1, 2) { kind = ctx.src.range(1, 8); }
	let bad = kind == 1 || kind == 2;
	let mut req = if bad { bad_request(ctx, &qn, qt) } else { request(ctx, &qn, qt) };
	if bad { want = Want::Refusal; }
	let start = ctx.src.below(*[1u32, 20, 3000].get(kind as usize % 3).unwrap()) as u64;
	let mut end = None;
	let line = req.windows(2).position(|w| w == b"\r\n").map(|p| p + 2).unwrap_or(req.len());
	match kind {
		3 => { req.truncate(ctx.src.idx(line)); end = Some(End::Eof); want = Want::Nothing; ctx.fault("client_gone"); },
		4 => { req.truncate(ctx.src.idx(line)); end = Some(End::Err(ErrorKind::ConnectionReset)); want = Want::Nothing; ctx.fault("client_reset"); },
		5 => { req.truncate(ctx.src.idx(line)); want = Want::Nothing; ctx.fault("client_silent"); },
		6 => { end = Some(End::Eof); ctx.fault("client_half_closed"); },
		7 => { end = Some(End::Err(ErrorKind::ConnectionReset)); want = Want::Nothing; ctx.fault("client_reset"); },
		8 => {
			if ctx.src.chance(1, 2) { plan.tx_stall = Some(ctx.src.below(600) as usize); }
			else { plan.wfail = Some((ctx.src.below(600) as usize, *ctx.src.pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset]))); }
			want = Want::Nothing;
		},
		_ => {},
	}
	ctx.src.say(|| format!("client {}: {:?} for {} {}, sends {:?} then {:?}", n.conns.len(), want, qn.s(), ty_str(qt), String::from_utf8_lossy(&req[..req.len().min(160)]), end));
	// Nobody has to read all of whatever somebody sends.
	let whole = req.windows(4).position(|w| w == b"\r\n\r\n") == Some(req.len().wrapping_sub(4)) && line <= 4096;
	let c = n.new_conn(Kind::Web, plan);
	n.at(start, Ev::Offer(c));
	let mut at = start;
	let slow = n.conns[c].plan.slow.max(1);
	let mut left = &req[..];
	let seg = *ctx.src.pick(&[65535u32, 1000, 40, 3, 1]);
	while !left.is_empty() {
		// Long requests in tiny pieces only waste time.
		let k = (ctx.src.range(1, seg) as usize).max(left.len() / 60).min(left.len());
		at += ctx.src.below(slow) as u64;
		n.at(at, Ev::Bytes(c, left[..k].to_vec()));
		left = &left[k..];
	}
	if let Some(e) = end { let d = if ctx.src.chance(1, 2) { ctx.src.below(10) } else { ctx.src.below(20_000) } as u64; n.at(at + d, Ev::End(c, e)); }
	Client { conn: c, want, qn, qt, probe, whole }
}

fn waiting_ok(n: &Net, ctx: &Ctx, c: usize, qn: &Nm, qt: u16) -> bool {
	let conn = &n.conns[c];
	if conn.closed { return false; }
	let wk = walk(qn, qt, &conn.frames);
	conn.plan.silent.map(|k| k < wk.used_bytes || wk.starved).unwrap_or(false) || (ctx.st.faults.contains_key("response_lost") && wk.starved)
}

/// What clients got, once nothing happens any more.
/// What clients got is C13's business, C14 is only about whether everyone is served after all.
const LEFT: &[&str] = &["result", "ttl", "response", "framing"];
fn judge(n: &Net, ctx: &mut Ctx, clients: &[Client], lenient: bool) -> Res {
	let left = |r: Res, ctx: &mut Ctx| match r { Err(v) if lenient && LEFT.contains(&v.class) => { ctx.probe("left_to_other_checks"); Ok(()) }, r => r };
	let resolvers: Vec<usize> = (0..n.conns.len()).filter(|c| n.conns[*c].kind == Kind::Resolver).collect();
	for c in &resolvers {
		if let Some((qn, qt)) = n.conns[*c].queries.first().cloned() {
			if !clients.iter().any(|l| l.want != Want::Refusal && l.qn == qn && l.qt == qt) { left(bad("result", format!("the resolver was asked for {} {}, which no client wants", qn.s(), ty_str(qt))), ctx)?; }
			left(judge_conn(n, *c, &qn, qt, None), ctx)?;
		} else if let Some(e) = &n.conns[*c].bad_query { left(bad("result", format!("the resolver got a malformed query ({})", e)), ctx)?; }
	}
	for l in clients { left(judge_client(n, ctx, clients, &resolvers, l), ctx)?; }
	Ok(())
}
fn judge_client(n: &Net, ctx: &mut Ctx, clients: &[Client], resolvers: &[usize], l: &Client) -> Res {
	{
		let conn = &n.conns[l.conn];
		let who = format!("client {} ({} {})", l.conn, l.qn.s(), ty_str(l.qt));
		if conn.closed_twice || conn.used_after_close { return bad("result", format!("{}: its connection was used after it was closed", who)); }
		if conn.connected.is_none() { return bad("stuck", format!("{} was never accepted", who)); }
		if l.want == Want::Nothing {
			let gone = matches!(conn.rx_end, Some(_)) || conn.tx_err.is_some();
			// Noticing takes reading or writing.
			if gone && !conn.closed && !resolvers.iter().any(|c| !n.conns[*c].closed) { return bad("leak", format!("{} is gone, but its connection was left open", who)); }
			return Ok(());
		}
		let key = |c: &&usize| match n.conns[**c].queries.first() { Some(q) => *q == (l.qn.clone(), l.qt), None => true };
		// What happened before the faults were over is no excuse afterwards.
		let since = if l.probe { clients.iter().filter(|l| l.probe).map(|l| l.conn).min().unwrap() } else { 0 };
		let mine: Vec<usize> = resolvers.iter().filter(key).filter(|c| **c > since).cloned().collect();
		if conn.tx.is_empty() && !conn.closed {
			if l.want == Want::Proof && mine.iter().any(|c| waiting_ok(n, ctx, *c, &l.qn, l.qt)) { ctx.probe("left_waiting"); return Ok(()); }
			return bad(if l.probe { "probe" } else { "stuck" }, format!("{} never got a response", who));
		}
		let seen = l.sees(n, ctx);
		let r = match parse_response(seen) {
			Ok(r) => r,
			Err(e) => return bad(if l.probe { "probe" } else { "response" }, format!("{} got a malformed response of {} bytes: {}", who, seen.len(), e)),
		};
		ctx.src.say(|| format!("{} got {} with {} bytes", who, r.status, r.body.len()));
		if !conn.closed { return bad("leak", format!("{}: its connection was left open", who)); }
		if l.want == Want::Refusal {
			if r.status < 400 || r.status > 499 { return bad("response", format!("{} sent a bad request but got status {}", who, r.status)); }
			ctx.probe("refused_request");
			return Ok(());
		}
		let got = if r.status == 200 {
			let (a, s) = match r.ages() { Some(a) => a, None => return bad("ttl", format!("{} was not told for how long it may keep its proof", who)) };
			if a != s { return bad("ttl", format!("{} may keep its proof for {} s but others for {} s", who, a, s)); }
			if r.header("access-control-allow-origin") != Some("*") { return bad("response", format!("{}: browsers do not get to see its proof", who)); }
			ctx.probe("served");
			Ok((r.body.clone(), a))
		} else if r.status >= 400 && r.status <= 599 { ctx.probe("told_there_is_none"); Err(ErrorKind::Other) }
		else { return bad("response", format!("{} got status {}", who, r.status)); };
		// Some session with the resolver must account for it.
		let mut why = None;
		let mut fine = false;
		for c in &mine {
			if n.conns[*c].queries.is_empty() && got.is_ok() { continue; }
			match judge_conn(n, *c, &l.qn, l.qt, Some(&got)) {
				Ok(()) => { fine = true; break; },
				Err(v) => if why.is_none() || v.class == "ttl" { why = Some(v) },
			}
		}
		if !fine {
			let v = why.unwrap_or(Violation { class: "result", msg: "the resolver was never asked".into() });
			let class = if v.class == "ttl" { "ttl" } else if l.probe { "probe" } else { "result" };
			return bad(class, format!("{} got status {}, but {}", who, r.status, v.msg));
		}
	}
	Ok(())
}

#[cfg(feature = "http")]
async fn run_server() { http_proof_gen::sim_run_server(http_proof_gen::sim::TokioTcpListener::from_id(1), addr()).await }
#[cfg(not(feature = "http"))]
async fn run_server() {}

fn http_session(ctx: &mut Ctx, trouble: u32, manners: Option<Manners>, probes: bool) -> Res {
	let w = Rc::new(net_world(ctx));
	hooks::set_anchors(&w);
	dump_world(ctx, &w);
	let m = match manners { Some(m) => m, None if trouble & 1 == 1 => Manners::bad(ctx), None => Manners { aged: ctx.src.chance(1, 2), ..Default::default() } };
	let manners = Rc::new(Cell::new(m));
	let calm = Rc::new(Cell::new(trouble < 2));
	let r = responder(&w, ctx, manners.clone());
	// Now and then everyone comes at once, or one after the other.
	let crowd = if probes { ctx.src.chance(1, 60) } else { trouble < 2 && ctx.src.chance(1, 150) };
	let count = if crowd { ctx.fault("crowd"); *ctx.src.pick(&[40u32, 40, 150, 150, 300]) } else { ctx.src.range(1, 5) };
	net::enter(ctx);
	take_panic();
	net::with(|n, _| {
		n.responder = Some(r);
		let calm = calm.clone();
		n.planner = Some(Box::new(move |ctx: &mut Ctx| if calm.get() { Plan::calm(ctx) } else { faulty_plan(ctx, 4000) }));
	});
	let rt = tokio_crate::runtime::Builder::new_current_thread().build().unwrap();
	let res = rt.block_on(async {
		let server = rt.spawn(run_server());
		let mut clients = Vec::new();
		net::with(|n, ctx| {
			for _ in 0..count { let c = new_client(n, ctx, &w, &clients, trouble < 2, false); clients.push(c); }
			if trouble >= 2 && ctx.src.chance(1, 2) {
				let k = ctx.src.range(1, 6);
				for _ in 0..k { let d = ctx.src.below(4000) as u64; let e = *ctx.src.pick(&[ErrorKind::ConnectionAborted, ErrorKind::Other, ErrorKind::OutOfMemory, ErrorKind::Interrupted, ErrorKind::WouldBlock]); n.at(d, Ev::AcceptError(e)); }
			}
		});
		until_idle(&server).await?;
		// In the first phase everyone is treated the same.
		net::with(|n, ctx| judge(n, ctx, &clients, probes))?;
		if probes {
			// The faults stop.
			calm.set(true);
			manners.set(Manners::default());
			let old = clients.len();
			net::with(|n, ctx| {
				let k = ctx.src.range(1, 3);
				for _ in 0..k { let c = new_client(n, ctx, &w, &clients, true, true); clients.push(c); }
			});
			until_idle(&server).await?;
			net::with(|n, ctx| {
				judge(n, ctx, &clients, probes)?;
				for l in &clients[old..] {
					let Ok(r) = parse_response(&n.conns[l.conn].tx) else { return bad("probe", format!("client {} got no response although the faults are over", l.conn)) };
					if r.status == 200 { ctx.probe("probe_served"); }
				}
				Ok(())
			})?;
		}
		net::with(|n, ctx| {
			let mut shape: Vec<String> = clients.iter().map(|l| format!("{:?}{}", l.want, parse_response(&n.conns[l.conn].tx).map(|r| r.status).unwrap_or(0))).collect();
			for l in &clients { ctx.src.note(&n.conns[l.conn].tx); }
			shape.sort();
			ctx.state(format!("{:?} {} {:?}", shape, n.conns.iter().filter(|c| c.kind == Kind::Resolver).count(), ctx.st.faults.keys().collect::<Vec<_>>()).as_bytes());
		});
		drop(server);
		Ok(())
	});
	drop(rt);
	if res.is_ok() { if let Some(p) = take_panic() { return bad("panic", format!("a task panicked: {}", p)); } }
	res
}

/// C13: every request gets exactly the response which belongs to it.
pub fn c13(ctx: &mut Ctx) -> Res {
	let trouble = ctx.src.below(4);
	http_session(ctx, trouble, None, false)
}
/// C14: whatever clients, the resolver and the network did, afterwards everyone is served again.
pub fn c14(ctx: &mut Ctx) -> Res {
	let trouble = 2 + ctx.src.below(2);
	http_session(ctx, trouble, None, true)
}
/// C15: a proof is never said to be good for longer than the shortest-lived record in it.
pub fn c15(ctx: &mut Ctx) -> Res {
	let m = Manners { ttls: true, aged: true, odd: *ctx.src.pick(&[0u32, 3, 8]), spoil: *ctx.src.pick(&[0u32, 0, 12]), extra: 0, huge: ctx.src.chance(1, 6), bulky: false };
	let r = match ctx.src.below(5) {
		0 | 1 => builder_session(ctx, "C15"),
		2 => blocking_session(ctx, Some(m)),
		3 => async_session(ctx, Some(m)),
		_ if !cfg!(feature = "http") => Ok(()),
		_ => http_session(ctx, 0, Some(m), false),
	};
	match r {
		Err(v) if v.class != "ttl" && v.class != "simulator" => { ctx.probe("left_to_other_checks"); Ok(()) },
		r => r,
	}
}

//! A simulated TCP: resolvers behind connections the client opens, and clients which connect to the
//! HTTP server. Segmentation, delays, errors and every other nicety of a network are decided by the
//! run's choices; time only passes when nothing else can happen.

use crate::dns::*;
use crate::run::*;
use crate::session::*;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};
use std::io::{self, ErrorKind};
use std::net::SocketAddr;
use std::task::{Context, Poll, Waker};

/// A message from a resolver, and what belongs into a proof because of it. `None` if it has to be
/// refused.
#[derive(Clone, Debug)]
pub struct Msg { pub bytes: Vec<u8>, pub kept: Option<Vec<Rec>> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Eof, Err(ErrorKind) }

/// How a connection is going to behave.
#[derive(Clone, Debug, Default)]
pub struct Plan {
	/// Fail to connect.
	pub refuse: Option<ErrorKind>,
	/// End after this many bytes towards the code under test.
	pub cut: Option<(usize, End)>,
	/// Fail writes after this many bytes.
	pub wfail: Option<(usize, ErrorKind)>,
	/// Say nothing any more after this many bytes.
	pub silent: Option<usize>,
	/// Stop taking anything after this many bytes.
	pub tx_stall: Option<usize>,
	/// Interrupt one in this many blocking calls.
	pub eintr: u32,
	/// Longest segment.
	pub seg: u32,
	/// Longest write accepted at once.
	pub wseg: u32,
	/// Answers to pipelined queries come in order.
	pub in_order: bool,
	/// Milliseconds until anything happens, at most.
	pub slow: u32,
	/// One in this many reads is woken without anything to read.
	pub spurious: u32,
}
impl Plan {
	/// No faults, only the freedom any network has.
	pub fn calm(ctx: &mut Ctx) -> Plan {
		let seg = *ctx.src.pick(&[65535u32, 1500, 100, 7, 2, 1]);
		let wseg = *ctx.src.pick(&[65535u32, 100, 3, 1]);
		Plan { seg, wseg, in_order: ctx.src.chance(1, 3), slow: *ctx.src.pick(&[1u32, 10, 300, 5000]), ..Default::default() }
	}
	pub fn is_faulty(&self) -> bool { self.refuse.is_some() || self.cut.is_some() || self.wfail.is_some() || self.silent.is_some() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Resolver, Web }

pub struct Conn {
	pub kind: Kind,
	pub plan: Plan,
	pub connected: Option<Result<(), ErrorKind>>,
	/// On its way to the code under test.
	pub wire: VecDeque<u8>,
	/// Arrived, but not read yet.
	pub rx: VecDeque<u8>,
	pub arrived: usize,
	pub read: usize,
	pub rx_end: Option<End>,
	/// Written by the code under test.
	pub tx: Vec<u8>,
	pub tx_space: usize,
	pub tx_err: Option<ErrorKind>,
	pub shutdown: bool,
	pub closed: bool,
	pub closed_twice: bool,
	/// Closed while it held something unread, or sent something afterwards: what is still under way
	/// to the peer is lost.
	pub reset: bool,
	/// How much of `tx` the resolver has looked at.
	parsed: usize,
	pub queries: Vec<(Nm, u16)>,
	pub bad_query: Option<String>,
	outstanding: Vec<(Nm, u16)>,
	/// What the resolver answered, in order.
	pub frames: Vec<Msg>,
	pub used_after_close: bool,
	rd: Option<Waker>,
	wr: Option<Waker>,
	co: Option<Waker>,
	deliver_scheduled: bool,
	space_scheduled: bool,
	stall_seen: bool,
}

pub enum Ev {
	Connected(usize), Answer(usize), Deliver(usize), Space(usize), SpuriousWake(usize),
	/// A client connects to the server under test.
	Offer(usize), AcceptError(ErrorKind), Bytes(usize, Vec<u8>), End(usize, End),
	/// For the driver of the run.
	Other(usize),
}

pub type Responder = Box<dyn FnMut(&mut Ctx, &Nm, u16) -> Vec<Msg>>;
pub type Planner = Box<dyn FnMut(&mut Ctx) -> Plan>;

#[derive(Default)]
pub struct Net {
	pub now: u64,
	seq: u64,
	heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
	evs: Vec<Option<Ev>>,
	pub conns: Vec<Conn>,
	pub responder: Option<Responder>,
	pub planner: Option<Planner>,
	accept: VecDeque<Result<usize, ErrorKind>>,
	accept_waker: Option<Waker>,
	/// Calls made by the code under test.
	pub calls: u64,
	/// The code under test waits for something which can never happen.
	pub stalled: Vec<usize>,
	pub spun: bool,
}
const MAX_CALLS: u64 = 2_000_000;

thread_local! {
	static NET: RefCell<Net> = RefCell::new(Net::default());
	static CTX: Cell<*mut Ctx> = Cell::new(std::ptr::null_mut());
}

pub fn reset() {
	let old = NET.with(|n| std::mem::take(&mut *n.borrow_mut()));
	drop(old);
	CTX.with(|c| c.set(std::ptr::null_mut()));
}
/// Makes the run's context available to the hooks, until the next `reset`. From here on it must
/// only be used through `with_ctx`.
pub fn enter(ctx: &mut Ctx) { reset(); CTX.with(|c| c.set(ctx as *mut Ctx)); }
pub fn with_ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
	let p = CTX.with(|c| c.get());
	assert!(!p.is_null());
	f(unsafe { &mut *p })
}
pub fn with<T>(f: impl FnOnce(&mut Net, &mut Ctx) -> T) -> T {
	NET.with(|n| { let mut n = n.borrow_mut(); with_ctx(|c| f(&mut n, c)) })
}
/// The real network does not hand out 0 either.
fn id_of(i: usize) -> u64 { i as u64 + 3 }
fn ix(id: u64) -> usize { id as usize - 3 }

fn err(k: ErrorKind) -> io::Error { io::Error::new(k, "simulated") }

impl Net {
	pub fn at(&mut self, delay: u64, e: Ev) {
		self.seq += 1;
		self.evs.push(Some(e));
		self.heap.push(Reverse((self.now + delay, self.seq, self.evs.len() - 1)));
	}
	fn delay(&self, ctx: &mut Ctx, c: usize) -> u64 {
		let slow = self.conns[c].plan.slow.max(1);
		if ctx.src.chance(1, 12) { ctx.src.below(slow * 20) as u64 } else { ctx.src.below(slow) as u64 }
	}
	pub fn new_conn(&mut self, kind: Kind, plan: Plan) -> usize {
		let wseg = plan.wseg.max(1) as usize;
		self.conns.push(Conn {
			kind, plan, connected: None, wire: VecDeque::new(), rx: VecDeque::new(), arrived: 0, read: 0, rx_end: None, tx: Vec::new(),
			tx_space: wseg.max(4), tx_err: None, shutdown: false, closed: false, closed_twice: false, reset: false, parsed: 0, queries: Vec::new(), bad_query: None,
			outstanding: Vec::new(), frames: Vec::new(), used_after_close: false, rd: None, wr: None, co: None, deliver_scheduled: false, space_scheduled: false, stall_seen: false,
		});
		self.conns.len() - 1
	}
	fn open(&mut self, ctx: &mut Ctx) -> usize {
		let plan = match self.planner.take() { Some(mut p) => { let r = p(ctx); self.planner = Some(p); r }, None => Plan { seg: 65535, wseg: 65535, slow: 1, ..Default::default() } };
		self.new_conn(Kind::Resolver, plan)
	}
	/// The resolver reads what has been written.
	fn look(&mut self, c: usize) -> usize {
		let conn = &mut self.conns[c];
		let mut fresh = 0;
		while conn.bad_query.is_none() {
			let left = &conn.tx[conn.parsed..];
			if left.len() < 2 { break; }
			let l = u16::from_be_bytes([left[0], left[1]]) as usize;
			if left.len() < 2 + l { break; }
			match parse_query(&left[2..2 + l]) {
				Ok(q) => { conn.queries.push(q.clone()); conn.outstanding.push(q); fresh += 1; },
				Err(e) => conn.bad_query = Some(e),
			}
			conn.parsed += 2 + l;
		}
		fresh
	}
	pub fn unparsed(&self, c: usize) -> usize { self.conns[c].tx.len() - self.conns[c].parsed }
	/// The resolver answers one of the questions it was asked.
	fn answer(&mut self, ctx: &mut Ctx, c: usize) -> bool {
		if self.conns[c].outstanding.is_empty() || self.responder.is_none() { return false; }
		let i = if self.conns[c].plan.in_order { 0 } else { ctx.src.idx(self.conns[c].outstanding.len()) };
		if i > 0 { ctx.fault("response_reordered"); }
		let (n, t) = self.conns[c].outstanding.remove(i);
		let mut r = self.responder.take().unwrap();
		let ms = r(ctx, &n, t);
		self.responder = Some(r);
		for m in ms {
			ctx.src.say(|| format!("[{}] {} {} -> {} bytes{}", c, n.s(), ty_str(t), m.bytes.len(), if m.kept.is_none() { " (bad)" } else { "" }));
			let conn = &mut self.conns[c];
			// Large messages in tiny pieces only waste time.
			if m.bytes.len() > 4200 { conn.plan.seg = conn.plan.seg.max((m.bytes.len() / 300) as u32); }
			conn.wire.extend((m.bytes.len() as u16).to_be_bytes());
			conn.wire.extend(m.bytes.iter());
			conn.frames.push(m);
		}
		true
	}
	/// Some of what is under way arrives.
	fn arrive(&mut self, ctx: &mut Ctx, c: usize) {
		let conn = &mut self.conns[c];
		if conn.rx_end.is_some() { return; }
		let mut n = ctx.src.range(1, conn.plan.seg.max(1)) as usize;
		n = n.min(conn.wire.len());
		if let Some(s) = conn.plan.silent { n = n.min(s.saturating_sub(conn.arrived)); }
		if let Some((cut, _)) = conn.plan.cut { n = n.min(cut.saturating_sub(conn.arrived)); }
		if n < conn.wire.len() && n > 0 { ctx.probe("segmented"); }
		let part: Vec<u8> = conn.wire.drain(..n).collect();
		conn.rx.extend(part);
		conn.arrived += n;
		if let Some((cut, end)) = conn.plan.cut {
			if conn.arrived >= cut && conn.rx_end.is_none() {
				if let End::Err(_) = end { conn.rx.clear(); }
				conn.rx_end = Some(end);
				ctx.fault(match end { End::Eof => "resolver_closed", End::Err(_) => "connection_reset" });
			}
		}
	}
	fn silent(&self, c: usize) -> bool { self.conns[c].plan.silent.map(|s| self.conns[c].arrived >= s).unwrap_or(false) }
	/// Makes sure that whatever can happen to a connection will.
	fn kick(&mut self, ctx: &mut Ctx, c: usize) {
		let more = !self.conns[c].wire.is_empty() || (self.conns[c].plan.cut.map(|(n, _)| self.conns[c].arrived >= n).unwrap_or(false));
		if more && !self.conns[c].deliver_scheduled && self.conns[c].rx_end.is_none() && !self.silent(c) {
			self.conns[c].deliver_scheduled = true;
			let d = self.delay(ctx, c);
			self.at(d, Ev::Deliver(c));
		}
	}
	/// Performs the next event. False if there are none.
	pub fn step(&mut self, ctx: &mut Ctx) -> Option<Option<usize>> {
		let Reverse((t, _, i)) = self.heap.pop()?;
		ctx.st.sim_ms += t - self.now;
		ctx.st.events += 1;
		self.now = t;
		match self.evs[i].take().unwrap() {
			Ev::Connected(c) => {
				let conn = &mut self.conns[c];
				conn.connected = Some(match conn.plan.refuse { Some(k) => { ctx.fault("connect_failed"); Err(k) }, None => Ok(()) });
				if let Some(w) = conn.co.take() { w.wake(); }
			},
			Ev::Answer(c) => { if self.answer(ctx, c) { self.kick(ctx, c); } },
			Ev::Deliver(c) => {
				self.conns[c].deliver_scheduled = false;
				self.arrive(ctx, c);
				if self.silent(c) { ctx.fault("resolver_silent"); }
				if let Some(w) = self.conns[c].rd.take() { w.wake(); }
				self.kick(ctx, c);
			},
			Ev::Space(c) => {
				let conn = &mut self.conns[c];
				conn.space_scheduled = false;
				conn.tx_space += ctx.src.range(1, conn.plan.wseg.max(1)) as usize;
				if let Some(w) = conn.wr.take() { w.wake(); }
			},
			Ev::SpuriousWake(c) => { if let Some(w) = self.conns[c].rd.take() { ctx.fault("spurious_wakeup"); w.wake(); } },
			Ev::Offer(c) => {
				self.conns[c].connected = Some(Ok(()));
				self.accept.push_back(Ok(c));
				if let Some(w) = self.accept_waker.take() { w.wake(); }
			},
			Ev::AcceptError(k) => {
				ctx.fault("accept_failed");
				self.accept.push_back(Err(k));
				if let Some(w) = self.accept_waker.take() { w.wake(); }
			},
			Ev::Bytes(c, b) => {
				let conn = &mut self.conns[c];
				if conn.closed { conn.reset = true; }
				if conn.rx_end.is_none() { conn.rx.extend(b); }
				if let Some(w) = conn.rd.take() { w.wake(); }
			},
			Ev::End(c, e) => {
				let conn = &mut self.conns[c];
				if conn.rx_end.is_none() { conn.rx_end = Some(e); }
				if let End::Err(k) = e { conn.rx.clear(); conn.rx_end = Some(e); conn.tx_err = Some(if k == ErrorKind::ConnectionReset { ErrorKind::BrokenPipe } else { k }); }
				if let Some(w) = conn.rd.take() { w.wake(); }
				if let Some(w) = conn.wr.take() { w.wake(); }
			},
			Ev::Other(n) => return Some(Some(n)),
		}
		Some(None)
	}
	pub fn idle(&self) -> bool { self.heap.is_empty() }
	fn count(&mut self) -> bool { self.calls += 1; if self.calls > MAX_CALLS + 200_000 * self.conns.len() as u64 { self.spun = true; } self.spun }
}

// ---- what the code under test calls ----

pub fn connect(_: SocketAddr) -> io::Result<u64> {
	with(|n, ctx| {
		n.count();
		let c = n.open(ctx);
		n.conns[c].connected = Some(Ok(()));
		if let Some(k) = n.conns[c].plan.refuse { ctx.fault("connect_failed"); n.conns[c].closed = true; return Err(err(k)); }
		Ok(id_of(c))
	})
}
fn eintr(ctx: &mut Ctx, p: &Plan) -> bool {
	if p.eintr > 0 && ctx.src.chance(1, p.eintr) { ctx.fault("interrupted"); true } else { false }
}
/// Blocking read: whatever is needed for it to return happens first.
pub fn read(id: u64, buf: &mut [u8]) -> io::Result<usize> {
	with(|n, ctx| {
		let c = ix(id);
		ctx.st.events += 1;
		if n.conns[c].closed { n.conns[c].used_after_close = true; }
		if n.count() { return Err(err(ErrorKind::TimedOut)); }
		if eintr(ctx, &n.conns[c].plan) { return Err(err(ErrorKind::Interrupted)); }
		if buf.is_empty() { return Ok(0); }
		n.look(c);
		loop {
			if !n.conns[c].rx.is_empty() {
				let conn = &mut n.conns[c];
				let m = buf.len().min(conn.rx.len());
				for b in &mut buf[..m] { *b = conn.rx.pop_front().unwrap(); }
				conn.read += m;
				if ctx.src.chance(1, 8) { let d = ctx.src.below(conn.plan.slow.max(1)) as u64; n.now += d; ctx.st.sim_ms += d; }
				return Ok(m);
			}
			match n.conns[c].rx_end { Some(End::Eof) => return Ok(0), Some(End::Err(k)) => return Err(err(k)), None => {} }
			if n.silent(c) { ctx.fault("resolver_silent"); return Err(err(ErrorKind::TimedOut)); }
			let cut_now = n.conns[c].plan.cut.map(|(k, _)| n.conns[c].arrived >= k).unwrap_or(false);
			if !n.conns[c].wire.is_empty() || cut_now { n.arrive(ctx, c); continue; }
			if !n.answer(ctx, c) {
				n.stalled.push(c);
				return Err(err(ErrorKind::TimedOut));
			}
		}
	})
}
fn write_some(n: &mut Net, c: usize, b: &[u8]) -> io::Result<usize> {
	let conn = &mut n.conns[c];
	if conn.shutdown { return Err(err(ErrorKind::BrokenPipe)); }
	if let Some(k) = conn.tx_err { return Err(err(k)); }
	let mut m = b.len();
	if let Some((at, k)) = conn.plan.wfail {
		if conn.tx.len() >= at { conn.tx_err = Some(k); return Err(err(k)); }
		m = m.min(at - conn.tx.len());
	}
	conn.tx.extend_from_slice(&b[..m]);
	Ok(m)
}
pub fn write(id: u64, b: &[u8]) -> io::Result<usize> {
	with(|n, ctx| {
		let c = ix(id);
		ctx.st.events += 1;
		if n.conns[c].closed { n.conns[c].used_after_close = true; }
		if n.count() { return Err(err(ErrorKind::TimedOut)); }
		if eintr(ctx, &n.conns[c].plan) { return Err(err(ErrorKind::Interrupted)); }
		if b.is_empty() { return Ok(0); }
		let m = ctx.src.range(1, n.conns[c].plan.wseg.max(1).min(b.len() as u32)) as usize;
		if m < b.len() { ctx.fault("short_write"); }
		let r = write_some(n, c, &b[..m]);
		if r.is_err() { ctx.fault("write_failed"); }
		r
	})
}
pub fn start_connect(_: SocketAddr) -> u64 {
	with(|n, ctx| {
		n.count();
		let c = n.open(ctx);
		let d = n.delay(ctx, c);
		n.at(d, Ev::Connected(c));
		id_of(c)
	})
}
pub fn poll_connect(id: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
	with(|n, _| {
		n.count();
		let conn = &mut n.conns[ix(id)];
		match conn.connected {
			Some(Ok(())) => Poll::Ready(Ok(())),
			Some(Err(k)) => Poll::Ready(Err(err(k))),
			None => { conn.co = Some(cx.waker().clone()); Poll::Pending },
		}
	})
}
pub fn poll_read(id: u64, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
	with(|n, ctx| {
		let c = ix(id);
		ctx.st.events += 1;
		if n.conns[c].closed { n.conns[c].used_after_close = true; }
		if n.count() { return Poll::Ready(Err(err(ErrorKind::TimedOut))); }
		if buf.is_empty() { return Poll::Ready(Ok(0)); }
		let conn = &mut n.conns[c];
		if !conn.rx.is_empty() {
			let m = ctx.src.range(1, buf.len().min(conn.rx.len()) as u32) as usize;
			for b in &mut buf[..m] { *b = conn.rx.pop_front().unwrap(); }
			conn.read += m;
			return Poll::Ready(Ok(m));
		}
		match conn.rx_end { Some(End::Eof) => return Poll::Ready(Ok(0)), Some(End::Err(k)) => return Poll::Ready(Err(err(k))), None => {} }
		conn.rd = Some(cx.waker().clone());
		if conn.plan.spurious > 0 && ctx.src.chance(1, conn.plan.spurious) { let d = n.delay(ctx, c); n.at(d, Ev::SpuriousWake(c)); }
		n.kick(ctx, c);
		Poll::Pending
	})
}
pub fn poll_write(id: u64, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
	with(|n, ctx| {
		let c = ix(id);
		ctx.st.events += 1;
		if n.conns[c].closed { n.conns[c].used_after_close = true; }
		if n.count() { return Poll::Ready(Err(err(ErrorKind::TimedOut))); }
		if b.is_empty() { return Poll::Ready(Ok(0)); }
		if n.conns[c].tx_err.is_none() {
			if n.conns[c].plan.tx_stall.map(|s| n.conns[c].tx.len() >= s).unwrap_or(false) {
				n.conns[c].wr = Some(cx.waker().clone());
				if !n.conns[c].stall_seen { n.conns[c].stall_seen = true; ctx.fault("peer_stops_reading"); }
				return Poll::Pending;
			}
		}
		if n.conns[c].tx_err.is_none() && n.conns[c].tx_space == 0 {
			n.conns[c].wr = Some(cx.waker().clone());
			if !n.conns[c].space_scheduled {
				n.conns[c].space_scheduled = true;
				let d = n.delay(ctx, c);
				n.at(d, Ev::Space(c));
			}
			ctx.probe("write_blocked");
			return Poll::Pending;
		}
		if b.len() > 4200 { n.conns[c].plan.wseg = n.conns[c].plan.wseg.max((b.len() / 300) as u32); }
		let mut m = b.len().min(n.conns[c].tx_space.max(1)).min(ctx.src.range(1, n.conns[c].plan.wseg.max(1)) as usize);
		if let Some(s) = n.conns[c].plan.tx_stall { m = m.min(s.saturating_sub(n.conns[c].tx.len()).max(1)); }
		if m < b.len() { ctx.fault("short_write"); }
		let r = write_some(n, c, &b[..m]);
		match &r { Ok(m) => n.conns[c].tx_space -= (*m).min(n.conns[c].tx_space), Err(_) => ctx.fault("write_failed") }
		if n.conns[c].kind == Kind::Resolver {
			for _ in 0..n.look(c) { let d = n.delay(ctx, c); n.at(d, Ev::Answer(c)); }
		}
		Poll::Ready(r)
	})
}
pub fn poll_accept(_: u64, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
	with(|n, _| {
		if n.count() { return Poll::Pending; }
		match n.accept.pop_front() {
			Some(Ok(c)) => Poll::Ready(Ok(id_of(c))),
			Some(Err(k)) => Poll::Ready(Err(err(k))),
			None => { n.accept_waker = Some(cx.waker().clone()); Poll::Pending },
		}
	})
}
pub fn shutdown(id: u64) -> io::Result<()> { with(|n, _| { n.conns[ix(id)].shutdown = true; Ok(()) }) }
pub fn close(id: u64) {
	// A runtime may be dropped after the run it belonged to.
	if CTX.with(|c| c.get()).is_null() { return; }
	NET.with(|n| if let Ok(mut n) = n.try_borrow_mut() {
		if let Some(c) = n.conns.get_mut(ix(id)) { if c.closed { c.closed_twice = true; } c.closed = true; c.reset |= !c.rx.is_empty(); }
	})
}

//! Explores seeds in worker processes, minimises and replays what they find, and reports.

use crate::hooks;
use crate::props::*;
use crate::run::*;
use crate::src::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

const CHUNK: u32 = 100;
/// CPU time after which a single run counts as hung. Ordinary runs take milliseconds.
const HANG_MS: i64 = 8000;
const WALL_CAP_S: u64 = 600;

fn root() -> String { std::env::var("SIM_ROOT").unwrap_or("/verif".into()) }

pub fn main(args: &[String]) -> i32 {
	let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
	match a.as_slice() {
		["run", prop, tier] => parent(prop, tier),
		["chunk", prop, tier, seed, from, to] =>
			{ chunk(prop, tier == &"thorough", seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap(), false); 0 },
		["samples", prop, tier, seed, from, to] =>
			{ chunk(prop, tier == &"thorough", seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap(), true); 0 },
		["minimise", prop, tier, file] => { minimise(prop, tier == &"thorough", file); 0 },
		["one", prop, tier, file] => { one(prop, tier == &"thorough", file); 0 },
		["log", prop, tier, seed, idx] => { log_choices(prop, tier == &"thorough", seed.parse().unwrap(), idx.parse().unwrap()); 0 },
		["replay", file] => replay(file),
		["selftest"] => selftest(),
		_ => { eprintln!("usage: run PROP TIER | replay FILE | selftest"); 2 },
	}
}

pub fn run_seed(vseed: u64, prop: &str, idx: u32) -> u64 { hash_bytes(mix(vseed), prop.as_bytes()) ^ mix(idx as u64 + 1) }

// ---- inside a worker ----

static RUN_STARTED: AtomicI64 = AtomicI64::new(-1);
static HANG_LIMIT: AtomicI64 = AtomicI64::new(HANG_MS);
fn cpu_ms() -> i64 {
	let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
	unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t); }
	t.tv_sec as i64 * 1000 + t.tv_nsec as i64 / 1_000_000
}
fn setup_worker() {
	unsafe {
		let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
		libc::setrlimit(libc::RLIMIT_AS, &l);
		let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
		libc::setrlimit(libc::RLIMIT_CORE, &l);
	}
	hooks::install();
	install_panic_hook();
	std::thread::spawn(|| loop {
		std::thread::sleep(std::time::Duration::from_millis(200));
		let s = RUN_STARTED.load(SeqCst);
		if s >= 0 && cpu_ms() - s > HANG_LIMIT.load(SeqCst) { unsafe { libc::_exit(77); } }
	});
}
/// Simulated runs happen on a thread with a known stack size, so that stack use does not depend on
/// the environment.
fn on_stack<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> T {
	std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}
fn run_once(p: &Prop, src: Src, thorough: bool) -> (Res, Ctx) {
	let mut ctx = Ctx::new(src, thorough);
	hooks::clear_anchors();
	hooks::reset_work();
	crate::net::reset();
	RUN_STARTED.store(cpu_ms(), SeqCst);
	let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut ctx))) {
		Ok(r) => r,
		Err(_) => bad("simulator", format!("the simulator itself panicked: {}", take_panic().unwrap_or_default())),
	};
	RUN_STARTED.store(-1, SeqCst);
	let r = match r {
		Err(v) if v.class == "panic" && !p.crash_counts => { ctx.probe("panic_left_to_other_checks"); Ok(()) },
		r => r,
	};
	let h = match &r { Ok(()) => 1, Err(v) => hash_bytes(2, v.class.as_bytes()) };
	ctx.src.note(&u64::to_be_bytes(h));
	(r, ctx)
}
fn csv(l: &[u32]) -> String { l.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",") }
fn un_csv(s: &str) -> Vec<u32> { s.split(',').filter_map(|c| c.trim().parse().ok()).collect() }
fn flat(s: &str) -> String { s.replace('\n', " | ") }

fn chunk(prop: &str, thorough: bool, seed: u64, from: u32, to: u32, trace: bool) {
	let prop = prop.to_string();
	setup_worker();
	on_stack(move || {
		let p = find(&prop).expect("property");
		let out = std::io::stdout();
		let (mut faults, mut probes) = (BTreeMap::new(), BTreeMap::new());
		let (mut ms, mut ev, mut digest) = (0u64, 0u64, 0u64);
		let mut states = BTreeSet::new();
		for idx in from..to {
			{ let mut o = out.lock(); writeln!(o, "B {}", idx).unwrap(); o.flush().unwrap(); }
			let mut src = Src::new(run_seed(seed, &prop, idx));
			if trace { src.trace = Some(Vec::new()); }
			let (r, ctx) = run_once(p, src, thorough);
			for (k, v) in ctx.st.faults { *faults.entry(k).or_insert(0u64) += v; }
			for (k, v) in ctx.st.probes { *probes.entry(k).or_insert(0u64) += v; }
			ms += ctx.st.sim_ms;
			ev += ctx.st.events;
			states.extend(ctx.st.states);
			digest = mix(digest ^ ctx.src.digest);
			for t in ctx.src.trace.iter().flatten() { println!("T {} {}", idx, flat(t)); }
			if let Err(v) = r { println!("V {} {} {}\tC {}", idx, v.class, flat(&v.msg), csv(&ctx.src.log)); break; }
		}
		for (k, v) in faults { println!("F {} {}", k, v); }
		for (k, v) in probes { println!("P {} {}", k, v); }
		println!("M {} {}", ms, ev);
		for s in states { println!("S {:x}", s); }
		println!("D {:x}", digest);
		println!("E");
	});
}

/// Prints every choice as it is made, for runs which end abnormally.
fn log_choices(prop: &str, thorough: bool, seed: u64, idx: u32) {
	let prop = prop.to_string();
	setup_worker();
	on_stack(move || {
		let mut src = Src::new(run_seed(seed, &prop, idx));
		src.tee = true;
		let _ = run_once(find(&prop).unwrap(), src, thorough);
	});
}

fn outcome(r: &Res) -> String { match r { Ok(()) => "ok".into(), Err(v) => format!("{} {}", v.class, flat(&v.msg)) } }

/// Runs a recorded list of choices, printing what happens.
fn one(prop: &str, thorough: bool, file: &str) {
	let choices = un_csv(&std::fs::read_to_string(file).unwrap());
	let prop = prop.to_string();
	setup_worker();
	on_stack(move || {
		let mut src = Src::replay(choices);
		src.trace = Some(Vec::new());
		let (r, ctx) = run_once(find(&prop).unwrap(), src, thorough);
		for t in ctx.src.trace.iter().flatten() { println!("T {}", flat(t)); }
		println!("R {}", outcome(&r));
		println!("D {:x}", ctx.src.digest);
	});
}

fn candidates(cur: &[u32], round: usize) -> Vec<Vec<u32>> {
	let mut out = Vec::new();
	let n = cur.len();
	let mut size = (n / 2).max(1);
	for _ in 0..round { size = (size / 2).max(1); }
	let mut i = 0;
	while i < n {
		let e = (i + size).min(n);
		let mut a = cur.to_vec();
		a.drain(i..e);
		out.push(a);
		if cur[i..e].iter().any(|c| *c != 0) {
			let mut a = cur.to_vec();
			for c in &mut a[i..e] { *c = 0; }
			out.push(a);
		}
		if size == 1 && cur[i] > 1 {
			let mut a = cur.to_vec();
			a[i] /= 2;
			out.push(a);
			let mut a = cur.to_vec();
			a[i] -= 1;
			out.push(a);
		}
		i = e;
	}
	out
}
fn weight(c: &[u32]) -> (usize, u64) {
	let n = c.iter().rposition(|x| *x != 0).map(|p| p + 1).unwrap_or(0);
	(n, c.iter().map(|x| 1 + *x as u64).sum())
}
fn shrink(mut cur: Vec<u32>, budget: usize, fails: &mut dyn FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
	let mut left = budget;
	let mut round = 0;
	loop {
		let mut improved = false;
		for c in candidates(&cur, round) {
			if left == 0 { return cur; }
			if weight(&c) >= weight(&cur) { continue; }
			left -= 1;
			// Cut points refer to the old list; start over once something worked.
			if let Some(log) = fails(&c) {
				let mut log = log;
				while log.last() == Some(&0) { log.pop(); }
				if weight(&log) < weight(&cur) { cur = log; improved = true; break; }
			}
		}
		if !improved {
			let size = (cur.len() / 2).max(1) >> round.min(31);
			if size <= 1 { return cur; }
			round += 1;
		}
	}
}

/// Minimises a failing list of choices within this process; prints the result.
fn minimise(prop: &str, thorough: bool, file: &str) {
	let choices = un_csv(&std::fs::read_to_string(file).unwrap());
	let prop = prop.to_string();
	setup_worker();
	on_stack(move || {
		let p = find(&prop).unwrap();
		let (r, _) = run_once(p, Src::replay(choices.clone()), thorough);
		let class = match r { Err(v) => v.class, Ok(()) => { println!("N"); return; } };
		let deadline = cpu_ms() + 60_000;
		let best = shrink(choices, 6000, &mut |c| {
			if cpu_ms() > deadline { return None; }
			let (r, ctx) = run_once(p, Src::replay(c.to_vec()), thorough);
			match r { Err(v) if v.class == class => Some(ctx.src.log), _ => None }
		});
		println!("C {}", csv(&best));
	});
}

// ---- the parent ----

fn me() -> Command { let mut c = Command::new(std::env::current_exe().unwrap()); c.stderr(Stdio::null()).stdin(Stdio::null()); c }
fn output_of(args: &[&str]) -> (Vec<String>, Option<i32>) {
	let o = me().args(args).stdout(Stdio::piped()).output().expect("spawn");
	(String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect(), o.status.code())
}
/// What an abnormal exit of a worker means.
fn death(code: Option<i32>) -> Violation {
	match code {
		Some(77) => Violation { class: "hang", msg: format!("a single operation used more than {} ms of CPU time", HANG_MS) },
		c => Violation { class: "crash", msg: format!("the process died ({})", c.map(|c| format!("exit code {}", c)).unwrap_or("signal".into())) },
	}
}

#[derive(Default)]
struct Totals {
	runs: u64, faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, ms: u64, events: u64, states: BTreeSet<u64>,
	digests: BTreeMap<u32, String>, skipped_crashes: u64,
	/// (index, first index of its chunk, class, message, choices if known)
	found: Vec<(u32, u32, String, String, Option<Vec<u32>>)>,
}

fn explore(p: &'static Prop, tier: &str, vseed: u64, total: u32, workers: usize) -> Totals {
	let t = Arc::new(Mutex::new(Totals::default()));
	let next = Arc::new(AtomicU32::new(0));
	let stop = Arc::new(AtomicBool::new(false));
	let start = Instant::now();
	let mut hs = Vec::new();
	for _ in 0..workers {
		let (t, next, stop, tier) = (t.clone(), next.clone(), stop.clone(), tier.to_string());
		hs.push(std::thread::spawn(move || loop {
			if stop.load(SeqCst) || start.elapsed().as_secs() > WALL_CAP_S { return; }
			let mut from = next.fetch_add(CHUNK, SeqCst);
			if from >= total { return; }
			let chunk_start = from;
			let to = (from + CHUNK).min(total);
			while from < to {
				let mut c = me().args(["chunk", p.id, &tier, &vseed.to_string(), &from.to_string(), &to.to_string()])
					.stdout(Stdio::piped()).spawn().expect("spawn");
				let rd = BufReader::new(c.stdout.take().unwrap());
				let mut cur = from;
				let mut ended = false;
				let mut l = Vec::new();
				for line in rd.lines() {
					let line = match line { Ok(l) => l, Err(_) => break };
					if let Some(b) = line.strip_prefix("B ") { cur = b.parse().unwrap_or(cur); continue; }
					if line == "E" { ended = true; }
					l.push(line);
				}
				let st = c.wait().expect("wait");
				let mut t = t.lock().unwrap();
				for line in &l {
					let mut w = line.splitn(3, ' ');
					match (w.next(), w.next(), w.next()) {
						(Some("F"), Some(k), Some(v)) => *t.faults.entry(k.into()).or_insert(0) += v.parse().unwrap_or(0),
						(Some("P"), Some(k), Some(v)) => *t.probes.entry(k.into()).or_insert(0) += v.parse().unwrap_or(0),
						(Some("M"), Some(a), Some(b)) => { t.ms += a.parse().unwrap_or(0); t.events += b.parse().unwrap_or(0); },
						(Some("S"), Some(h), None) => { t.states.insert(u64::from_str_radix(h, 16).unwrap_or(0)); },
						(Some("D"), Some(d), None) => { t.digests.insert(from, d.into()); },
						(Some("V"), Some(i), Some(rest)) => {
							let (desc, c) = rest.split_once("\tC ").unwrap_or((rest, ""));
							let (class, msg) = desc.split_once(' ').unwrap_or((desc, ""));
							t.found.push((i.parse().unwrap(), chunk_start, class.into(), msg.into(), Some(un_csv(c))));
							stop.store(true, SeqCst);
						},
						_ => {},
					}
				}
				if ended { t.runs += (cur + 1 - from) as u64; break; }
				t.runs += (cur + 1 - from) as u64;
				// It died in run `cur`.
				if p.crash_counts {
					let d = death(st.code());
					t.found.push((cur, chunk_start, d.class.into(), d.msg, None));
					stop.store(true, SeqCst);
					break;
				}
				t.skipped_crashes += 1;
				if t.skipped_crashes > 60 { stop.store(true, SeqCst); break; }
				from = cur + 1;
			}
		}));
	}
	for h in hs { h.join().unwrap(); }
	Arc::try_unwrap(t).ok().unwrap().into_inner().unwrap()
}

pub fn json_str(s: &str) -> String {
	let mut r = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"),
			c if (c as u32) < 0x20 || c as u32 > 0x7e => r.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
			c => r.push(c),
		}
	}
	r.push('"');
	r
}
fn json_list(l: &[String]) -> String { format!("[{}]", l.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n    ")) }
fn json_map(m: &BTreeMap<String, u64>) -> String {
	format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "))
}

struct Known { property: String, class: String, file: String, what: String }
/// Lines of known_findings.txt: `known: property=<id> class=<class> replay=<file> <what fails>`.
fn known() -> Vec<Known> {
	let mut r = Vec::new();
	for l in std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default().lines() {
		if let Some(l) = l.strip_prefix("known: ") {
			let w: Vec<&str> = l.splitn(4, ' ').collect();
			if w.len() < 4 { continue; }
			let f = |i: usize, k: &str| w[i].strip_prefix(k).unwrap_or("").to_string();
			r.push(Known { property: f(0, "property="), class: f(1, "class="), file: f(2, "replay="), what: w[3].into() });
		}
	}
	r
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
	let i = s.find(&format!("\"{}\":", k))?;
	let r = s[i..].split_once(':')?.1.trim_start();
	if let Some(r) = r.strip_prefix('"') { r.split('"').next() }
	else if let Some(r) = r.strip_prefix('[') { r.split(']').next() }
	else { r.split(|c: char| c == ',' || c == '}' || c == '\n').next().map(|s| s.trim()) }
}

fn tmp(tag: &str) -> String {
	let d = format!("{}/replays", root());
	let _ = std::fs::create_dir_all(&d);
	format!("{}/.{}-{}", d, tag, std::process::id())
}
/// Runs choices in a fresh process: the class it ends with, its message and trace.
fn run_choices(p: &Prop, tier: &str, c: &[u32]) -> (String, String, Vec<String>) {
	let f = tmp("one");
	std::fs::write(&f, csv(c)).unwrap();
	let (l, code) = output_of(&["one", p.id, tier, &f]);
	let _ = std::fs::remove_file(&f);
	let trace: Vec<String> = l.iter().filter_map(|l| l.strip_prefix("T ").map(|s| s.to_string())).collect();
	match l.iter().find_map(|l| l.strip_prefix("R ")) {
		Some(r) => { let (c, m) = r.split_once(' ').unwrap_or((r, "")); (c.into(), m.into(), trace) },
		None => { let d = death(code); (d.class.into(), d.msg, trace) },
	}
}
/// Runs a range of seeds in a fresh process, returning the violation if there is one.
fn run_range(p: &Prop, tier: &str, seed: u64, from: u32, to: u32) -> Option<(u32, String, String)> {
	let (l, code) = output_of(&["chunk", p.id, tier, &seed.to_string(), &from.to_string(), &to.to_string()]);
	for line in &l {
		if let Some(r) = line.strip_prefix("V ") {
			let (desc, _) = r.split_once("\tC ").unwrap_or((r, ""));
			let mut w = desc.splitn(3, ' ');
			return Some((w.next()?.parse().ok()?, w.next()?.into(), w.next().unwrap_or("").into()));
		}
	}
	if l.iter().any(|l| l == "E") { return None; }
	let idx = l.iter().filter_map(|l| l.strip_prefix("B ")).last().and_then(|b| b.parse().ok()).unwrap_or(from);
	let d = death(code);
	Some((idx, d.class.into(), d.msg))
}

fn report(p: &'static Prop, tier: &str, vseed: u64, f: &(u32, u32, String, String, Option<Vec<u32>>)) -> Option<(String, String)> {
	let (idx, chunk_start, class, msg, choices) = f;
	let choices = match choices {
		Some(c) => c.clone(),
		None => {
			let (l, _) = output_of(&["log", p.id, tier, &vseed.to_string(), &idx.to_string()]);
			l.iter().filter_map(|l| l.strip_prefix("c ").and_then(|c| c.parse().ok())).collect()
		},
	};
	let path = format!("{}/replays/{}-{}-{}.json", root(), p.id, vseed, idx);
	let (c0, m0, _) = run_choices(p, tier, &choices);
	let known = std::env::var("SIM_KNOWN").map(|k| format!("  \"known\": {},\n", json_str(&k))).unwrap_or_default();
	let head = format!("  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"run\": {},\n{}", p.id, tier, vseed, idx, known);
	if c0 == *class {
		let before = choices.len();
		let best = if ["hang", "crash"].contains(&class.as_str()) {
			shrink(choices.clone(), 14, &mut |c| if run_choices(p, tier, c).0 == *class { Some(c.to_vec()) } else { None })
		} else {
			let fl = tmp("min");
			std::fs::write(&fl, csv(&choices)).unwrap();
			let (l, _) = output_of(&["minimise", p.id, tier, &fl]);
			let _ = std::fs::remove_file(&fl);
			l.iter().find_map(|l| l.strip_prefix("C ").map(un_csv)).unwrap_or(choices.clone())
		};
		let (c1, m1, trace) = run_choices(p, tier, &best);
		let (best, m, trace) = if c1 == *class { (best, m1, trace) } else { let (_, _, t) = run_choices(p, tier, &choices); (choices, m0, t) };
		let body = format!("{{\n{}  \"mode\": \"choices\",\n  \"class\": {},\n  \"violation\": {},\n  \"choices_before_minimising\": {},\n  \"choices\": [{}],\n  \"trace\": {}\n}}\n",
			head, json_str(class), json_str(&m), before, csv(&best), json_list(&trace));
		std::fs::write(&path, body).ok()?;
		return Some((path, m));
	}
	// It depends on what earlier runs left behind in the process: replay the runs leading up to it.
	let (mut from, to) = (*chunk_start, idx + 1);
	let hit = |from: u32| run_range(p, tier, vseed, from, to).map(|(i, c, _)| i == *idx && c == *class).unwrap_or(false);
	if !hit(from) {
		eprintln!("run {} of {} failed once ({}: {}) but could not be reproduced", idx, p.id, class, msg);
		return None;
	}
	let mut step = (to - from) / 2;
	while step > 0 {
		if from + step < to && hit(from + step) { from += step; } else { step /= 2; }
	}
	let body = format!("{{\n{}  \"mode\": \"range\",\n  \"from\": {},\n  \"to\": {},\n  \"class\": {},\n  \"violation\": {},\n  \"trace\": []\n}}\n",
		head, from, to, json_str(class), json_str(msg));
	std::fs::write(&path, body).ok()?;
	Some((path, msg.clone()))
}

fn replay(file: &str) -> i32 {
	let s = match std::fs::read_to_string(file) { Ok(s) => s, Err(e) => { eprintln!("{}: {}", file, e); return 2; } };
	let get = |k: &str| field(&s, k).unwrap_or("").to_string();
	let p = match find(&get("property")) { Some(p) => p, None => return 2 };
	let (tier, class) = (get("tier"), get("class"));
	if !get("known").is_empty() { std::env::set_var("SIM_KNOWN", get("known")); }
	let got = if get("mode") == "range" {
		run_range(p, &tier, get("seed").parse().unwrap_or(0), get("from").parse().unwrap_or(0), get("to").parse().unwrap_or(0))
			.map(|(_, c, m)| (c, m)).unwrap_or(("ok".into(), "".into()))
	} else {
		let (c, m, trace) = run_choices(p, &tier, &un_csv(&get("choices")));
		for t in trace { println!("  {}", t); }
		(c, m)
	};
	println!("{}: {}", got.0, got.1);
	if got.0 == class { println!("VIOLATION property={} replay={}", p.id, file); 1 } else { println!("did not reproduce {}", class); 0 }
}

fn parent(prop: &str, tier: &str) -> i32 {
	let p = match find(prop) { Some(p) => p, None => { eprintln!("no such property"); return 2; } };
	if !built(prop) { println!("what {} is about does not build", prop); return 2; }
	let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let mut total = if tier == "thorough" { p.thorough } else { p.quick };
	if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) { total = n; }
	let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
	let start = Instant::now();

	let mut t = explore(p, tier, vseed, total, workers);
	let explored_s = start.elapsed().as_secs_f64();
	let mut viol: Vec<(String, String)> = Vec::new();
	t.found.sort();
	for f in t.found.iter() {
		if let Some(r) = report(p, tier, vseed, f) {
			println!("run {} (class {}): {}", f.0, f.2, r.1);
			viol.push(r);
			break;
		}
	}
	let mut known_lines = Vec::new();
	for k in known().iter().filter(|k| k.property == prop) {
		let s = std::fs::read_to_string(format!("{}/{}", root(), k.file)).unwrap_or_default();
		std::env::set_var("SIM_KNOWN", field(&s, "known").unwrap_or(""));
		let (c, m, _) = run_choices(p, field(&s, "tier").unwrap_or("quick"), &un_csv(field(&s, "choices").unwrap_or("")));
		std::env::remove_var("SIM_KNOWN");
		if c == k.class {
			println!("KNOWN-FINDING: property={} {}", prop, k.what);
			known_lines.push(k.what.clone());
		} else if c != "ok" {
			// The same input now fails in some other way.
			println!("{}: {}", c, m);
			viol.push((format!("{}/{}", root(), k.file), m));
		}
	}
	// A few traces, and a check that they come out the same as before.
	let mut samples = Vec::new();
	for i in 0..3u32 {
		let (l, _) = output_of(&["samples", prop, tier, &vseed.to_string(), &i.to_string(), &(i + 1).to_string()]);
		let tr: Vec<String> = l.iter().filter_map(|l| l.strip_prefix("T ").map(|s| s.to_string())).take(60).collect();
		samples.push(format!("seed={} run={}: {}", vseed, i, tr.join(" || ").chars().take(6000).collect::<String>()));
	}
	let to = CHUNK.min(total);
	let (l, _) = output_of(&["chunk", prop, tier, &vseed.to_string(), "0", &to.to_string()]);
	let d = l.iter().find_map(|l| l.strip_prefix("D ").map(|s| s.to_string()));
	let repeat = match (d, t.digests.get(&0)) { (Some(a), Some(b)) => if a == *b { "identical" } else { "DIFFERENT" }, _ => "not compared" };

	let wall = start.elapsed().as_secs_f64();
	let zero: Vec<String> = t.faults.iter().filter(|(_, v)| **v == 0).map(|(k, _)| k.clone()).collect();
	let _ = zero;
	let ev = format!("{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"planned_runs\": {},\n    \"seeds_per_hour\": {},\n    \"simulated_ms\": {},\n    \"simulated_events\": {},\n    \"fault_counts\": {},\n    \"probe_counts\": {},\n    \"first_chunk_repeated\": {},\n    \"runs_skipped_after_crash\": {},\n    \"known_findings\": {},\n    \"real_components\": {},\n    \"stubbed_components\": {},\n    \"samples\": {}\n  }},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
		json_str(prop), json_str(tier), vseed, t.runs, t.states.len(), json_str(p.rule), total,
		(t.runs as f64 / explored_s.max(0.001) * 3600.0) as u64, t.ms, t.events, json_map(&t.faults), json_map(&t.probes), json_str(repeat),
		t.skipped_crashes, json_list(&known_lines),
		json_list(&p.real.iter().map(|s| s.to_string()).collect::<Vec<_>>()), json_list(&p.stub.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
		json_list(&samples), wall, viol.len());
	let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
	if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root(), prop), ev) { eprintln!("evidence: {}", e); }
	println!("{} {}: {} runs, {} distinct, {:.1} s, repeat {}", prop, tier, t.runs, t.states.len(), wall, repeat);
	for (path, _) in &viol { println!("VIOLATION property={} replay={}", prop, path); }
	if viol.is_empty() { 0 } else { 1 }
}

/// Runs the same seeds with different numbers of workers and in separate processes, and checks
/// that nothing observable differs.
fn selftest() -> i32 {
	let mut bad = 0;
	for p in ALL {
		let n = (p.quick / 4).clamp(200, 2000);
		let a = explore(p, "quick", 424242, n, 8);
		let b = explore(p, "quick", 424242, n, 3);
		let same = a.digests == b.digests && a.states == b.states && a.faults == b.faults && a.probes == b.probes && a.ms == b.ms;
		println!("{}: {} runs in {} chunks, {}", p.id, a.runs, a.digests.len(), if same { "identical" } else { "DIFFERENT" });
		if !same { bad = 1; }
	}
	bad
}

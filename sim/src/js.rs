//! The page's JavaScript, in a real JavaScript engine whose module, network and timers are
//! answered from here.

use crate::dns::*;
use crate::run::guard;
use crate::wasm_props::{parse_json, J};
use dnssec_prover_wasm as wasm;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::os::fd::AsRawFd;
use std::process::*;

pub struct Engine {
	child: Child,
	left: Vec<u8>,
	builders: HashMap<u64, wasm::WASMProofBuilder>,
	next: u64,
	/// Calls into the module since the last command.
	calls: u32,
}

#[derive(Debug, Clone)]
pub enum Event {
	Wait { what: String, id: u64, of: u64, url: String, accept: String, method: String },
	Done { n: u64, how: String, kind: String, value: String },
	Uncaught(String),
}
#[derive(Debug)]
pub enum Broken {
	/// The engine ended.
	Died,
	/// It used a lot of CPU time without coming to rest.
	Hung,
	/// A panic in the module.
	Panic(String),
	Odd(String),
}

fn text(h: &str) -> String { String::from_utf8_lossy(&unhex(h)).into_owned() }

impl Engine {
	pub fn start(program: &str) -> Result<Engine, Broken> {
		let root = std::env::var("SIM_ROOT").unwrap_or("/verif".into());
		let dir = format!("{}/sim/target/js", root);
		let mut c = Command::new("node");
		c.args(["--stack-size=900", "--max-old-space-size=512", &format!("{}/main.js", dir), &format!("{}/{}", dir, program)])
			.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
		// The engine reserves more address space than a worker may use.
		unsafe { c.pre_exec(|| {
			let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
			libc::getrlimit(libc::RLIMIT_AS, &mut l);
			l.rlim_cur = l.rlim_max;
			libc::setrlimit(libc::RLIMIT_AS, &l);
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			Ok(())
		}); }
		let child = c.spawn().map_err(|e| Broken::Odd(format!("node: {}", e)))?;
		let mut e = Engine { child, left: Vec::new(), builders: HashMap::new(), next: 1, calls: 0 };
		e.settle()?;
		Ok(e)
	}

	/// CPU time the engine has used, in clock ticks (10 ms).
	fn cpu(&self) -> u64 {
		let s = std::fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
		let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
		f.get(11).and_then(|t| t.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|t| t.parse::<u64>().ok()).unwrap_or(0)
	}

	fn line(&mut self) -> Result<J, Broken> {
		let start = self.cpu();
		loop {
			if let Some(i) = self.left.iter().position(|b| *b == b'\n') {
				let l: Vec<u8> = self.left.drain(..=i).collect();
				return parse_json(&String::from_utf8_lossy(&l)).map_err(Broken::Odd);
			}
			let out = self.child.stdout.as_mut().unwrap();
			let mut p = libc::pollfd { fd: out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
			let r = unsafe { libc::poll(&mut p, 1, 1000) };
			if r == 0 {
				if self.cpu() > start + 800 { return Err(Broken::Hung); }
				continue;
			}
			let mut b = [0; 65536];
			match out.read(&mut b) {
				Ok(0) | Err(_) => return Err(Broken::Died),
				Ok(n) => self.left.extend_from_slice(&b[..n]),
			}
		}
	}
	fn send(&mut self, s: &str) -> Result<(), Broken> {
		let i = self.child.stdin.as_mut().unwrap();
		i.write_all(s.as_bytes()).and_then(|_| i.write_all(b"\n")).map_err(|_| Broken::Died)
	}

	/// Sends a command and lets the page's code run until it waits for something.
	pub fn command(&mut self, s: &str) -> Result<Vec<Event>, Broken> {
		self.send(s)?;
		self.settle()
	}
	fn settle(&mut self) -> Result<Vec<Event>, Broken> {
		let mut r = Vec::new();
		self.calls = 0;
		loop {
			let j = self.line()?;
			let t = |k: &str| j.text(k).map(|s| s.to_string()).map_err(Broken::Odd);
			let n = |k: &str| j.num(k).map_err(Broken::Odd);
			match t("t")?.as_str() {
				"idle" => return Ok(r),
				"wait" => r.push(Event::Wait { what: t("what")?, id: n("id")?, of: n("of")?, url: text(&t("url")?), accept: text(&t("accept")?), method: t("method")? }),
				"done" => r.push(Event::Done { n: n("n")?, how: t("how")?, kind: t("kind")?, value: text(&t("v")?) }),
				"uncaught" => r.push(Event::Uncaught(text(&t("e")?))),
				"call" => {
					self.calls += 1;
					if self.calls > 2000 || r.len() > 2000 { return Err(Broken::Hung); }
					let a = self.answer(&t("fn")?, n("b")?, n("ty")? as u16, text(&t("s")?), unhex(&t("d")?));
					match a {
						Ok(a) => self.send(&a)?,
						Err(p) => { self.send("{\"panic\":true}")?; return Err(Broken::Panic(p)); },
					}
				},
				o => return Err(Broken::Odd(o.into())),
			}
		}
	}
	fn answer(&mut self, f: &str, b: u64, ty: u16, s: String, d: Vec<u8>) -> Result<String, String> {
		let opt = |d: Option<Vec<u8>>| match d { Some(d) => format!("{{\"d\":\"{}\"}}", hex(&d)), None => "{\"d\":null}".into() };
		Ok(match f {
			"init" => match guard(|| wasm::init_proof_builder(s, ty))? {
				None => "{\"b\":0}".into(),
				Some(w) => { let id = self.next; self.next += 1; self.builders.insert(id, w); format!("{{\"b\":{}}}", id) },
			},
			"process" => { if let Some(w) = self.builders.get_mut(&b) { guard(|| wasm::process_query_response(w, d))?; } "{}".into() },
			"next" => { let w = self.builders.get_mut(&b).ok_or("no such builder")?; opt(guard(|| wasm::get_next_query(w))?) },
			"proof" => { let w = self.builders.remove(&b).ok_or("no such builder")?; opt(guard(|| wasm::get_unverified_proof(w))?) },
			"verify" => { let t = guard(|| wasm::verify_byte_stream(d))?; format!("{{\"d\":\"{}\"}}", hex(t.as_bytes())) },
			"free" => { self.builders.remove(&b); "{}".into() },
			f => return Err(format!("no function {}", f)),
		})
	}
	/// Proof builders the page still holds.
	pub fn held(&self) -> usize { self.builders.len() }
}
impl Drop for Engine { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

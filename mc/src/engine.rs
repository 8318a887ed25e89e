//! Exhaustive stateless explorer.
//!
//! A harness body calls [`Cx::choose`] / [`Cx::deviate`] wherever the environment or the driver has a choice.
//! [`Runner::tree`] enumerates every choice sequence; [`Runner::sweep`] enumerates a finite index space.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Payload of a panic raised by an oracle of the harness.
pub struct Violation {
	pub msg: String,
	pub key: String,
}

/// Payload of a panic raised when the harness itself is broken.
pub struct EngineError(pub String);

#[macro_export]
macro_rules! vfail {
	($($a:tt)*) => { $crate::engine::fail(format!($($a)*)) };
}

#[macro_export]
macro_rules! vassert {
	($c:expr, $($a:tt)*) => { if !$c { $crate::engine::fail(format!($($a)*)) } };
}

#[macro_export]
macro_rules! veq {
	($a:expr, $b:expr, $($m:tt)*) => {{
		let (a, b) = (&$a, &$b);
		if !(*a == *b) { $crate::engine::fail(format!("{}: got {:02X?}, expected {:02X?}", format_args!($($m)*), a, b)) }
	}};
}

pub fn fail(mut msg: String) -> ! {
	if let Some((i, _)) = msg.char_indices().nth(4000) {
		msg.truncate(i);
		msg.push_str(" [...]");
	}
	std::panic::panic_any(Violation { msg, key: String::new() })
}

/// Fail with a key by which a known finding can be listed.
pub fn fail_key(key: &str, msg: String) -> ! {
	std::panic::panic_any(Violation { msg, key: key.into() })
}

pub fn engine_error(msg: String) -> ! {
	std::panic::panic_any(EngineError(msg))
}

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, _: &[u8]) {
		unreachable!()
	}
	fn write_u64(&mut self, x: u64) {
		self.0 = x
	}
}
pub type Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// Simple multiplicative hasher, deterministic over runs.
#[derive(Clone)]
pub struct Fx(pub u64);
impl Hasher for Fx {
	fn finish(&self) -> u64 {
		let mut x = self.0;
		x ^= x >> 32;
		x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
		x ^= x >> 32;
		x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
		x ^ (x >> 32)
	}
	fn write(&mut self, b: &[u8]) {
		for c in b.chunks(8) {
			let mut v = [0u8; 8];
			v[..c.len()].copy_from_slice(c);
			self.write_u64(u64::from_le_bytes(v));
		}
		self.write_u64(b.len() as u64 ^ 0x55);
	}
	fn write_u8(&mut self, x: u8) {
		self.write_u64(x as u64)
	}
	fn write_u16(&mut self, x: u16) {
		self.write_u64(x as u64)
	}
	fn write_u32(&mut self, x: u32) {
		self.write_u64(x as u64)
	}
	fn write_u64(&mut self, x: u64) {
		self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95).wrapping_add(0x9E37_79B9);
	}
	fn write_usize(&mut self, x: usize) {
		self.write_u64(x as u64)
	}
}
pub fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
	let mut h = Fx(1);
	x.hash(&mut h);
	h.finish()
}

/// The choices of one execution.
#[derive(Clone)]
pub struct Cx(Rc<Inner>);

struct Inner {
	prefix: Vec<(u32, u32)>,
	trace: RefCell<Vec<(u32, u32)>>,
	devs: Cell<usize>,
	bound: usize,
	obs: Cell<u64>,
	outcome: Cell<u64>,
	states: RefCell<Vec<u64>>,
	steps: Cell<u64>,
	verbose: bool,
	want_sample: bool,
	sample: RefCell<Option<String>>,
	trail: RefCell<String>,
}

impl Cx {
	fn new(prefix: Vec<(u32, u32)>, bound: usize, seed: u64, verbose: bool, want_sample: bool) -> Self {
		Cx(Rc::new(Inner {
			prefix,
			trace: RefCell::new(Vec::new()),
			devs: Cell::new(0),
			bound,
			obs: Cell::new(seed),
			outcome: Cell::new(seed),
			states: RefCell::new(Vec::new()),
			steps: Cell::new(0),
			verbose,
			want_sample,
			sample: RefCell::new(None),
			trail: RefCell::new(String::new()),
		}))
	}

	/// Choose one of `n` alternatives.
	pub fn choose(&self, n: usize) -> usize {
		if n == 0 {
			engine_error("choose(0)".into())
		}
		self.state();
		let mut trace = self.0.trace.borrow_mut();
		let pos = trace.len();
		let c = match self.0.prefix.get(pos) {
			Some(&(c, m)) => {
				if m != u32::MAX && m != n as u32 {
					drop(trace);
					engine_error(format!("replay diverged at choice {pos}: {m} alternatives recorded, now {n}"));
				}
				if c as usize >= n {
					drop(trace);
					engine_error(format!("replay: choice {c} out of range {n} at {pos}"));
				}
				c
			},
			None => 0,
		};
		trace.push((c, n as u32));
		drop(trace);
		self.obs(&(c, n as u32));
		self.step();
		c as usize
	}

	/// Choose one of `n` alternatives, where any but the first counts as a deviation from the default.
	pub fn deviate(&self, n: usize) -> usize {
		if n == 0 {
			engine_error("deviate(0)".into())
		}
		let n = if self.0.devs.get() >= self.0.bound { 1 } else { n };
		if n == 1 {
			return 0;
		}
		let c = self.choose(n);
		if c != 0 {
			self.0.devs.set(self.0.devs.get() + 1);
		}
		c
	}

	pub fn pick<'a, T>(&self, items: &'a [T]) -> &'a T {
		&items[self.choose(items.len())]
	}

	pub fn flag(&self) -> bool {
		self.choose(2) == 1
	}

	/// Mix something observable into the identity of the current state.
	pub fn obs<T: Hash + ?Sized>(&self, x: &T) {
		let mut h = Fx(self.0.obs.get());
		x.hash(&mut h);
		self.0.obs.set(h.finish());
	}

	/// Replace the identity of the current state (canonical state of a reference model).
	pub fn set_state<T: Hash + ?Sized>(&self, x: &T) {
		let mut h = Fx(77);
		x.hash(&mut h);
		self.0.obs.set(h.finish());
	}

	/// Mix something into the outcome of this execution (used to count distinct outcomes).
	pub fn outcome<T: Hash + ?Sized>(&self, x: &T) {
		let mut h = Fx(self.0.outcome.get());
		x.hash(&mut h);
		self.0.outcome.set(h.finish());
		self.obs(x);
	}

	/// Record the current state as visited.
	pub fn state(&self) {
		self.0.states.borrow_mut().push(self.0.obs.get());
	}

	/// Count one transition (operation or environment step executed on the implementation).
	pub fn step(&self) {
		self.0.steps.set(self.0.steps.get() + 1);
	}

	pub fn log(&self, f: impl FnOnce() -> String) {
		if self.0.verbose {
			println!("  {}", f());
		}
	}
	pub fn verbose(&self) -> bool {
		self.0.verbose
	}

	/// Record an event for the default sample of this execution.
	pub fn trail(&self, f: impl FnOnce() -> String) {
		if self.0.want_sample {
			let mut t = self.0.trail.borrow_mut();
			if t.len() < 700 {
				if !t.is_empty() {
					t.push_str("; ");
				}
				t.push_str(&f());
			}
		}
	}

	/// Describe this execution, if the engine wants a sample of it.
	pub fn sample(&self, f: impl FnOnce() -> String) {
		if self.0.want_sample || self.0.verbose {
			let s = f();
			if self.0.verbose {
				println!("  sample: {s}");
			}
			*self.0.sample.borrow_mut() = Some(s);
		}
	}

	/// Run code that is allowed to panic; returns the panic message if it did.
	pub fn catch<R>(&self, f: impl FnOnce() -> R) -> Result<R, String> {
		match std::panic::catch_unwind(AssertUnwindSafe(f)) {
			Ok(x) => Ok(x),
			Err(p) => {
				if p.is::<Violation>() || p.is::<EngineError>() {
					std::panic::resume_unwind(p)
				}
				Err(panic_text(&p))
			},
		}
	}
}

thread_local! {
	static PANIC_AT: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
	static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// The worker that runs the current execution; see `adopt`.
pub fn worker() -> usize {
	WORKER.get()
}
/// Make this thread part of the execution of a worker.
pub fn adopt(worker: usize) {
	WORKER.set(worker);
	QUIET.set(true);
}

fn panic_text(p: &Box<dyn Any + Send>) -> String {
	if let Some(s) = p.downcast_ref::<&str>() {
		s.to_string()
	} else if let Some(s) = p.downcast_ref::<String>() {
		s.clone()
	} else {
		"panic".into()
	}
}

enum Verdict {
	Ok,
	Violation { msg: String, key: String },
	Engine(String),
}

fn run_body(cx: &Cx, f: &(dyn Fn(&Cx) + Sync)) -> Verdict {
	QUIET.set(true);
	let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(cx)));
	QUIET.set(false);
	match r {
		Ok(()) => Verdict::Ok,
		Err(p) => {
			if let Some(v) = p.downcast_ref::<Violation>() {
				return Verdict::Violation { msg: v.msg.clone(), key: v.key.clone() };
			}
			if let Some(v) = p.downcast_ref::<EngineError>() {
				return Verdict::Engine(v.0.clone());
			}
			let (file, at) = PANIC_AT.with_borrow_mut(|x| x.take()).unwrap_or_default();
			let text = panic_text(&p);
			// Files of the harness crate are compiled with relative paths, those of the crate under test with absolute ones.
			if file.starts_with("src/") {
				Verdict::Engine(format!("harness panicked at {at}: {text}"))
			} else {
				Verdict::Violation {
					msg: format!("implementation panicked at {at}: {text}"),
					key: "panic".into(),
				}
			}
		},
	}
}

#[derive(Clone)]
struct Found {
	scenario: String,
	prefix: Vec<(u32, u32)>,
	bound: usize,
	index: Option<u64>,
	msg: String,
	key: String,
}

#[derive(Default)]
struct ScenarioStats {
	name: String,
	kind: &'static str,
	executions: u64,
	transitions: u64,
	states: u64,
	outcomes: u64,
	bound: Option<usize>,
	capped: bool,
	wall: f64,
}

/// The worker (counted from 1) whose execution crashed the process: an abort, an illegal memory access, an exhausted stack.
static CRASHED: AtomicUsize = AtomicUsize::new(0);
static CRASH_SIGNAL: AtomicUsize = AtomicUsize::new(0);
/// What to print if a violation that is being confirmed crashes the process.
static PENDING: AtomicPtr<String> = AtomicPtr::new(std::ptr::null_mut());
thread_local! {
	static WORKER: Cell<usize> = const { Cell::new(0) };
}

extern "C" fn on_crash(signal: libc::c_int) {
	let w = WORKER.try_with(|w| w.get()).unwrap_or(0);
	if w != 0 {
		CRASH_SIGNAL.store(signal as usize, SeqCst);
		CRASHED.store(w, SeqCst);
		// The watchdog reports it.
		loop {
			unsafe { libc::pause() };
		}
	}
	unsafe {
		let p = PENDING.load(SeqCst);
		if !p.is_null() {
			let text: &String = &*p;
			libc::write(1, text.as_ptr().cast(), text.len());
			libc::_exit(1);
		}
		libc::signal(signal, libc::SIG_DFL);
		libc::raise(signal);
	}
}

fn catch_crashes() {
	unsafe {
		let mut a: libc::sigaction = std::mem::zeroed();
		a.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
		a.sa_flags = libc::SA_ONSTACK;
		for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
			libc::sigaction(s, &a, std::ptr::null_mut());
		}
	}
}

struct Slot {
	started: AtomicU64,
	work: Mutex<(Vec<(u32, u32)>, Option<u64>)>,
}

pub struct Runner {
	pub id: String,
	pub tier: String,
	seed: u64,
	start: Instant,
	threads: usize,
	replay: Option<(String, Vec<u32>, Option<u64>)>,
	replay_hit: bool,
	only: Option<String>,
	stats: Vec<ScenarioStats>,
	samples: Vec<(String, String)>,
	known: Vec<(String, String)>,
	known_hit: Vec<String>,
	assumptions: Vec<String>,
	time_cap: Duration,
	hang_after: Duration,
	extra: Vec<(String, String)>,
}

fn verif_dir() -> String {
	std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Runner {
	pub fn new(id: &str) -> Self {
		crate::refmodel::self_check();
		std::panic::set_hook(Box::new(|info| {
			let (file, at) = match info.location() {
				Some(l) => (l.file().to_string(), format!("{}:{}", l.file(), l.line())),
				None => Default::default(),
			};
			let text = info.payload_as_str().unwrap_or("");
			if text.contains("cannot unwind") || text.contains("unsafe precondition") || text.contains("destructor during cleanup") {
				eprintln!("the process aborts: {text} at {at}");
				if std::env::args().any(|x| x == "--replay") {
					eprintln!("{}", std::backtrace::Backtrace::force_capture());
				}
			}
			if QUIET.get() {
				PANIC_AT.with_borrow_mut(|x| *x = Some((file, at)));
			} else {
				eprintln!("engine panic at {at}: {info}");
			}
		}));
		catch_crashes();
		let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
		let tier = if tier == "thorough" { tier } else { "quick".into() };
		let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
		let args: Vec<String> = std::env::args().collect();
		let mut replay = None;
		let mut only = None;
		let mut i = 1;
		while i < args.len() {
			if args[i] == "--replay" {
				let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
				let mut name = String::new();
				let mut choices = vec![];
				let mut index = None;
				for l in text.lines() {
					if let Some(x) = l.strip_prefix("scenario: ") {
						name = x.into();
					} else if let Some(x) = l.strip_prefix("choices: ") {
						choices = x.split_whitespace().map(|x| x.parse().unwrap()).collect();
					} else if let Some(x) = l.strip_prefix("index: ") {
						index = Some(x.trim().parse().unwrap());
					}
				}
				replay = Some((name, choices, index));
				i += 1;
			} else if args[i] == "--only" {
				only = Some(args[i + 1].clone());
				i += 1;
			}
			i += 1;
		}
		let mut known = vec![];
		if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
			for l in t.lines() {
				// known: property=C07 key=<key> <what fails>
				if let Some(rest) = l.strip_prefix("known: ") {
					let mut it = rest.split_whitespace();
					let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("");
					let k = it.next().and_then(|x| x.strip_prefix("key=")).unwrap_or("");
					if p == id && !k.is_empty() {
						known.push((k.to_string(), rest.to_string()));
					}
				}
			}
		}
		#[cfg(feature = "log")]
		install_logger();
		let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
		let time_cap = Duration::from_secs(if tier == "thorough" { 3600 } else { 600 });
		Runner {
			id: id.into(),
			tier,
			seed,
			start: Instant::now(),
			threads,
			replay,
			replay_hit: false,
			only,
			stats: vec![],
			samples: vec![],
			known,
			known_hit: vec![],
			assumptions: vec![],
			time_cap,
			hang_after: Duration::from_secs(30),
			extra: vec![],
		}
	}

	pub fn thorough(&self) -> bool {
		self.tier == "thorough"
	}

	/// Pick a bound by tier.
	pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
		if self.thorough() {
			thorough
		} else {
			quick
		}
	}

	pub fn threads(&mut self, n: usize) {
		self.threads = n.min(self.threads);
	}
	pub fn set_threads(&mut self, n: usize) {
		self.threads = n;
	}

	pub fn assume(&mut self, s: &str) {
		self.assumptions.push(s.into());
	}

	pub fn note(&mut self, key: &str, value: String) {
		self.extra.push((key.into(), value));
	}

	/// Explore every choice sequence of `f` with at most `bound` deviations.
	pub fn tree(&mut self, name: &str, bound: Option<usize>, f: impl Fn(&Cx) + Sync) {
		self.go(name, bound, None, &f)
	}

	/// Run `f` for every index in `0..total`.
	pub fn sweep(&mut self, name: &str, total: u64, f: impl Fn(u64, &Cx) + Sync) {
		let cur = |cx: &Cx| {
			let i = CUR_INDEX.get();
			cx.obs(&i);
			f(i, cx)
		};
		self.go(name, None, Some(total), &cur)
	}

	fn go(&mut self, name: &str, bound: Option<usize>, total: Option<u64>, f: &(dyn Fn(&Cx) + Sync)) {
		let b = bound.unwrap_or(usize::MAX);
		if let Some((rname, choices, index)) = self.replay.clone() {
			if rname != name {
				return;
			}
			self.replay_hit = true;
			println!("replaying scenario {name}");
			let prefix: Vec<(u32, u32)> = choices.iter().map(|&c| (c, u32::MAX)).collect();
			if let Some(i) = index {
				CUR_INDEX.set(i);
			}
			let cx = Cx::new(prefix, b, hash_of(name), true, true);
			let pending = format!("the execution crashed the process\nVIOLATION property={} replay={}\n", self.id, std::env::args().nth(2).unwrap_or_default());
			PENDING.store(Box::into_raw(Box::new(pending)), SeqCst);
			match run_body(&cx, f) {
				Verdict::Ok => println!("no violation on replay"),
				Verdict::Violation { msg, .. } => {
					println!("{msg}");
					println!("VIOLATION property={} replay={}", self.id, std::env::args().nth(2).unwrap_or_default());
					std::process::exit(1);
				},
				Verdict::Engine(e) => {
					eprintln!("ENGINE ERROR: {e}");
					std::process::exit(2);
				},
			}
			return;
		}
		if let Some(o) = &self.only {
			if !name.contains(o.as_str()) {
				return;
			}
		}

		let t0 = Instant::now();
		let seed = hash_of(name);
		let n_threads = self.threads;
		let slots: Vec<Slot> = (0..n_threads).map(|_| Slot { started: AtomicU64::new(0), work: Mutex::new((vec![], None)) }).collect();
		let stop = AtomicBool::new(false);
		let capped = AtomicBool::new(false);
		let found: Mutex<Option<Found>> = Mutex::new(None);
		let engine: Mutex<Option<String>> = Mutex::new(None);
		let global: Mutex<Vec<Vec<(u32, u32)>>> = Mutex::new(vec![vec![]]);
		let active = AtomicUsize::new(0);
		let hungry = AtomicUsize::new(0);
		let next_index = AtomicU64::new(0);
		let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
		let known_hits: Mutex<Vec<String>> = Mutex::new(vec![]);
		let totals: Mutex<(u64, u64, Set, Set)> = Mutex::new((0, 0, Set::default(), Set::default()));
		let epoch = Instant::now();
		let deadline = self.start + self.time_cap;
		let done = AtomicBool::new(false);
		let known = &self.known;

		std::thread::scope(|s| {
			let mut handles = vec![];
			for w in 0..n_threads {
				let (slots, stop, capped, found, engine, global, active, hungry, next_index, samples, totals, known_hits) =
					(&slots, &stop, &capped, &found, &engine, &global, &active, &hungry, &next_index, &samples, &totals, &known_hits);
				handles.push(s.spawn(move || {
					WORKER.set(w + 1);
					let mut execs = 0u64;
					let mut trans = 0u64;
					let mut states = Set::default();
					let mut outcomes = Set::default();
					let mut run = |prefix: Vec<(u32, u32)>, index: Option<u64>| -> Option<Vec<(u32, u32)>> {
						{
							let mut wk = slots[w].work.lock().unwrap();
							wk.0.clear();
							wk.0.extend_from_slice(&prefix);
							wk.1 = index;
						}
						slots[w].started.store(epoch.elapsed().as_nanos() as u64 + 1, SeqCst);
						if let Some(i) = index {
							CUR_INDEX.set(i);
						}
						let want = execs == 0 || (execs & (execs - 1) == 0 && w == 0);
						let plen = prefix.len();
						let cx = Cx::new(prefix, b, seed, false, want);
						let v = run_body(&cx, f);
						slots[w].started.store(0, SeqCst);
						execs += 1;
						// States before the branching point were recorded by the parent.
						trans += cx.0.steps.get().saturating_sub(plen as u64).max(1);
						for &h in cx.0.states.borrow().iter().skip(plen) {
							states.insert(h);
						}
						states.insert(cx.0.obs.get());
						outcomes.insert(cx.0.outcome.get());
						let own = cx.0.sample.borrow_mut().take();
						let default = || {
							let choices: Vec<u32> = cx.0.trace.borrow().iter().map(|x| x.0).collect();
							let case = index.map_or(format!("choices {choices:?}"), |i| format!("index {i}"));
							format!("{case}: {}", cx.0.trail.borrow())
						};
						if let Some(sm) = own.or_else(|| want.then(default)) {
							let mut g = samples.lock().unwrap();
							if g.len() < 6 && !g.contains(&sm) {
								g.push(sm);
							}
						}
						let trace = cx.0.trace.borrow().clone();
						match v {
							Verdict::Ok => {},
							Verdict::Violation { msg, key } => {
								if let Some((_, line)) = known.iter().find(|(k, _)| !key.is_empty() && *k == key) {
									let mut g = known_hits.lock().unwrap();
									if !g.contains(line) {
										g.push(line.clone());
									}
								} else {
									let mut g = found.lock().unwrap();
									if g.is_none() {
										*g = Some(Found { scenario: String::new(), prefix: trace.clone(), bound: b, index, msg, key });
									}
									stop.store(true, SeqCst);
								}
							},
							Verdict::Engine(e) => {
								*engine.lock().unwrap() = Some(format!("{e} (prefix {:?}, {} choices, index {index:?})", &trace[..trace.len().min(60)], trace.len()));
								stop.store(true, SeqCst);
							},
						}
						Some(trace)
					};

					if let Some(total) = total {
						let chunk = (total / (n_threads as u64 * 16)).clamp(1, 4096);
						'o: loop {
							let i0 = next_index.fetch_add(chunk, SeqCst);
							if i0 >= total {
								break;
							}
							for i in i0..(i0 + chunk).min(total) {
								if stop.load(Relaxed) {
									break 'o;
								}
								if i & 255 == 0 && Instant::now() > deadline {
									capped.store(true, SeqCst);
									break 'o;
								}
								run(vec![], Some(i));
							}
						}
					} else {
						let mut local: Vec<Vec<(u32, u32)>> = vec![];
						let mut count = 0u64;
						loop {
							if stop.load(Relaxed) {
								break;
							}
							let item = match local.pop() {
								Some(x) => x,
								None => {
									hungry.fetch_add(1, SeqCst);
									let got = loop {
										if stop.load(Relaxed) {
											break None;
										}
										let mut g = global.lock().unwrap();
										if let Some(x) = g.pop() {
											active.fetch_add(1, SeqCst);
											break Some(x);
										}
										if active.load(SeqCst) == 0 {
											break None;
										}
										drop(g);
										std::thread::sleep(Duration::from_micros(50));
									};
									hungry.fetch_sub(1, SeqCst);
									match got {
										Some(x) => x,
										None => break,
									}
								},
							};
							count += 1;
							if count & 255 == 0 && Instant::now() > deadline {
								capped.store(true, SeqCst);
								stop.store(true, SeqCst);
								break;
							}
							let plen = item.len();
							if let Some(trace) = run(item, None) {
								for i in (plen..trace.len()).rev() {
									for alt in (1..trace[i].1).rev() {
										let mut p = Vec::with_capacity(i + 1);
										p.extend_from_slice(&trace[..i]);
										p.push((alt, trace[i].1));
										local.push(p);
									}
								}
							}
							if hungry.load(Relaxed) > 0 && local.len() > 1 {
								let k = local.len() / 2;
								let give: Vec<_> = local.drain(..k).collect();
								global.lock().unwrap().extend(give);
							}
							if local.is_empty() {
								let _g = global.lock().unwrap();
								active.fetch_sub(1, SeqCst);
							}
						}
					}
					let mut t = totals.lock().unwrap();
					t.0 += execs;
					t.1 += trans;
					t.2.extend(states);
					t.3.extend(outcomes);
				}));
			}
			// Watchdog.
			let (slots, done, stop) = (&slots, &done, &stop);
			let hang = self.hang_after;
			let (id, tier) = (self.id.clone(), self.tier.clone());
			let (nm, seedv, start) = (name.to_string(), self.seed, self.start);
			s.spawn(move || {
				while !done.load(SeqCst) {
					std::thread::sleep(Duration::from_millis(20));
					let report = |wk: &(Vec<(u32, u32)>, Option<u64>), msg: String, key: &str| -> ! {
						let f = Found { scenario: nm.clone(), prefix: wk.0.clone(), bound: b, index: wk.1, msg, key: key.into() };
						let path = write_replay(&id, &f);
						println!("{}: {}", f.scenario, f.msg);
						write_hang_evidence(&id, &tier, seedv, start, &f);
						// Other threads may be writing to stderr.
						println!("\nVIOLATION property={id} replay={path}");
						std::process::exit(1);
					};
					let crashed = CRASHED.load(SeqCst);
					if crashed != 0 {
						let wk = slots[crashed - 1].work.lock().unwrap();
						report(&wk, format!("an execution crashed the whole process with signal {}", CRASH_SIGNAL.load(SeqCst)), "crash");
					}
					for sl in slots {
						let st = sl.started.load(SeqCst);
						let age = epoch.elapsed().saturating_sub(Duration::from_nanos(st));
						// An execution that takes seconds and gigabytes does not end either (they take milliseconds).
						if st != 0 && (age > hang || age > hang.min(Duration::from_secs(3)) && resident_mb() > 6000) {
							let wk = sl.work.lock().unwrap();
							report(&wk, format!("an execution did not finish within {hang:?}: the operation hangs"), "hang");
						}
					}
					if stop.load(SeqCst) && slots.iter().all(|x| x.started.load(SeqCst) == 0) {
						break;
					}
				}
			});
			for h in handles {
				let _ = h.join();
			}
			done.store(true, SeqCst);
		});

		if let Some(e) = engine.into_inner().unwrap() {
			eprintln!("ENGINE ERROR in {name}: {e}");
			std::process::exit(2);
		}
		let t = totals.into_inner().unwrap();
		let st = ScenarioStats {
			name: name.into(),
			kind: if total.is_some() { "sweep" } else { "tree" },
			executions: t.0,
			transitions: t.1,
			states: t.2.len() as u64,
			outcomes: t.3.len() as u64,
			bound,
			capped: capped.load(SeqCst),
			wall: t0.elapsed().as_secs_f64(),
		};
		println!(
			"{:<44} {:>10} executions {:>11} transitions {:>10} states {:>9} outcomes {:>6.2}s{}",
			st.name,
			st.executions,
			st.transitions,
			st.states,
			st.outcomes,
			st.wall,
			if st.capped { " CAPPED" } else { "" }
		);
		self.stats.push(st);
		for s in samples.into_inner().unwrap() {
			self.samples.push((name.into(), s));
		}
		for k in known_hits.into_inner().unwrap() {
			if !self.known_hit.contains(&k) {
				self.known_hit.push(k);
			}
		}
		if let Some(mut v) = found.into_inner().unwrap() {
			v.scenario = name.into();
			// If that crashes the process, this is what is reported.
			let pending = format!("{}: {}\nVIOLATION property={} replay={}\n", v.scenario, v.msg, self.id, write_replay(&self.id, &v));
			write_hang_evidence(&self.id, &self.tier, self.seed, self.start, &v);
			PENDING.store(Box::into_raw(Box::new(pending)), SeqCst);
			// Run it again: the same choices must fail again.
			let again = |prefix: Vec<(u32, u32)>| {
				if let Some(i) = v.index {
					CUR_INDEX.set(i);
				}
				let cx = Cx::new(prefix, v.bound, seed, false, false);
				let r = run_body(&cx, f);
				let t = cx.0.trace.borrow().clone();
				(r, t)
			};
			match again(v.prefix.clone()).0 {
				Verdict::Violation { msg, .. } => v.msg = msg,
				_ => {
					eprintln!("ENGINE ERROR in {name}: violation did not reproduce: {} ({:?} {:?})", v.msg, v.prefix, v.index);
					std::process::exit(2);
				},
			}
			// Greedy minimisation: replace choices by the default one while it still fails.
			let mut best = v.prefix.clone();
			let mut i = best.len();
			let t1 = Instant::now();
			while i > 0 && t1.elapsed() < Duration::from_secs(5) {
				i -= 1;
				if i >= best.len() || best[i].0 == 0 {
					continue;
				}
				let mut p: Vec<(u32, u32)> = best[..i].to_vec();
				p.push((0, best[i].1));
				for tail in [best[i + 1..].iter().map(|x| (x.0, u32::MAX)).collect::<Vec<_>>(), vec![]] {
					let mut q = p.clone();
					q.extend(tail);
					if let (Verdict::Violation { msg, .. }, t) = again(q) {
						v.msg = msg;
						best = t;
						break;
					}
				}
			}
			v.prefix = best;
			let path = write_replay(&self.id, &v);
			println!("{}: {}", v.scenario, v.msg);
			self.write_evidence(1);
			println!("VIOLATION property={} replay={}", self.id, path);
			std::process::exit(1);
		}
	}

	pub fn finish(mut self) -> ! {
		if self.replay.is_some() {
			if !self.replay_hit {
				eprintln!("ENGINE ERROR: no such scenario");
				std::process::exit(2);
			}
			std::process::exit(0);
		}
		for k in &self.known_hit {
			println!("KNOWN-FINDING: {k}");
		}
		let capped: Vec<_> = self.stats.iter().filter(|x| x.capped).map(|x| x.name.clone()).collect();
		if !capped.is_empty() {
			self.assumptions.push(format!("time cap hit in: {}", capped.join(", ")));
		}
		self.write_evidence(0);
		let e: u64 = self.stats.iter().map(|x| x.executions).sum();
		println!("{}: held on {} executions in {:.1}s", self.id, e, self.start.elapsed().as_secs_f64());
		std::process::exit(0);
	}

	fn write_evidence(&self, violations: u32) {
		let sum = |f: fn(&ScenarioStats) -> u64| self.stats.iter().map(f).sum::<u64>();
		let mut o = String::new();
		o.push_str("{\n");
		o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js(&self.id), js(&self.tier), self.seed));
		o.push_str(" \"coverage\": {\n");
		o.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n", sum(|x| x.states), sum(|x| x.transitions)));
		o.push_str(&format!("  \"traces_validated_against_impl\": {},\n", sum(|x| x.executions)));
		o.push_str(&format!("  \"distinct_outcomes\": {},\n", sum(|x| x.outcomes)));
		o.push_str(&format!("  \"exhaustive\": {},\n", self.stats.iter().all(|x| !x.capped) && violations == 0 && self.only.is_none()));
		o.push_str("  \"rule\": \"every execution runs the real code to completion under one complete choice sequence (or one index of a finite product) and is compared with the reference model; states = distinct hashes of (scenario, choices and observations so far) at choice points and ends of executions; transitions = environment or driver steps not already counted for the parent execution\",\n");
		o.push_str("  \"scenarios\": [\n");
		for (i, s) in self.stats.iter().enumerate() {
			o.push_str(&format!(
				"   {{\"name\": {}, \"kind\": \"{}\", \"executions\": {}, \"transitions\": {}, \"states\": {}, \"distinct_outcomes\": {}, \"deviation_bound\": {}, \"capped\": {}, \"wall_s\": {:.3}}}{}\n",
				js(&s.name), s.kind, s.executions, s.transitions, s.states, s.outcomes,
				s.bound.map(|x| x.to_string()).unwrap_or("null".into()), s.capped, s.wall,
				if i + 1 < self.stats.len() { "," } else { "" }
			));
		}
		o.push_str("  ],\n");
		for (k, v) in &self.extra {
			o.push_str(&format!("  {}: {},\n", js(k), js(v)));
		}
		o.push_str("  \"samples\": [");
		let samples: Vec<String> = self.samples.iter().map(|(n, s)| format!("\n   {}", js(&format!("[{n}] {s}")))).collect();
		o.push_str(&samples.join(","));
		o.push_str("]\n },\n");
		o.push_str(&format!(" \"assumptions\": [{}],\n", self.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
		o.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), violations));
		put_evidence(&self.id, &o);
	}
}

fn put_evidence(id: &str, text: &str) {
	let dir = format!("{}/evidence", verif_dir());
	let _ = std::fs::create_dir_all(&dir);
	if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), text) {
		eprintln!("ENGINE ERROR: can not write evidence: {e}");
		std::process::exit(2);
	}
}

/// The memory this process holds, in MB.
fn resident_mb() -> u64 {
	let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
	s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
}

fn write_hang_evidence(id: &str, tier: &str, seed: u64, start: Instant, f: &Found) {
	put_evidence(
		id,
		&format!(
			"{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1, \"samples\": [{}]}}, \"wall_s\": {:.3}, \"violations\": 1}}\n",
			js(id), js(tier), js(&format!("{}: {}", f.scenario, f.msg)), start.elapsed().as_secs_f64()
		),
	);
}

fn write_replay(id: &str, f: &Found) -> String {
	let dir = format!("{}/replays", verif_dir());
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/{id}.replay");
	let mut s = format!("property: {id}\nscenario: {}\n", f.scenario);
	if let Some(i) = f.index {
		s.push_str(&format!("index: {i}\n"));
	}
	s.push_str(&format!("choices: {}\n", f.prefix.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(" ")));
	s.push_str(&format!("what: {}\nkey: {}\n", f.msg.replace('\n', " "), f.key));
	let _ = std::fs::write(&path, s);
	path
}

pub fn js(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

thread_local! {
	static CUR_INDEX: Cell<u64> = const { Cell::new(0) };
}

/// Mixed radix decoding of a sweep index.
pub struct Ix(pub u64);
impl Ix {
	pub fn take(&mut self, n: usize) -> usize {
		let r = self.0 % n as u64;
		self.0 /= n as u64;
		r as usize
	}
	pub fn of<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		let i = self.take(items.len());
		&items[i]
	}
}

#[cfg(feature = "log")]
thread_local! {
	static RECORDS: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) };
}
/// Run `f` and return what it logged.
#[cfg(feature = "log")]
pub fn logged<R>(f: impl FnOnce() -> R) -> (R, Vec<String>) {
	RECORDS.with(|l| *l.borrow_mut() = Some(vec![]));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
	let l = RECORDS.with(|l| l.borrow_mut().take()).unwrap_or_default();
	(r.unwrap_or_else(|e| std::panic::resume_unwind(e)), l)
}
#[cfg(feature = "log")]
fn install_logger() {
	// Formats every message, so that the log arguments are evaluated like with a real logger.
	struct L;
	impl log::Log for L {
		fn enabled(&self, _: &log::Metadata) -> bool {
			true
		}
		fn log(&self, r: &log::Record) {
			let s = format!("{}", r.args());
			std::hint::black_box(s.len());
			RECORDS.with(|l| {
				if let Some(l) = &mut *l.borrow_mut() {
					l.push(s);
				}
			});
		}
		fn flush(&self) {}
	}
	let _ = log::set_logger(Box::leak(Box::new(L)));
	log::set_max_level(log::LevelFilter::Trace);
}

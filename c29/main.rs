//! C29: each static buffer is handed out at most once.
//!
//! With `--cfg shim`, all interleavings of the atomic operations of several threads are explored.
//! Without it (the library no longer builds on the substituted `core`), threads race freely on fresh occurrences.
#![allow(dead_code)]
use dynamixel2::static_buffer;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

type Buf = &'static mut [u8];
type Occ = fn() -> Buf;

/// Payload of a panic that gives up an execution.
struct GiveUp;

// ---------------------------------------------------------------- results

struct Report {
	start: Instant,
	thorough: bool,
	scenarios: Vec<(String, u64, u64, u64)>,
	samples: Vec<String>,
	assumptions: Vec<String>,
	replay: Option<(String, Vec<usize>)>,
	complete: bool,
}
impl Report {
	fn fail(&self, scenario: &str, choices: &[usize], msg: String) -> ! {
		println!("{scenario}: {msg}");
		let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
		let path = format!("{dir}/replays/C29.replay");
		let _ = std::fs::write(&path, format!("scenario {scenario}\nchoices {choices:?}\n# {msg}\n"));
		self.evidence(Some(&msg));
		println!("VIOLATION property=C29 replay={path}");
		std::process::exit(1)
	}
	fn done(&mut self, name: &str, execs: u64, steps: u64, states: u64) {
		println!("{name:<60} {execs:>9} executions {steps:>10} transitions {states:>9} states");
		self.scenarios.push((name.into(), execs, steps, states));
	}
	fn evidence(&self, violation: Option<&str>) {
		let js = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
		let sum = |f: fn(&(String, u64, u64, u64)) -> u64| self.scenarios.iter().map(f).sum::<u64>();
		let sc: Vec<String> = self
			.scenarios
			.iter()
			.map(|s| format!("{{\"name\": {}, \"executions\": {}, \"transitions\": {}, \"states\": {}}}", js(&s.0), s.1, s.2, s.3))
			.collect();
		let list = |v: &[String]| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
		let mut samples = self.samples.clone();
		if let Some(v) = violation {
			samples.push(format!("violation: {v}"));
		}
		let text = format!(
			"{{\n \"property\": \"C29\", \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {},\n  \"rule\": \"every execution runs the real macro under one complete schedule of its atomic operations and of the uses of the buffers; states = distinct schedule prefixes; transitions = scheduled steps\",\n  \"scenarios\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
			if self.thorough { "thorough" } else { "quick" },
			std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1),
			sum(|s| s.3), sum(|s| s.2), sum(|s| s.1), cfg!(shim) && self.complete,
			sc.join(", "), list(&samples), list(&self.assumptions),
			self.start.elapsed().as_secs_f64(), violation.is_some() as u8
		);
		let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
		let _ = std::fs::write(format!("{dir}/evidence/C29.json"), text);
	}
}

// ---------------------------------------------------------------- scheduler

#[derive(Default)]
struct Sched {
	prefix: Vec<usize>,
	trace: Vec<(usize, usize)>,
	ready: Vec<bool>,
	current: usize,
	run_length: u32,
	spurious: bool,
	steps: u64,
	pruned: bool,
}
static SCHED: Mutex<Sched> = Mutex::new(Sched { prefix: vec![], trace: vec![], ready: vec![], current: usize::MAX, run_length: 0, spurious: false, steps: 0, pruned: false });
static WAKE: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

impl Sched {
	/// Choose who runs next. A thread that spins has to let the others run.
	fn pick(&mut self, me: usize) {
		let mut c: Vec<usize> = (0..self.ready.len()).filter(|t| self.ready[*t]).collect();
		if c.is_empty() {
			self.current = usize::MAX;
			return;
		}
		if self.run_length > 40 && c.len() > 1 {
			c.retain(|t| *t != me);
		}
		// The running thread first: the first schedule has no preemptions.
		if let Some(p) = c.iter().position(|t| *t == me) {
			c.swap(0, p);
		}
		let k = if c.len() > 1 {
			let k = self.prefix.get(self.trace.len()).copied().unwrap_or(0).min(c.len() - 1);
			self.trace.push((k, c.len()));
			k
		} else {
			0
		};
		self.run_length = if c[k] == me { self.run_length + 1 } else { 0 };
		self.current = c[k];
	}
}
/// A point at which another thread may run.
fn yield_point() {
	let me = ME.get();
	if me == usize::MAX {
		return;
	}
	let mut s = SCHED.lock().unwrap();
	s.steps += 1;
	if s.steps > 1000 {
		s.pruned = true;
		drop(s);
		std::panic::panic_any(GiveUp);
	}
	s.pick(me);
	WAKE.notify_all();
	while s.current != me {
		s = WAKE.wait(s).unwrap();
	}
}

/// Whether a weak compare-exchange fails for no reason: once per execution.
#[cfg(shim)]
fn spurious() -> bool {
	if ME.get() == usize::MAX {
		return false;
	}
	let mut s = SCHED.lock().unwrap();
	if s.spurious {
		return false;
	}
	let k = s.prefix.get(s.trace.len()).copied().unwrap_or(0).min(1);
	s.trace.push((k, 2));
	s.spurious = k == 1;
	s.spurious
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
	Got { occ: usize, addr: usize, len: usize, problem: Option<String> },
	Refused { occ: usize },
}

/// Evaluate an occurrence; the harness goes on using the buffer.
fn evaluate(occ: usize, f: Occ, size: usize, mark: u8, out: &mut Vec<(Out, Option<Buf>)>, step: fn()) {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(b) => {
			let mut problem = None;
			if b.len() != size {
				problem = Some(format!("the buffer has {} bytes instead of {size}", b.len()));
			}
			if let Some(k) = b.iter().position(|x| *x != 0) {
				problem = Some(format!("byte {k} of a new buffer is {:02X}", b[k]));
			}
			step();
			if let Some(k) = b.iter().position(|x| *x != 0) {
				problem = Some(format!("byte {k} of an unused buffer became {:02X}", b[k]));
			}
			b.fill(mark);
			step();
			if let Some(k) = b.iter().position(|x| *x != mark) {
				problem = Some(format!("byte {k} of an exclusive buffer changed to {:02X}", b[k]));
			}
			out.push((Out::Got { occ, addr: b.as_ptr() as usize, len: b.len(), problem }, Some(b)));
		},
		Err(p) => {
			if p.is::<GiveUp>() {
				resume_unwind(p)
			}
			out.push((Out::Refused { occ }, None));
		},
	}
}

/// Judge everything that happened to a set of occurrences.
fn judge(outs: &[Vec<(Out, Option<Buf>)>], occs: &[(Occ, usize)]) -> Result<(), String> {
	let mut got: BTreeMap<usize, usize> = BTreeMap::new();
	let mut tried: HashSet<usize> = HashSet::new();
	let mut ranges: Vec<(usize, usize, usize)> = vec![];
	for (t, os) in outs.iter().enumerate() {
		for (k, (o, b)) in os.iter().enumerate() {
			match o {
				Out::Got { occ, addr, len, problem } => {
					tried.insert(*occ);
					*got.entry(*occ).or_default() += 1;
					if let Some(p) = problem {
						return Err(p.clone());
					}
					let mark = mark_of(t, k);
					if b.as_ref().is_some_and(|b| b.iter().any(|x| *x != mark)) {
						return Err("the contents of an exclusive buffer changed".into());
					}
					ranges.push((*addr, *len, *occ));
				},
				Out::Refused { occ } => {
					tried.insert(*occ);
				},
			}
		}
	}
	for occ in tried {
		match got.get(&occ).copied().unwrap_or(0) {
			1 => {},
			0 => return Err(format!("no evaluation of occurrence {occ} ({} bytes) got the buffer", occs[occ].1)),
			n => return Err(format!("{n} evaluations of occurrence {occ} ({} bytes) got the buffer", occs[occ].1)),
		}
	}
	ranges.retain(|r| r.1 > 0);
	ranges.sort();
	for w in ranges.windows(2) {
		if w[0].0 + w[0].1 > w[1].0 {
			return Err(format!("the buffers of occurrences {} and {} overlap", w[0].2, w[1].2));
		}
	}
	Ok(())
}
fn mark_of(thread: usize, k: usize) -> u8 {
	(thread * 16 + k + 1) as u8
}
/// Undo the changes of an execution.
fn clean(outs: Vec<Vec<(Out, Option<Buf>)>>) {
	for o in outs.into_iter().flatten() {
		if let Some(b) = o.1 {
			b.fill(0);
		}
	}
	#[cfg(shim)]
	core::control::reset();
}

type Job = Box<dyn FnOnce() + Send>;
/// Threads that are used for all executions.
struct Pool(Vec<std::sync::mpsc::Sender<Job>>);
impl Pool {
	fn new(n: usize) -> Pool {
		Pool(
			(0..n)
				.map(|_| {
					let (tx, rx) = std::sync::mpsc::channel::<Job>();
					std::thread::spawn(move || {
						for j in rx {
							j()
						}
					});
					tx
				})
				.collect(),
		)
	}
}

/// Run one schedule; returns the trace, the number of steps, whether it was given up, and the verdict.
fn execute(pool: &Pool, occs: &'static [(Occ, usize)], threads: &[Vec<usize>], prefix: &[usize]) -> (Vec<(usize, usize)>, u64, bool, Result<(), String>) {
	let n = threads.len();
	{
		let mut s = SCHED.lock().unwrap();
		*s = Sched { prefix: prefix.to_vec(), ready: vec![true; n], current: usize::MAX, ..Sched::default() };
		s.pick(usize::MAX);
	}
	let outs: Arc<Mutex<Vec<Vec<(Out, Option<Buf>)>>>> = Arc::new(Mutex::new((0..n).map(|_| vec![]).collect()));
	let (tx, rx) = std::sync::mpsc::channel::<()>();
	for (t, prog) in threads.iter().enumerate() {
		let (prog, outs, tx) = (prog.clone(), outs.clone(), tx.clone());
		pool.0[t]
			.send(Box::new(move || {
				ME.set(t);
				{
					let mut s = SCHED.lock().unwrap();
					while s.current != t {
						s = WAKE.wait(s).unwrap();
					}
				}
				let mut mine = vec![];
				let _ = catch_unwind(AssertUnwindSafe(|| {
					for (k, occ) in prog.iter().enumerate() {
						evaluate(*occ, occs[*occ].0, occs[*occ].1, mark_of(t, k), &mut mine, yield_point);
					}
				}));
				ME.set(usize::MAX);
				outs.lock().unwrap()[t] = mine;
				let mut s = SCHED.lock().unwrap();
				s.ready[t] = false;
				s.pick(t);
				WAKE.notify_all();
				drop(s);
				let _ = tx.send(());
			}))
			.unwrap();
	}
	for _ in 0..n {
		rx.recv().unwrap();
	}
	let outs = std::mem::take(&mut *outs.lock().unwrap());
	let s = std::mem::take(&mut *SCHED.lock().unwrap());
	let verdict = if s.pruned { Ok(()) } else { judge(&outs, occs) };
	clean(outs);
	(s.trace, s.steps, s.pruned, verdict)
}

fn explore(r: &mut Report, pool: &Pool, name: &str, occs: &'static [(Occ, usize)], threads: &[Vec<usize>]) {
	if let Some((n, c)) = r.replay.clone() {
		if n == name {
			let (_, _, _, v) = execute(pool, occs, threads, &c);
			match v {
				Ok(()) => println!("{name}: held in this schedule"),
				Err(e) => r.fail(name, &c, e),
			}
		}
		return;
	}
	let (mut execs, mut steps, mut states, mut pruned) = (0u64, 0u64, 0u64, 0u64);
	let mut stack: Vec<Vec<usize>> = vec![vec![]];
	let t = Instant::now();
	while let Some(p) = stack.pop() {
		let (trace, n, gave_up, v) = execute(pool, occs, threads, &p);
		execs += 1;
		pruned += gave_up as u64;
		steps += n;
		states += (trace.len() - p.len().min(trace.len())) as u64 + 1;
		let choices: Vec<usize> = trace.iter().map(|x| x.0).collect();
		if execs == 1 || execs == 7 {
			r.samples.push(format!("{name}: schedule {choices:?}, {n} steps"));
		}
		if let Err(e) = v {
			r.fail(name, &choices, format!("{e} (schedule {choices:?} of threads evaluating {threads:?})"));
		}
		for k in p.len()..trace.len() {
			for alt in 1..trace[k].1 {
				let mut q = choices[..k].to_vec();
				q.push(alt);
				stack.push(q);
			}
		}
		if t.elapsed().as_secs() > if r.thorough { 60 } else { 6 } {
			r.assumptions.push(format!("{name}: stopped after {execs} schedules"));
			r.complete = false;
			break;
		}
	}
	if pruned > 0 {
		r.assumptions.push(format!("{name}: {pruned} schedules were given up after 1000 steps"));
		r.complete = false;
	}
	r.done(name, execs, steps, states);
}

// ---------------------------------------------------------------- occurrences

macro_rules! occurrences {
	($($size:literal)*) => { &[$(({ fn occ() -> Buf { static_buffer!($size) } occ as Occ }, $size as usize)),*] };
}
static OCCS: &[(Occ, usize)] = occurrences![16 16 1 0 7 128];
static SIZES: &[(Occ, usize)] = occurrences![
	0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 63 64 65 100 127 128 129 255 256 257 511 512 513
	1000 1023 1024 1025 4095 4096 4097 0x10 0b1000 1_000 128usize 32767 32768 65535 65536 65537 100000 1048576 4194304 0 1 1 2 2 64 64 64 128 128 65536
];

// 4096 occurrences for free races and for sequences without a reset.
#[cfg(not(shim))]
mod many {
	use super::*;
	macro_rules! m8 { ($($p:tt)*) => { [occ!(), occ!(), occ!(), occ!(), occ!(), occ!(), occ!(), occ!()] }; }
	macro_rules! occ { () => {{ fn occ() -> Buf { static_buffer!(16) } occ as Occ }}; }
	macro_rules! m64 { () => { [m8!(), m8!(), m8!(), m8!(), m8!(), m8!(), m8!(), m8!()] }; }
	macro_rules! m512 { () => { [m64!(), m64!(), m64!(), m64!(), m64!(), m64!(), m64!(), m64!()] }; }
	pub fn all() -> Vec<Occ> {
		let mut v: Vec<Occ> = vec![];
		for a in [m512!(), m512!(), m512!(), m512!(), m512!(), m512!(), m512!(), m512!()] {
			for b in a {
				for c in b {
					v.extend(c);
				}
			}
		}
		v
	}
}

fn generic<T>() -> Buf {
	static_buffer!(24)
}
trait Make {
	fn make(&self) -> Buf {
		static_buffer!(12)
	}
}
impl Make for u8 {}
impl Make for u16 {
	fn make(&self) -> Buf {
		static_buffer!(12)
	}
}
fn recursive(n: u32) -> Buf {
	let b = static_buffer!(9);
	if n > 0 {
		let _ = catch_unwind(|| recursive(n - 1));
	}
	b
}
macro_rules! wrapped {
	($n:literal) => {
		static_buffer!($n)
	};
}

fn no_step() {}

/// Free races on fresh occurrences.
#[cfg(not(shim))]
fn races(r: &mut Report, occs: &[Occ]) {
	use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
	let n = 3;
	let gate = AtomicUsize::new(0);
	let wins: Vec<AtomicUsize> = occs.iter().map(|_| AtomicUsize::new(0)).collect();
	let bad: Mutex<Option<String>> = Mutex::new(None);
	std::thread::scope(|s| {
		for _ in 0..n {
			s.spawn(|| {
				for (k, f) in occs.iter().enumerate() {
					gate.fetch_add(1, SeqCst);
					while gate.load(SeqCst) < n * (k + 1) {
						std::hint::spin_loop();
					}
					if let Ok(b) = catch_unwind(|| f()) {
						wins[k].fetch_add(1, SeqCst);
						if b.len() != 16 {
							*bad.lock().unwrap() = Some(format!("{} bytes instead of 16", b.len()));
						}
					}
				}
			});
		}
	});
	if let Some(b) = bad.lock().unwrap().take() {
		r.fail("free races", &[], b);
	}
	for (k, w) in wins.iter().enumerate() {
		let w = w.load(SeqCst);
		if w != 1 {
			r.fail("free races", &[], format!("{w} of {n} simultaneous evaluations got buffer {k}"));
		}
	}
	r.done("free races", occs.len() as u64, occs.len() as u64 * n as u64, occs.len() as u64);
}

/// All sequences of evaluations by one thread.
fn sequences(r: &mut Report, mut fresh: impl FnMut() -> Option<Vec<(Occ, usize)>>, k: usize, depth: usize) {
	let mut execs = 0;
	for code in 0..k.pow(depth as u32) {
		let Some(occs) = fresh() else { break };
		let mut held: Vec<Option<Buf>> = (0..k).map(|_| None).collect();
		let mut c = code;
		let mut seq = vec![];
		for _ in 0..depth {
			let o = c % k;
			c /= k;
			seq.push(o);
			let name = "sequences of evaluations";
			match (catch_unwind(occs[o].0), held[o].is_some()) {
				(Ok(_), true) => r.fail(name, &seq, format!("evaluations {seq:?}: the last one got a buffer again")),
				(Err(_), false) => r.fail(name, &seq, format!("evaluations {seq:?}: the last one was refused")),
				(Err(_), true) => {},
				(Ok(b), false) => {
					if b.len() != occs[o].1 || b.iter().any(|x| *x != 0) {
						r.fail(name, &seq, format!("evaluations {seq:?}: the last buffer is {b:02X?}"));
					}
					b.fill(0xC0 + o as u8);
					held[o] = Some(b);
				},
			}
			for (j, h) in held.iter().enumerate() {
				if h.as_ref().is_some_and(|h| h.iter().any(|x| *x != 0xC0 + j as u8)) {
					r.fail(name, &seq, format!("after evaluations {seq:?} the contents of buffer {j} changed: {h:02X?}"));
				}
			}
		}
		for h in held.into_iter().flatten() {
			h.fill(0);
		}
		#[cfg(shim)]
		core::control::reset();
		execs += 1;
	}
	r.done("sequences of evaluations", execs, execs * depth as u64, execs);
}

fn main() {
	// Refused evaluations panic; only panics of the checker itself are shown.
	std::panic::set_hook(Box::new(|p| {
		if p.location().is_some_and(|l| l.file() == "main.rs") && !p.payload().is::<GiveUp>() {
			let mut s = SHOWN.lock().unwrap();
			s.clear();
			s.push(p.to_string());
		}
	}));
	let r = catch_unwind(check);
	if r.is_err() {
		println!("C29: the checker failed: {:?}", SHOWN.lock().unwrap().last());
		std::process::exit(2);
	}
}
static SHOWN: Mutex<Vec<String>> = Mutex::new(vec![]);

fn check() {
	let thorough = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough");
	let mut r = Report { start: Instant::now(), thorough, scenarios: vec![], samples: vec![], assumptions: vec![], replay: None, complete: true };
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).is_some_and(|a| a == "--replay") {
		let t = std::fs::read_to_string(&args[2]).expect("cannot read the replay file");
		let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
		let c = get("choices").trim_matches(['[', ']']).split(',').filter_map(|x| x.trim().parse().ok()).collect();
		r.replay = Some((get("scenario"), c));
	}
	let pool = Pool::new(4);

	#[cfg(shim)]
	{
		// Does the macro synchronise through the atomics under control, and only those?
		core::control::set_hook(yield_point);
		core::control::set_weak(spurious);
		let ops = core::control::ops();
		let f = OCCS[0].0;
		let a = catch_unwind(f);
		let b = catch_unwind(f);
		let used = core::control::ops() - ops;
		core::control::reset();
		let c = catch_unwind(f);
		core::control::reset();
		if used == 0 || a.is_err() || b.is_ok() || c.is_err() {
			// 3: use the other build.
			std::process::exit(3);
		}
		clean(vec![vec![(Out::Refused { occ: 0 }, a.ok()), (Out::Refused { occ: 0 }, c.ok())]]);
		r.samples.push(format!("two evaluations take {used} atomic operations"));
		r.assumptions.push("memory orderings are not weakened: interleavings are sequentially consistent".into());

		let v = |x: &[&[usize]]| x.iter().map(|t| t.to_vec()).collect::<Vec<_>>();
		explore(&mut r, &pool, "2 threads, one evaluation each", OCCS, &v(&[&[0], &[0]]));
		explore(&mut r, &pool, "3 threads, one evaluation each", OCCS, &v(&[&[5], &[5], &[5]]));
		explore(&mut r, &pool, "2 threads, two evaluations each", OCCS, &v(&[&[0, 0], &[0, 0]]));
		explore(&mut r, &pool, "2 threads, 2 occurrences", OCCS, &v(&[&[0, 1], &[0, 1]]));
		explore(&mut r, &pool, "2 threads, 2 occurrences, opposite order", OCCS, &v(&[&[0, 1], &[1, 0]]));
		explore(&mut r, &pool, "2 threads, different occurrences", OCCS, &v(&[&[0, 2], &[1, 3]]));
		explore(&mut r, &pool, "3 threads, different occurrences and one shared", OCCS, &v(&[&[0], &[1], &[0]]));
		explore(&mut r, &pool, "3 threads, two evaluations and one", OCCS, &v(&[&[4, 4], &[4], &[4]]));
		explore(&mut r, &pool, "2 threads, empty buffer", OCCS, &v(&[&[3], &[3]]));
		explore(&mut r, &pool, "2 threads, three evaluations each", OCCS, &v(&[&[0, 1, 0], &[1, 0, 1]]));
		if thorough {
			explore(&mut r, &pool, "4 threads, one evaluation each", OCCS, &v(&[&[0], &[0], &[0], &[0]]));
			explore(&mut r, &pool, "3 threads, two evaluations each", OCCS, &v(&[&[0, 1], &[1, 0], &[0]]));
			explore(&mut r, &pool, "3 threads, two occurrences each", OCCS, &v(&[&[0, 1], &[1, 0], &[0, 1]]));
		}
		sequences(&mut r, || Some(OCCS[..3].to_vec()), 3, if thorough { 11 } else { 8 });
	}
	#[cfg(not(shim))]
	{
		let _ = &pool;
		r.assumptions.push("the library does not synchronise through core's atomics: threads race freely instead of under a scheduler".into());
		let all = many::all();
		let (a, b) = all.split_at(1024);
		let mut it = a.chunks(3).filter(|c| c.len() == 3);
		sequences(&mut r, || it.next().map(|c| c.iter().map(|f| (*f, 16)).collect()), 3, 5);
		races(&mut r, b);
	}

	// Sizes, initial contents and overlaps.
	let mut outs = vec![vec![]];
	for (k, (f, size)) in SIZES.iter().enumerate() {
		evaluate(k, *f, *size, mark_of(0, k), &mut outs[0], no_step);
	}
	if let Err(e) = judge(&outs, SIZES) {
		r.fail("sizes", &[], e);
	}
	let mut again = vec![];
	for (k, (f, size)) in SIZES.iter().enumerate() {
		evaluate(k, *f, *size, 0xEE, &mut again, no_step);
		if let Some((Out::Got { .. }, _)) = again.last() {
			r.fail("sizes", &[k], format!("occurrence {k} ({size} bytes) got a buffer again"));
		}
		if let Err(e) = judge(&outs, SIZES) {
			r.fail("sizes", &[k], format!("after a refused evaluation: {e}"));
		}
	}
	r.done("sizes", SIZES.len() as u64 * 2, SIZES.len() as u64 * 2, SIZES.len() as u64);

	// Occurrences in all kinds of places.
	let mut steps = 0;
	let mut expect = |r: &Report, what: &str, f: &mut dyn FnMut() -> Buf, ok: bool, size: usize| -> Option<Buf> {
		steps += 1;
		match (catch_unwind(AssertUnwindSafe(f)), ok) {
			(Ok(b), true) => {
				if b.len() != size || b.iter().any(|x| *x != 0) {
					r.fail("places", &[], format!("{what}: buffer {b:02X?}"));
				}
				b.fill(0x77);
				Some(b)
			},
			(Err(_), false) => None,
			(x, _) => r.fail("places", &[], format!("{what}: {}", if x.is_ok() { "handed out twice" } else { "refused" })),
		}
	};
	let mut held = vec![];
	held.push(expect(&r, "generic function", &mut generic::<u8>, true, 24));
	expect(&r, "generic function, same type", &mut generic::<u8>, false, 24);
	expect(&r, "generic function, other type", &mut generic::<u16>, false, 24);
	held.push(expect(&r, "provided method", &mut || 1u8.make(), true, 12));
	held.push(expect(&r, "own method", &mut || 1u16.make(), true, 12));
	expect(&r, "provided method", &mut || 2u8.make(), false, 12);
	held.push(expect(&r, "recursion", &mut || recursive(5), true, 9));
	expect(&r, "recursion", &mut || recursive(0), false, 9);
	let mut closure = || static_buffer!(11) as Buf;
	held.push(expect(&r, "closure", &mut closure, true, 11));
	expect(&r, "closure", &mut closure, false, 11);
	for k in 0..5 {
		if let Some(b) = expect(&r, "loop", &mut || static_buffer!(10), k == 0, 10) {
			held.push(Some(b));
		}
	}
	held.push(expect(&r, "other macro", &mut || wrapped!(6), true, 6));
	held.push(expect(&r, "other macro again", &mut || wrapped!(6), true, 6));
	#[rustfmt::skip]
	let (mut a, mut b) = (|| static_buffer!(8) as Buf, || static_buffer!(8) as Buf);
	held.push(expect(&r, "same line, first", &mut a, true, 8));
	held.push(expect(&r, "same line, second", &mut b, true, 8));
	let both: (Buf, Buf) = (static_buffer!(5), static_buffer!(5));
	held.push(Some(both.0));
	held.push(Some(both.1));
	// In a thread that ends, and one that panics with it.
	fn in_thread() -> Buf {
		static_buffer!(13)
	}
	held.push(std::thread::spawn(in_thread).join().ok());
	if held.last().unwrap().is_none() {
		r.fail("places", &[], "refused in a new thread".into());
	}
	expect(&r, "after the thread ended", &mut in_thread, false, 13);
	fn dies() -> Buf {
		static_buffer!(14)
	}
	let _ = std::thread::spawn(|| {
		let _b = dies();
		panic!("dies with the buffer")
	})
	.join();
	expect(&r, "after the owner panicked", &mut dies, false, 14);
	let mut ranges: Vec<(usize, usize)> = held.iter().flatten().map(|b| (b.as_ptr() as usize, b.len())).collect();
	ranges.sort();
	if ranges.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0) {
		r.fail("places", &[], "buffers of different occurrences overlap".into());
	}
	r.done("places", steps, steps, steps);

	// Very many evaluations: a counter must not wrap around.
	let n: u64 = if thorough { 20_000_000 } else { 200_000 };
	fn often() -> Buf {
		static_buffer!(32)
	}
	let b = often();
	b.fill(0x5A);
	#[cfg(shim)]
	core::control::set_hook(no_step);
	for k in 0..n {
		if catch_unwind(often).is_ok() {
			r.fail("very many evaluations", &[], format!("evaluation {} got the buffer again", k + 2));
		}
		if k.is_power_of_two() && b.iter().any(|x| *x != 0x5A) {
			r.fail("very many evaluations", &[], format!("evaluation {} changed the buffer", k + 2));
		}
	}
	r.done("very many evaluations", 1, n, n);
	r.evidence(None);
	let (e, t) = (r.scenarios.iter().map(|s| s.1).sum::<u64>(), r.start.elapsed().as_secs_f64());
	println!("C29: held on {e} executions in {t:.1}s");
}

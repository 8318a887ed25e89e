//! C35: clients and devices are independent of each other.
use dynamixel2::instructions::BulkReadData;
use dynamixel2::{Client, Device};
use mc::party::*;
use mc::*;
use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

/// What happens when nobody else does anything.
fn alone(cx: &Cx, t: &Task) -> Transcript {
	let hook = set_hook(None);
	let r = perform(cx, t);
	set_hook(hook);
	for l in &r.0 {
		if let Line::Panicked(e) = l {
			vfail!("{t:02X?} panics: {e}");
		}
	}
	// As far as it is simple, what it should be.
	let mut sent = vec![];
	for (a, l) in t.acts.iter().zip(&r.0) {
		if let (Act::Op(op, answer), Line::Ran(ran)) = (a, l) {
			sent.extend(op.tx_frame());
			if *answer == 0 && *op != Op::Scan {
				vassert!(ran.all_ok(&op.good_items()), "{op:02X?} returned {ran:02X?}");
			}
		}
	}
	if !t.device {
		veq!(hex(&written(&r.1)), hex(&sent), "{t:02X?} transmitted");
	}
	r
}
fn same(what: &str, t: &Task, got: &Transcript, want: &Transcript) {
	if got == want {
		return;
	}
	let differ = |a: String, b: String| {
		let at = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
		let from = at.saturating_sub(60);
		let cut = |s: &str| s.chars().skip(from).take(240).collect::<String>();
		format!("..{} instead of ..{}", cut(&a), cut(&b))
	};
	let d = if got.0 != want.0 { differ(format!("{:02X?}", got.0), format!("{:02X?}", want.0)) } else { differ(format!("{:02X?}", got.1), format!("{:02X?}", want.1)) };
	vfail!("{what}: {t:02X?} is affected by another one: {d}");
}

// ---------------------------------------------------------------- threads under control

/// Exactly one thread runs at a time, and all others wait, so what is passed is never used at the same time.
struct Pass<X>(X);
unsafe impl<X> Send for Pass<X> {}
impl<X> Pass<X> {
	fn get(self) -> X {
		self.0
	}
}

const CONTROL: usize = usize::MAX;
const GIVE_UP: usize = usize::MAX - 1;
struct Baton {
	turn: Mutex<usize>,
	wake: Condvar,
}
impl Baton {
	fn give(&self, to: usize) {
		*self.turn.lock().unwrap() = to;
		self.wake.notify_all();
	}
	/// Returns false if the execution is given up.
	fn wait(&self, me: usize) -> bool {
		let mut t = self.turn.lock().unwrap();
		while *t != me && *t != GIVE_UP {
			t = self.wake.wait(t).unwrap();
		}
		*t == me
	}
}
/// Run the bodies in a thread each; at every use of the code of the user that `at` accepts, another one may continue.
fn interleave<'e>(cx: &Cx, at: fn(At) -> bool, free: bool, bodies: Vec<Box<dyn FnOnce() -> Transcript + 'e>>) -> Vec<Transcript> {
	let baton = Arc::new(Baton { turn: Mutex::new(CONTROL), wake: Condvar::new() });
	let w = worker();
	let n = bodies.len();
	let done: Vec<Mutex<bool>> = (0..n).map(|_| Mutex::new(false)).collect();
	let results: Vec<Result<Transcript, Box<dyn Any + Send>>> = std::thread::scope(|s| {
		let mut threads = vec![];
		for (me, body) in bodies.into_iter().enumerate() {
			let body = Pass(body);
			let baton = baton.clone();
			let done = &done[me];
			threads.push(s.spawn(move || {
				let body = body.get();
				adopt(w);
				if !baton.wait(me) {
					return Pass(Ok((vec![], vec![])));
				}
				let b = baton.clone();
				set_hook(Some(Rc::new(move |a| {
					if at(a) {
						b.give(CONTROL);
						if !b.wait(me) && !std::thread::panicking() {
							resume_unwind(Box::new(EngineError("given up".into())));
						}
					}
				})));
				let r = catch_unwind(AssertUnwindSafe(body));
				set_hook(None);
				*done.lock().unwrap() = true;
				baton.give(CONTROL);
				Pass(r)
			}));
		}
		let mut last = 0;
		let control = catch_unwind(AssertUnwindSafe(|| loop {
			let mut ready: Vec<usize> = (0..n).filter(|k| !*done[*k].lock().unwrap()).collect();
			if ready.is_empty() {
				break;
			}
			// Going on with the same one is the default.
			if let Some(p) = ready.iter().position(|k| *k == last) {
				ready.swap(0, p);
			}
			let preempt = ready[0] == last;
			let k = match free || !preempt {
				true => cx.choose(ready.len()),
				false => cx.deviate(ready.len()),
			};
			last = ready[k];
			baton.give(last);
			baton.wait(CONTROL);
		}));
		if control.is_err() {
			baton.give(GIVE_UP);
		}
		let r = threads.into_iter().map(|t| t.join().unwrap_or_else(|e| Pass(Err(e))).get()).collect();
		if let Err(e) = control {
			resume_unwind(e);
		}
		r
	});
	results.into_iter().map(|r| r.unwrap_or_else(|e| resume_unwind(e))).collect()
}
fn on_port(a: At) -> bool {
	a == At::Port
}
fn everywhere(_: At) -> bool {
	true
}

// ---------------------------------------------------------------- material

const CONFS: [(u32, usize, usize); 4] = [(57_600, 64, 64), (1_000_000, 40, 48), (9_600, 300, 200), (4_500_000, 90, 70)];
fn client_task(conf: usize, acts: Vec<Act>) -> Task {
	let (baud, rbuf, wbuf) = CONFS[conf];
	Task { device: false, baud, rbuf, wbuf, acts }
}
fn device_task(conf: usize, acts: Vec<Act>) -> Task {
	let (baud, rbuf, wbuf) = CONFS[conf];
	Task { device: true, baud, rbuf, wbuf, acts }
}
/// Operations with contents that need stuffing, and of types with code of the user.
fn own_ops() -> Vec<Op> {
	vec![
		Op::WriteBytes(5, 0x7777, vec![0xFF, 0xFF, 0xFD, 9, 0xFF, 0xFF, 0xFD]),
		Op::Write(9, 0x0001, Ty::AP3, (1..16).collect()),
		Op::Read(9, 0x0003, Ty::AP3),
		Op::Read(9, 0x0003, Ty::B12),
		Op::SyncRead(vec![7, 8], 0x20, Ty::P5, Via::Iter),
		Op::SyncWrite(0x30, Ty::P5, vec![(1, vec![1, 2, 3, 4, 5]), (2, vec![6, 7, 8, 9, 10])]),
		Op::RegWrite(2, 0x0001, Ty::B12, vec![0xFF, 0xFF, 0xFD, 0, 0xFF, 0xFF, 0xFD, 0xFD, 0, 1, 2, 3]),
	]
}
fn packets() -> Vec<Vec<Vec<u8>>> {
	vec![
		vec![frame(3, PING, &[])],
		vec![status(3, 0, &[1, 2]), frame(3, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD, 7])],
		vec![bad_crc(frame(3, READ, &[1, 2, 3, 4])), frame(4, READ, &[5, 6, 7, 8])],
	]
}
/// The first of two tasks, and the second: in another configuration, with other contents.
fn task(conf: usize, k: usize, ops: &[Op]) -> Task {
	let p = packets();
	let n = ops.len();
	match k {
		k if k < n => client_task(conf, vec![Act::Op(ops[k].clone(), 0)]),
		k if k < n + p.len() => device_task(conf, vec![Act::Serve(p[k - n].clone())]),
		_ => client_task(conf, vec![Act::Status(status(4, 0x80, &[1, 2, 3]))]),
	}
}
fn n_tasks(ops: &[Op]) -> usize {
	ops.len() + packets().len() + 1
}

fn shift(op: &Op, by: u8) -> Op {
	// Other motors.
	if op.tx().0 == BROADCAST && !op.is_multi() {
		return op.clone();
	}
	match op.clone() {
		Op::Ping(i) => Op::Ping(i + by),
		Op::Read(i, a, t) => Op::Read(i + by, a + 5, t),
		Op::ReadVec(i, a, n) => Op::ReadVec(i + by, a + 5, n + 1),
		Op::WriteBytes(i, a, mut v) => {
			v.push(7);
			Op::WriteBytes(i + by, a, v)
		},
		Op::Reboot(i) => Op::Reboot(i + by),
		Op::Action(i) => Op::Action(i + by),
		Op::SyncReadBytes(v, a, n, via) => Op::SyncReadBytes(v.iter().map(|i| i + by).collect(), a, n + 2, via),
		Op::SyncRead(v, a, t, via) => Op::SyncRead(v.iter().map(|i| i + by).collect(), a, t, via),
		Op::BulkRead(v, via) => Op::BulkRead(v.iter().map(|(i, a, n)| (i + by, *a, n + 1)).collect(), via),
		o => o,
	}
}

// ---------------------------------------------------------------- handles

fn handle<'a>(c: &'a mut Client<VPort, B>, kind: usize, ids: &'a [u8], reads: &'a [BulkReadData]) -> Box<dyn FnMut() -> Option<Res> + 'a> {
	fn started<X>(r: Result<X, dynamixel2::WriteError<VErr>>) -> X {
		r.unwrap_or_else(|e| fail(format!("starting a read failed: {e:?}")))
	}
	match kind {
		0 => {
			let mut h = started(c.sync_read::<Padded>(ids, 1));
			Box::new(move || h.read_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data.lit_bytes())).map_err(Er::from)))
		},
		1 => {
			let mut h = started(c.sync_read_bytes::<Vec<u8>>(ids, 1, 5));
			Box::new(move || h.read_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data)).map_err(Er::from)))
		},
		2 => {
			let mut h = started(c.bulk_read_bytes::<Vec<u8>>(reads));
			Box::new(move || h.read_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data)).map_err(Er::from)))
		},
		_ => {
			let mut h = started(c.scan());
			Box::new(move || h.scan_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &[r.data.model as u8, (r.data.model >> 8) as u8, r.data.firmware])).map_err(Er::from)))
		},
	}
}
fn handle_input(kind: usize, ids: &[u8]) -> Vec<In> {
	let n = if kind == 3 { 3 } else { 5 };
	ids.iter().enumerate().map(|(k, i)| In::Bytes(status(*i, if k == 1 { 0x80 } else { 0 }, &data_of(k, *i, n)))).collect()
}

// ---------------------------------------------------------------- Send and Sync

struct Is<X>(PhantomData<X>);
#[allow(dead_code)]
trait Not {
	const SEND: bool = false;
	const SYNC: bool = false;
}
impl<X> Not for Is<X> {}
#[allow(dead_code)]
struct IsSync<X>(PhantomData<X>);
impl<X> Not for IsSync<X> {}
impl<X: Send> Is<X> {
	const SEND: bool = true;
}
impl<X: Sync> IsSync<X> {
	const SYNC: bool = true;
}
macro_rules! both {
	($($t:ty),* $(,)?) => { vec![$((stringify!($t), <Is<$t>>::SEND, <IsSync<$t>>::SYNC)),*] };
}
/// A port that may be moved to another thread.
struct Movable;
impl dynamixel2::SerialPort for Movable {
	type Error = VErr;
	type Instant = u8;
	fn baud_rate(&self) -> Result<u32, VErr> {
		Ok(9600)
	}
	fn set_baud_rate(&mut self, _: u32) -> Result<(), VErr> {
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), VErr> {
		Ok(())
	}
	fn read(&mut self, _: &mut [u8], _: &u8) -> Result<usize, VErr> {
		Err(VErr::Timeout)
	}
	fn write_all(&mut self, _: &[u8]) -> Result<(), VErr> {
		Ok(())
	}
	fn make_deadline(&self, _: Duration) -> u8 {
		0
	}
	fn is_timeout_error(_: &VErr) -> bool {
		true
	}
}
trait ValueSend {
	fn is_send(&self) -> bool;
}
struct Val<X>(PhantomData<X>);
fn val<X>(_: &X) -> Val<X> {
	Val(PhantomData)
}
impl<X: Send> ValueSend for Val<X> {
	fn is_send(&self) -> bool {
		true
	}
}
impl<X> ValueSend for &Val<X> {
	fn is_send(&self) -> bool {
		false
	}
}

fn main() {
	let mut r = Runner::new("C35");
	r.assume("scheduling points are the uses of the code of the user: serial port, buffers, encoders, decoders, iterators");
	r.sweep("clients can be moved to and shared with other threads", 1, |_, cx| {
		use dynamixel2::instructions::{Scan, SyncRead};
		for (name, send, sync) in both![
			Client<Movable, Vec<u8>>,
			Device<Movable, Vec<u8>>,
			Client<Movable, &'static mut [u8]>,
			Device<Movable, Box<[u8]>>,
			Client<serial2::SerialPort, Vec<u8>>,
			Device<serial2::SerialPort, Vec<u8>>,
			SyncRead<'static, u16, Movable, Vec<u8>>,
			SyncRead<'static, Padded, serial2::SerialPort, Vec<u8>>,
			Scan<'static, Movable, Vec<u8>>,
			dynamixel2::ReadError<std::io::Error>,
			dynamixel2::WriteError<std::io::Error>,
			dynamixel2::TransferError<std::io::Error>,
			dynamixel2::Response<u32>,
			dynamixel2::Response<Vec<u8>>,
			dynamixel2::bus::StatusPacket<'static>,
			dynamixel2::bus::InstructionPacket<'static>,
			dynamixel2::InvalidMessage,
			dynamixel2::MotorError,
		] {
			vassert!(send, "{name} is not Send");
			vassert!(sync, "{name} is not Sync");
			cx.step();
		}
		let mut c = Client::with_buffers(Movable, vec![0; 32], vec![0; 32]).unwrap();
		let h = c.sync_read_bytes::<Vec<u8>>(&[1], 0, 1).unwrap();
		vassert!((&val(&h)).is_send(), "the result of sync_read_bytes is not Send");
		drop(h);
		let reads = [BulkReadData { motor_id: 1, address: 0, count: 1 }];
		let h = c.bulk_read_bytes::<Vec<u8>>(&reads).unwrap();
		vassert!((&val(&h)).is_send(), "the result of bulk_read_bytes is not Send");
	});

	let mut ops = representative_ops();
	ops.extend(own_ops());
	let silent = silent_ops();
	let n = n_tasks(&ops);
	// One participant uses the other one's thread: everything that happens between two uses of its port or buffer.
	let known: std::sync::OnceLock<Vec<(Task, Transcript)>> = std::sync::OnceLock::new();
	let nested = |cx: &Cx, others: usize, at: fn(At) -> bool| {
		let inner: &Vec<(Task, Transcript)> = known.get_or_init(|| {
			let mut list = vec![5usize, 20, 28, 0, 22, 15, 17, 7, 25, 27];
			list.extend((0..n).filter(|k| !list.contains(k)).collect::<Vec<_>>());
			list.iter().map(|k| task(1, *k, &ops)).map(|t| (t.clone(), alone(cx, &t))).collect()
		});
		let a = task(0, cx.choose(n), &ops);
		let want = alone(cx, &a);
		let (cx2, depth) = (cx.clone(), std::cell::Cell::new(0));
		let inner = inner[..others].to_vec();
		set_hook(Some(Rc::new(move |x| {
			if depth.get() > 1 || !at(x) || std::thread::panicking() {
				return;
			}
			let k = cx2.deviate(1 + inner.len());
			if k > 0 {
				depth.set(depth.get() + 1);
				let (t, want) = &inner[k - 1];
				same("during another operation", t, &perform(&cx2, t), want);
				depth.set(depth.get() - 1);
			}
		})));
		let got = catch_unwind(AssertUnwindSafe(|| perform(cx, &a)));
		set_hook(None);
		let got = got.unwrap_or_else(|e| resume_unwind(e));
		same("with another operation in between", &a, &got, &want);
		cx.outcome(&(a.device, got.1.len()));
	};
	let one_other = r.by_tier(10, n);
	r.tree("within an operation, another one", Some(2), |cx| nested(cx, one_other, everywhere));
	r.tree("within an operation, others", Some(r.by_tier(2, 3)), |cx| nested(cx, 3, everywhere));
	r.tree("within an operation, others during port calls", Some(r.by_tier(3, 4)), |cx| nested(cx, 3, on_port));
	let pair = |cx: &Cx, a: Task, b: Task, at: fn(At) -> bool, free: bool| {
		let want = [alone(cx, &a), alone(cx, &b)];
		let bodies: Vec<Box<dyn FnOnce() -> Transcript>> = vec![Box::new(|| perform(cx, &a)), Box::new(|| perform(cx, &b))];
		let got = interleave(cx, at, free, bodies);
		same("in its own thread", &a, &got[0], &want[0]);
		same("in its own thread", &b, &got[1], &want[1]);
		cx.outcome(&(got[0].1.len(), got[1].1.len()));
	};
	// Every interleaving of port calls.
	let few: Vec<Op> = [0usize, 2, 5, 7, 11].iter().map(|k| ops[*k].clone()).chain([silent[0].clone(), silent[14].clone(), ops[20].clone()]).collect();
	r.tree("two threads: every interleaving of port calls", None, |cx| {
		let k = cx.choose(few.len() + 2);
		let l = cx.choose(few.len() + 2);
		let a = task(0, k, &few);
		let shifted: Vec<Op> = few.iter().map(|o| shift(o, 2)).collect();
		let b = task(1, l, &shifted);
		pair(cx, a, b, on_port, true);
	});
	// All pairs of operations, at every use of code of the user.
	r.tree("two threads: all pairs, everywhere", Some(r.by_tier(1, 2)), |cx| {
		let a = task(0, cx.choose(n), &ops);
		let b = task(1, cx.choose(n), &ops);
		pair(cx, a, b, everywhere, false);
	});
	r.tree("two threads: few pairs, more preemptions", Some(r.by_tier(3, 4)), |cx| {
		let idx = [0usize, 7, 15, 18, 20, 21, 24];
		let a = task(0, *cx.pick(&idx), &ops);
		let b = task(2, *cx.pick(&idx), &ops);
		pair(cx, a, b, on_port, false);
	});
	r.tree("two threads: answers that are damaged, missing or in pieces", Some(r.by_tier(2, 3)), |cx| {
		let list = [ops[0].clone(), ops[4].clone(), ops[16].clone(), ops[18].clone(), Op::Scan];
		let a = client_task(0, vec![Act::Op(cx.pick(&list).clone(), cx.choose(4) as u8)]);
		let b = client_task(1, vec![Act::Op(shift(cx.pick(&list), 1), 1 + cx.choose(3) as u8)]);
		pair(cx, a, b, on_port, false);
	});
	r.tree("three threads", Some(r.by_tier(2, 3)), |cx| {
		let idx = [2usize, 7, 16, 20, 28];
		let tasks: Vec<Task> = (0..3).map(|k| task(k, *cx.pick(&idx), &ops)).collect();
		let want: Vec<Transcript> = tasks.iter().map(|t| alone(cx, t)).collect();
		let bodies: Vec<Box<dyn FnOnce() -> Transcript>> = tasks.iter().map(|t| Box::new(|| perform(cx, t)) as Box<dyn FnOnce() -> Transcript>).collect();
		let got = interleave(cx, on_port, false, bodies);
		for k in 0..3 {
			same("with two others", &tasks[k], &got[k], &want[k]);
		}
		cx.outcome(&got.iter().map(|g| g.1.len()).collect::<Vec<_>>());
	});
	// A client that is moved from thread to thread.
	r.tree("a client used by several threads in turn", None, |cx| {
		let (f, g, h) = (status(4, 0x80, &[1, 2, 3]), status(9, 0, &[0xFF, 0xFF, 0xFD]), bad_crc(status(5, 0, &[7])));
		// What was received and not read yet stays in the buffer.
		let mut list: Vec<Act> = [f.clone(), [f.clone(), g.clone(), h].concat(), [&g[..], &f[..6]].concat(), f[6..].to_vec(), vec![]].map(Act::Status).to_vec();
		for op in [&ops[0], &ops[4], &ops[7], &ops[15], &ops[20], &silent[15]] {
			list.extend([Act::Op(op.clone(), 0), Act::Op(op.clone(), 2)]);
		}
		let acts: Vec<Act> = (0..3).map(|_| cx.pick(&list).clone()).collect();
		let t = client_task(cx.choose(2), acts);
		let want = alone(cx, &t);
		let mut live = Live::new(cx, &t);
		let w = worker();
		for a in &t.acts {
			let p = Pass((cx, a, &mut live));
			let r = std::thread::scope(|s| {
				s.spawn(move || {
					let (cx, a, live) = p.get();
					adopt(w);
					Pass(catch_unwind(AssertUnwindSafe(|| live.act(cx, a))))
				})
				.join()
				.unwrap_or_else(|e| Pass(Err(e)))
				.get()
			});
			if let Err(e) = r {
				resume_unwind(e);
			}
		}
		let got = live.end();
		same("in a new thread for each operation", &t, &got, &want);
		cx.outcome(&got.1.len());
	});
	// Several participants in one thread, which also move in memory.
	let depth = r.by_tier(5usize, 6);
	r.tree("histories of three in one thread", None, |cx| {
		let menu: [&[Act]; 3] = [
			&[Act::Op(Op::Reboot(3), 0), Act::Op(Op::SyncReadBytes(vec![3, 1], 2, 3, Via::Next), 1), Act::SetBaud(1_000_000), Act::Op(Op::WriteBytes(7, 9, vec![0xFF, 0xFF, 0xFD]), 2)],
			&[Act::Op(Op::Ping(9), 0), Act::Op(Op::ReadVec(9, 2, 11), 3), Act::SetBaud(9_600), Act::Status(status(4, 0, &[1, 2, 3]))],
			&[Act::Serve(vec![frame(3, PING, &[])]), Act::Serve(vec![status(1, 0, &[]), frame(4, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD])]), Act::SetBaud(300)],
		];
		let mut tasks: Vec<Task> = vec![client_task(0, vec![]), client_task(3, vec![]), device_task(2, vec![])];
		let mut live: Vec<(usize, Live)> = tasks.iter().enumerate().map(|(k, t)| (k, Live::new(cx, t))).collect();
		for _ in 0..depth {
			let k = cx.choose(3);
			let a = cx.pick(menu[k]).clone();
			live.rotate_left(1);
			let l = live.iter_mut().find(|l| l.0 == k).unwrap();
			l.1.act(cx, &a);
			tasks[k].acts.push(a);
		}
		for (k, l) in live {
			let want = alone(cx, &tasks[k]);
			same("next to others in the same thread", &tasks[k], &l.end(), &want);
		}
	});
	// Reads from several motors that are in progress at the same time.
	r.tree("two reads in progress", None, |cx| {
		let kinds = [cx.choose(4), cx.choose(4)];
		let ids: [&[u8]; 2] = [&[3, 1, 9], &[8, 3]];
		let reads: Vec<Vec<BulkReadData>> = ids.iter().map(|v| v.iter().map(|i| BulkReadData { motor_id: *i, address: 4, count: 5 }).collect()).collect();
		let start = |k: usize| {
			let port = VPort::new(cx).frag(Frag::Items).baud([57_600, 1_000_000][k]);
			port.replies(vec![handle_input(kinds[k], ids[k])]);
			(port.clone(), Client::with_buffers(port, TellingBuffer(vec![0; 40 + 10 * k]), TellingBuffer(vec![0; 64])).unwrap())
		};
		// Alone.
		let plan: [usize; 2] = [cx.choose(5), cx.choose(4)];
		let solo = |k: usize| {
			let (port, mut c) = start(k);
			let mut h = handle(&mut c, kinds[k], ids[k], &reads[k]);
			let v: Vec<Option<Res>> = (0..plan[k]).map(|_| h()).collect();
			drop(h);
			(v, port.log())
		};
		let want = [solo(0), solo(1)];
		// Together.
		let ((p0, mut c0), (p1, mut c1)) = (start(0), start(1));
		let mut h = [Some(handle(&mut c0, kinds[0], ids[0], &reads[0])), Some(handle(&mut c1, kinds[1], ids[1], &reads[1]))];
		let mut got: [Vec<Option<Res>>; 2] = [vec![], vec![]];
		while h.iter().any(|h| h.is_some()) {
			let k = match (&h[0], &h[1]) {
				(Some(_), Some(_)) => cx.choose(2),
				(Some(_), None) => 0,
				_ => 1,
			};
			if got[k].len() < plan[k] {
				let x = h[k].as_mut().unwrap()();
				got[k].push(x);
			} else {
				h[k] = None;
			}
		}
		drop(h);
		let got = [(std::mem::take(&mut got[0]), p0.log()), (std::mem::take(&mut got[1]), p1.log())];
		for k in 0..2 {
			vassert!(got[k] == want[k], "reads {kinds:?} from {ids:?} in turns: {:02X?} instead of {:02X?}", got[k], want[k]);
		}
		cx.outcome(&(kinds, plan));
	});
	r.finish();
}

//! C36: code of the user that panics, where the panic is caught, leaves a usable client or device.
use dynamixel2::instructions::BulkReadData;
use dynamixel2::Client;
use mc::party::*;
use mc::*;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

const T: Duration = Duration::from_millis(3);

// ---------------------------------------------------------------- panics of the user

struct Oops;

/// Run `f`, in which the calls of the user's code with these numbers panic.
/// Returns nothing if it panicked, and the number of calls.
fn with_panics<R>(at: &[usize], f: impl FnOnce() -> R) -> (Option<R>, usize) {
	let calls = Rc::new(Cell::new(0));
	let (n, at) = (calls.clone(), at.to_vec());
	set_hook(Some(Rc::new(move |a| {
		// The accessors of a buffer do not panic, and two panics at once end the process.
		if a == At::Buffer || std::thread::panicking() {
			return;
		}
		let k = n.get();
		n.set(k + 1);
		if at.contains(&k) {
			resume_unwind(Box::new(Oops));
		}
	})));
	let r = catch_unwind(AssertUnwindSafe(f));
	set_hook(None);
	match r {
		Ok(r) => (Some(r), calls.get()),
		Err(e) if e.is::<Oops>() => (None, calls.get()),
		Err(e) => resume_unwind(e),
	}
}

/// Deadlines are numbered from the start of the port; number them from the first one in this log.
fn renumbered(log: Vec<Ev>) -> Vec<Ev> {
	let first = log.iter().find_map(|e| if let Ev::Deadline(d) = e { Some(d.n) } else { None }).unwrap_or(0);
	let to = |d: VInst| VInst { n: d.n.wrapping_sub(first), timeout: d.timeout };
	log.into_iter()
		.map(|e| match e {
			Ev::Deadline(d) => Ev::Deadline(to(d)),
			Ev::Read { cap, deadline, res } => Ev::Read { cap, deadline: to(deadline), res },
			e => e,
		})
		.collect()
}

const CONFS: [(u32, usize, usize); 3] = [(57_600, 64, 64), (1_000_000, 40, 48), (9_600, 300, 200)];
fn task(conf: usize, device: bool) -> Task {
	let (baud, rbuf, wbuf) = CONFS[conf];
	Task { device, baud, rbuf, wbuf, acts: vec![] }
}
fn new(cx: &Cx, conf: usize, device: bool) -> Live {
	let l = Live::new(cx, &task(conf, device));
	l.port.fresh();
	l
}
/// What an act does on a new client or device.
fn first(cx: &Cx, conf: usize, device: bool, a: &Act) -> Transcript {
	let mut l = new(cx, conf, device);
	l.act_uncaught(a);
	let (lines, log) = l.end();
	if let (Act::Op(op, 0), [Line::Ran(r)]) = (a, &lines[..]) {
		vassert!(r.all_ok(&op.good_items()) || *op == Op::Scan, "{op:02X?} returned {r:02X?}");
	}
	(lines, renumbered(log))
}
fn then(l: &mut Live, what: &dyn Fn() -> String, a: &Act, want: &Transcript) {
	l.lines.clear();
	l.port.fresh();
	l.act_uncaught(a);
	let got = (std::mem::take(&mut l.lines), renumbered(l.port.fresh()));
	vassert!(got.0 == want.0, "{}: {a:02X?} returned {:02X?} instead of {:02X?}", what(), got.0, want.0);
	vassert!(got.1 == want.1, "{}: {a:02X?} used the port like this: {:02X?} instead of {:02X?}", what(), got.1, want.1);
}
/// What arrived for an abandoned command is not the subject here.
fn quiet_line(l: &Live) {
	l.port.0.borrow_mut().input.clear();
}

fn own_ops() -> Vec<Op> {
	vec![
		Op::WriteBytes(5, 0x7777, vec![0xFF, 0xFF, 0xFD, 9, 0xFF, 0xFF, 0xFD]),
		Op::Write(9, 0x0001, Ty::AP3, (1..16).collect()),
		Op::Write(4, 0x0001, Ty::B12, vec![0xFF, 0xFF, 0xFD, 0, 0xFF, 0xFF, 0xFD, 0xFD, 0, 1, 2, 3]),
		Op::Read(9, 0x0003, Ty::AP3),
		Op::Read(9, 0x0003, Ty::B12),
		Op::SyncRead(vec![7, 8, 9], 0x20, Ty::P5, Via::Iter),
		Op::SyncRead(vec![7, 8, 9], 0x20, Ty::AP3, Via::Next),
		Op::BulkRead(vec![(4, 1, 3), (5, 2, 4)], Via::Borrow),
		Op::SyncWrite(0x30, Ty::P5, vec![(1, vec![1, 2, 3, 4, 5]), (2, vec![6, 7, 8, 9, 10])]),
		Op::RegWrite(2, 0x0001, Ty::B12, vec![0xFF, 0xFF, 0xFD, 0, 0xFF, 0xFF, 0xFD, 0xFD, 0, 1, 2, 3]),
	]
}

// ---------------------------------------------------------------- streams

/// What a stream is made of.
fn pieces() -> Vec<Vec<u8>> {
	vec![
		status(3, 0, &[1, 2]),
		status(4, 0x80, &[0xFF, 0xFF, 0xFD, 7]),
		status(6, 5, &[1]),
		frame(3, PING, &[]),
		frame(4, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD]),
		bad_crc(status(5, 0, &[])),
		vec![0x33, 0xFF, 0xFF],
		HEADER.to_vec(),
		frame_with_len(1, 900, &[1, 2, 3])[..9].to_vec(),
		short_frame(8, 2),
	]
}

// ---------------------------------------------------------------- reads from several motors

const IDS: [u8; 4] = [3, 1, 9, 6];
type Step<'a> = Box<dyn FnMut() -> Option<Res> + 'a>;
fn start<'a>(c: &'a mut Client<VPort, B>, kind: usize, reads: &'a [BulkReadData]) -> Step<'a> {
	fn started<X>(r: Result<X, dynamixel2::WriteError<VErr>>) -> X {
		r.unwrap_or_else(|e| fail(format!("starting a read failed: {e:?}")))
	}
	match kind {
		0 => {
			let mut h = started(c.sync_read::<Padded>(&IDS, 1));
			Box::new(move || h.read_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data.lit_bytes())).map_err(Er::from)))
		},
		1 => {
			let mut h = started(c.sync_read::<Padded>(&IDS, 1));
			Box::new(move || h.next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data.lit_bytes())).map_err(Er::from)))
		},
		2 => {
			let mut h = started(c.sync_read_bytes::<Owned>(&IDS, 1, 5));
			Box::new(move || h.read_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data.0)).map_err(Er::from)))
		},
		3 => {
			let mut h = started(c.bulk_read_bytes::<Owned>(reads));
			Box::new(move || h.read_next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data.0)).map_err(Er::from)))
		},
		_ => {
			let mut h = started(c.bulk_read_bytes::<Owned>(reads));
			Box::new(move || h.next().map(|r| r.map(|r| item(r.motor_id, r.alert, &r.data.0)).map_err(Er::from)))
		},
	}
}
struct Owned(Vec<u8>);
impl From<&[u8]> for Owned {
	fn from(b: &[u8]) -> Self {
		user_code(At::Decode);
		Owned(b.to_vec())
	}
}

fn main() {
	let mut r = Runner::new("C36");
	r.assume("a panic is raised at the start of a call of the user's code, when no other one is under way; the accessors of buffers do not panic");
	let r_thorough = r.thorough();
	let mut ops = representative_ops();
	ops.extend(own_ops());
	ops.extend(silent_ops());
	let acts: Vec<Act> = ops.iter().flat_map(|o| (0..if matches!(o.replies(), Replies::None) { 1 } else { 4 }).map(|k| Act::Op(o.clone(), k))).collect();
	let after: Vec<Act> = acts.iter().filter(|a| matches!(a, Act::Op(_, 0..=2))).cloned().collect();
	let count = |cx: &Cx, conf: usize, a: &Act| {
		let mut l = new(cx, conf, false);
		with_panics(&[], || l.act_uncaught(a)).1
	};
	let abandon = |l: &mut Live, a: &Act, at: usize| {
		let (r, _) = with_panics(&[at], || l.act_uncaught(a));
		vassert!(r.is_none(), "a panic during {a:02X?} disappeared");
		quiet_line(l);
	};
	// Every call of the user's code in every operation.
	let confs = r.by_tier(2, 3);
	r.tree("after a panic, every operation", None, |cx| {
		let conf = cx.choose(confs);
		let a = cx.pick(&acts);
		let at = cx.choose(count(cx, conf, a));
		let b = cx.pick(&after);
		let mut l = new(cx, conf, false);
		abandon(&mut l, a, at);
		then(&mut l, &|| format!("after {a:02X?}, abandoned in call {at} of the user's code"), b, &first(cx, conf, false, b));
		cx.outcome(&at);
	});
	// One after the other, and what follows is the next one.
	let some: Vec<Act> = [0usize, 2, 4, 7, 15, 16, 18, 20, 21, 23, 24, 28, 29, 44, 46].iter().map(|k| Act::Op(ops[*k].clone(), 0)).collect();
	r.tree("after several panics", None, |cx| {
		let (a, b) = (cx.pick(&some), cx.pick(&some));
		let (i, j) = (cx.choose(count(cx, 0, a)), cx.choose(count(cx, 0, b)));
		let mut l = new(cx, 0, false);
		abandon(&mut l, a, i);
		abandon(&mut l, b, j);
		let after = if r_thorough { &after[..] } else { &some[..] };
		let c = cx.pick(after);
		then(&mut l, &|| format!("after {a:02X?} and {b:02X?}, abandoned in calls {i} and {j} of the user's code"), c, &first(cx, 0, false, c));
	});
	r.tree("the same one abandoned again and again", None, |cx| {
		let a = cx.pick(&acts);
		let at = cx.choose(count(cx, 0, a));
		let mut l = new(cx, 0, false);
		for _ in 0..40 {
			abandon(&mut l, a, at);
		}
		for b in &some[..8] {
			then(&mut l, &|| format!("after {a:02X?}, abandoned 40 times in call {at} of the user's code"), b, &first(cx, 0, false, b));
		}
	});
	// A rate that could be set or not: the timeouts follow what the client says.
	r.tree("a panic while the baud rate is set", None, |cx| {
		let device = cx.flag();
		let b = *cx.pick(&[9_600u32, 57_600, 1_000_000, 4_500_000]);
		let mut l = new(cx, 0, device);
		let (r, _) = with_panics(&[0], || l.act_uncaught(&Act::SetBaud(b)));
		vassert!(r.is_none(), "a panic while the baud rate is set disappeared");
		let now = match &l.party {
			Party::Client(c) => c.baud_rate(),
			Party::Device(d) => d.baud_rate(),
		};
		vassert!(now == 57_600 || now == b, "the baud rate is {now} after a panic while {b} was set instead of 57600");
		let n = *cx.pick(&[9_600u32, 57_600, 1_000_000]);
		l.lines.clear();
		l.act_uncaught(&Act::SetBaud(n));
		veq!(l.lines, vec![Line::Baud(Ok(()), n)], "setting the baud rate after a panic");
		if !device {
			let conf = CONFS.iter().position(|c| c.0 == n).unwrap();
			let c = cx.pick(&some);
			let mut other = Live::new(cx, &Task { baud: n, ..task(0, false) });
			other.port.fresh();
			other.act_uncaught(c);
			let want = (std::mem::take(&mut other.lines), renumbered(other.port.fresh()));
			then(&mut l, &|| format!("after a panic while the baud rate was set ({conf})"), c, &want);
		}
	});
	// What is received stays in order: reading is continued where the panic was.
	let pieces = pieces();
	let bound = r.by_tier(2, 3);
	let parts = 3;
	r.tree("panics while a stream is read", Some(bound), |cx| {
		let device = cx.flag();
		let s: Vec<u8> = (0..parts).flat_map(|_| cx.pick(&pieces).clone()).collect();
		let s = &s[..];
		let frag = *cx.pick(&[Frag::All, Frag::Max(1), Frag::Max(5), Frag::Max(13)]);
		let port = VPort::new(cx).frag(frag);
		port.feed(s);
		let (mut c, mut d) = (client(&port, 48, 48), mc::device(&port, 48, 48));
		let mut rx = RefRx::over(48, s);
		let cx2 = cx.clone();
		let left = Cell::new(bound);
		set_hook(Some(Rc::new(move |a| {
			if a == At::Port && !std::thread::panicking() && left.get() > 0 && cx2.deviate(2) == 1 {
				left.set(left.get() - 1);
				resume_unwind(Box::new(Oops));
			}
		})));
		let all = catch_unwind(AssertUnwindSafe(|| loop {
			let got = match catch_unwind(AssertUnwindSafe(|| if device { dev_raw(&mut d, T) } else { cl_status(&mut c, T) })) {
				Ok(r) => r,
				Err(e) if e.is::<Oops>() => continue,
				Err(e) => resume_unwind(e),
			};
			let want = if device { next_for_device(&mut rx) } else { rx.next() };
			let r = if device { judge_instruction(&want, &got) } else { judge_status(&want, &got) };
			if let Err(e) = r {
				vfail!("reading {} with panics of the port: {e}", hex(s));
			}
			if want == Rx::Nothing {
				break;
			}
		}));
		set_hook(None);
		all.unwrap_or_else(|e| resume_unwind(e));
		cx.outcome(&port.n_reads());
	});
	// A read from several motors that is dropped, where the port panics.
	r.tree("panics while a read from several motors is dropped", None, |cx| {
		let kind = cx.choose(5);
		let stop = cx.choose(4);
		let missing = cx.choose(16);
		let at = cx.choose(14);
		let reads: Vec<BulkReadData> = IDS.iter().map(|i| BulkReadData { motor_id: *i, address: 4, count: 5 }).collect();
		let port = VPort::new(cx).frag(*cx.pick(&[Frag::All, Frag::Items, Frag::Max(7)]));
		port.replies(vec![(0..4).filter(|k| missing >> k & 1 == 0).map(|k| In::Bytes(status(IDS[k], 0, &data_of(k, IDS[k], 5)))).collect()]);
		let mut c = Client::with_buffers(port.clone(), TellingBuffer(vec![0; 64]), TellingBuffer(vec![0; 64])).unwrap_or_else(|e| fail(format!("{e:?}")));
		let mut h = start(&mut c, kind, &reads);
		for _ in 0..stop {
			h();
		}
		let (r, n) = with_panics(&[at], || drop(h));
		vassert!(r.is_some() == (n <= at), "a panic of the port while a read is dropped disappeared");
		port.0.borrow_mut().input.clear();
		let mut l = Live { port, party: Party::Client(c), lines: vec![] };
		let b = cx.pick(&some[..6]);
		then(&mut l, &|| format!("after read {kind}, dropped after {stop} results while the port panicked in call {at}"), b, &first(cx, 0, false, b));
		cx.outcome(&(n, stop));
	});
	// A device that answers.
	r.tree("panics while a device answers", None, |cx| {
		let answers: [(u8, u8, Vec<u8>); 4] = [(3, 0, vec![]), (4, 0x80, vec![1, 2, 3]), (5, 7, vec![0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD]), (0xFD, 0, vec![9; 30])];
		let port = VPort::new(cx);
		let mut d = mc::device(&port, 64, 64);
		port.fresh();
		let send = |d: &mut D, a: &(u8, u8, Vec<u8>)| {
			d.write_status(a.0, a.1, a.2.len(), |b| {
				b.copy_from_slice(&a.2[..]);
				user_code(At::Encode);
				Ok(())
			})
		};
		for _ in 0..2 {
			let a = cx.pick(&answers);
			let at = cx.choose(4);
			let (r, n) = with_panics(&[at], || send(&mut d, a));
			vassert!(r.is_some() == (n <= at), "a panic while a device answers disappeared");
			port.fresh();
		}
		let a = cx.pick(&answers);
		let r = send(&mut d, a);
		vassert!(r.is_ok(), "answering with {a:02X?} after a panic: {r:?}");
		veq!(hex(&port.written()), hex(&status(a.0, a.1, &a.2)), "the answer {a:02X?} after a panic");
		let p = frame(8, WRITE, &[1, 2, 3]);
		port.feed(&p);
		let got = dev_raw(&mut d, T);
		vassert!(got == Ok((8, WRITE, vec![1, 2, 3])), "an instruction after a panic: {got:02X?}");
	});
	// A read from several motors goes on with the next motor if a decoder panics, whichever are left when it is dropped.
	let reads: Vec<BulkReadData> = IDS.iter().map(|i| BulkReadData { motor_id: *i, address: 4, count: 5 }).collect();
	r.tree("decoders that panic in a read from several motors", None, |cx| {
		let kind = cx.choose(5);
		let bad = cx.choose(16);
		let odd = cx.choose(5);
		let stop = cx.choose(5);
		let frag = *cx.pick(&[Frag::All, Frag::Items, Frag::Max(7)]);
		let port = VPort::new(cx).frag(frag);
		let data = |k: usize| data_of(k, IDS[k], 5);
		let frames: Vec<In> = (0..4)
			.map(|k| status(IDS[k], if k == odd { 0x80 } else { 0 }, &data(k)))
			.enumerate()
			.map(|(k, f)| In::Bytes(if k + 1 == odd && bad >> k & 1 == 0 { bad_crc(f) } else { f }))
			.collect();
		port.replies(vec![frames.clone()]);
		let mut c = Client::with_buffers(port.clone(), TellingBuffer(vec![0; 64]), TellingBuffer(vec![0; 64])).unwrap_or_else(|e| fail(format!("{e:?}")));
		let mut h = start(&mut c, kind, &reads);
		for k in 0..stop.min(4) {
			let now = Rc::new(Cell::new(bad >> k & 1 == 1));
			let n = now.clone();
			set_hook(Some(Rc::new(move |a| {
				if a == At::Decode && n.take() {
					resume_unwind(Box::new(Oops));
				}
			})));
			let r = catch_unwind(AssertUnwindSafe(&mut h));
			set_hook(None);
			let what = || format!("read {kind} from {IDS:?}, decoders of {bad:04b} panic, result {k}");
			match r {
				Err(e) if e.is::<Oops>() => vassert!(bad >> k & 1 == 1, "{}: panic", what()),
				Err(e) => resume_unwind(e),
				Ok(r) => {
					let want = item(IDS[k], k == odd, &data(k));
					let good = match &r {
						Some(Ok(i)) => *i == want && k + 1 != odd,
						Some(Err(Er::Checksum { .. })) => k + 1 == odd,
						_ => false,
					};
					vassert!(good && bad >> k & 1 == 0, "{}: {r:02X?} instead of {want:02X?}", what());
				},
			}
		}
		drop(h);
		vassert!(port.waiting().is_empty(), "the answers of {IDS:?} are not awaited after panics of decoders {bad:04b}: {} is left", hex(&port.waiting()));
		let mut l = Live { port, party: Party::Client(c), lines: vec![] };
		l.port.0.borrow_mut().baud = 57_600;
		let b = cx.pick(&some[..4]);
		then(&mut l, &|| format!("after read {kind}, decoders {bad:04b} of which panicked"), b, &first(cx, 0, false, b));
		cx.outcome(&(kind, bad, stop));
	});
	r.finish();
}

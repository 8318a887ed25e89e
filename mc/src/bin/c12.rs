//! C12: a partly received frame survives a timeout or read error.
use mc::*;
use std::collections::VecDeque;

const T: Duration = Duration::from_millis(5);

/// What arrives, interrupted by errors.
#[derive(Clone, Debug)]
struct Plan(Vec<In>);

impl Plan {
	/// Cut the stream at the given positions with the given errors (the positions are sorted).
	fn new(stream: &[u8], cuts: &[(usize, VErr)]) -> Plan {
		let mut v = vec![];
		let mut last = 0;
		for &(at, e) in cuts {
			if at > last {
				v.push(In::Bytes(stream[last..at].to_vec()));
			}
			v.push(In::Err(e));
			last = at;
		}
		if last < stream.len() {
			v.push(In::Bytes(stream[last..].to_vec()));
		}
		Plan(v)
	}
}

/// The reference receiver fed from the plan.
struct Sim {
	rx: RefRx,
	q: VecDeque<In>,
}
enum Want {
	Rx(Rx),
	Err(VErr),
}
impl Sim {
	fn new(buf: usize, p: &Plan) -> Sim {
		Sim { rx: RefRx::new(buf), q: p.0.clone().into() }
	}
	fn next(&mut self, dev: bool) -> Want {
		loop {
			let n = if dev { next_for_device(&mut self.rx) } else { self.rx.next() };
			if n != Rx::Nothing {
				return Want::Rx(n);
			}
			match self.q.pop_front() {
				Some(In::Bytes(b)) => self.rx.feed(&b),
				Some(In::Err(e)) => return Want::Err(e),
				Some(In::Zero) => {},
				None => return Want::Err(VErr::Timeout),
			}
		}
	}
	fn done(&self) -> bool {
		self.q.is_empty()
	}
}

fn raw(cx: &Cx, plan: &Plan, buf: usize, frag: Frag, dev: bool) {
	let port = VPort::new(cx).frag(frag).horizon(100_000 + 2 * plan.0.len() as u32);
	for i in &plan.0 {
		port.push(i.clone());
	}
	let mut sim = Sim::new(buf, plan);
	let mut n = 0;
	if dev {
		let mut d = device(&port, buf, 16);
		loop {
			let end = sim.done();
			let want = sim.next(true);
			let got = dev_raw(&mut d, T);
			match &want {
				Want::Err(e) => vassert!(got == Err(Er::Io(*e)), "device, buffer {buf}, {plan:02X?}: result {n}: {got:02X?} instead of {e:?}"),
				Want::Rx(rx) => {
					if let Err(e) = judge_instruction(rx, &got) {
						vfail!("device, buffer {buf}, {frag:?}, {plan:02X?}: result {n}: {e}");
					}
				},
			}
			n += 1;
			if end && matches!(want, Want::Err(_)) {
				break;
			}
		}
	} else {
		let mut c = client(&port, buf, 16);
		loop {
			let end = sim.done();
			let want = sim.next(false);
			let got = cl_status(&mut c, T);
			match &want {
				Want::Err(e) => vassert!(got == Err(Er::Io(*e)), "client, buffer {buf}, {plan:02X?}: result {n}: {got:02X?} instead of {e:?}"),
				Want::Rx(rx) => {
					if let Err(e) = judge_status(rx, &got) {
						vfail!("client, buffer {buf}, {frag:?}, {plan:02X?}: result {n}: {e}");
					}
				},
			}
			n += 1;
			if end && matches!(want, Want::Err(_)) {
				break;
			}
		}
	}
	cx.outcome(&n);
}

/// A decoded read by the device (both forms), of frames that decode.
fn decoded(cx: &Cx, plan: &Plan, frag: Frag, owned: bool) {
	let port = VPort::new(cx).frag(frag);
	for i in &plan.0 {
		port.push(i.clone());
	}
	let mut sim = Sim::new(48, plan);
	let mut d = device(&port, 48, 16);
	loop {
		let end = sim.done();
		let want = sim.next(true);
		let got = if owned {
			d.read_owned(T).map(|x| (x.id, format!("{:?}", x.instruction))).map_err(Er::from)
		} else {
			d.read(T).map(|x| (x.id, format!("{:?}", x.instruction))).map_err(Er::from)
		};
		match &want {
			Want::Err(e) => {
				vassert!(got == Err(Er::Io(*e)), "device, {plan:02X?}: {got:02X?} instead of {e:?}");
				if end {
					break;
				}
			},
			Want::Rx(Rx::Packet { id, inst, params }) => {
				let s = match *inst {
					PING => "Ping".into(),
					READ => format!("Read {{ address: {}, length: {} }}", params[0] as u16 | (params[1] as u16) << 8, params[2] as u16 | (params[3] as u16) << 8),
					WRITE => format!("Write {{ address: {}, parameters: {:?} }}", params[0] as u16 | (params[1] as u16) << 8, &params[2..]),
					i => format!("Unknown {{ instruction: {i}, parameters: {params:?} }}"),
				};
				vassert!(got == Ok((*id, s.clone())), "device, {plan:02X?}: {got:02X?} instead of {s}");
			},
			Want::Rx(w) => {
				if let Err(e) = judge(None, None, w, &Err(got.clone().err().unwrap_or(Er::Prefix))) {
					vfail!("device, {plan:02X?}: {e}");
				}
			},
		}
	}
	cx.outcome(&plan.0.len());
}

/// A client operation meets the errors, what it leaves is read afterwards.
fn operation(cx: &Cx, op: &Op, plan: &Plan, frag: Frag) {
	let port = VPort::new(cx).frag(frag);
	port.replies(vec![plan.0.clone()]);
	let mut sim = Sim::new(48, plan);
	let mut c = client(&port, 48, 64);
	let got = run(&mut c, op);
	let check = |id: Option<u8>, n: Option<usize>, want: Want, got: &Res| match want {
		Want::Err(e) => vassert!(*got == Err(Er::Io(e)), "{op:?}, {plan:02X?}: {got:02X?} instead of {e:?}"),
		Want::Rx(rx) => {
			if let Err(e) = judge(id, n, &rx, got) {
				vfail!("{op:?}, {plan:02X?}: {e}");
			}
		},
	};
	match op.replies() {
		Replies::Each(w) => {
			vassert!(got.items.len() == w.len(), "{op:?}: {got:02X?}");
			for (k, (id, n)) in w.iter().enumerate() {
				let n = if matches!(op, Op::Transfer(..)) { None } else { Some(*n) };
				check(Some(*id), n, sim.next(false), &got.items[k]);
			}
		},
		Replies::Scan => {
			for g in &got.items {
				check(None, Some(3), sim.next(false), g);
			}
			match sim.next(false) {
				Want::Err(VErr::Timeout) => {},
				_ => vfail!("the scan ended early: {plan:02X?}, {got:02X?}"),
			}
			// Dropping the scan reads on.
			return;
		},
		Replies::None => {},
	}
	for _ in 0..20 {
		let end = sim.done();
		let want = sim.next(false);
		let got = cl_status(&mut c, T);
		match &want {
			Want::Err(e) => {
				vassert!(got == Err(Er::Io(*e)), "after {op:?}, {plan:02X?}: {got:02X?} instead of {e:?}");
				if end {
					break;
				}
			},
			Want::Rx(rx) => {
				if let Err(e) = judge_status(rx, &got) {
					vfail!("after {op:?}, {plan:02X?}: {e}");
				}
			},
		}
	}
	cx.outcome(&got);
}

const ERRS: [VErr; 2] = [VErr::Timeout, VErr::Fault(7)];

/// All sorted choices of `k` interruptions of a stream.
fn cuts(cx: &Cx, len: usize, k: usize) -> Vec<(usize, VErr)> {
	let mut v = vec![];
	let mut at = 0;
	for _ in 0..k {
		at += cx.choose(len + 1 - at);
		v.push((at, *cx.pick(&ERRS)));
	}
	v
}

fn main() {
	let mut r = Runner::new("C12");
	let st = |n: usize| status(3, 0, &(0..n as u8).collect::<Vec<_>>());
	let streams: Vec<(bool, Vec<u8>)> = vec![
		(false, [st(2), status(4, 0x80, &[0xFF, 0xFF, 0xFD])].concat()),
		(false, [vec![0xFF, 0xFF], st(0), st(3)].concat()),
		(false, [bad_crc(st(1)), st(1)].concat()),
		(false, [frame(3, PING, &[]), st(1)].concat()),
		(false, [short_frame(3, 0), st(0), short_frame(3, 2), st(1)].concat()),
		(true, [frame(3, READ, &[1, 2, 3, 4]), frame(3, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD])].concat()),
		(true, [st(1), frame(3, PING, &[])].concat()),
		(true, [frame(3, PING, &[]), st(0), frame(4, PING, &[])].concat()),
		(true, [bad_crc(st(0)), frame(4, PING, &[])].concat()),
		(true, [vec![0xFF, 0xFF, 0xFD, 0xFF], frame(4, 0x44, &[9])].concat()),
	];
	let k = r.by_tier(4usize, 5);
	r.tree("raw reads with interruptions", None, |cx| {
		let (dev, s) = cx.pick(&streams);
		let c = cuts(cx, s.len(), k);
		let plan = Plan::new(s, &c);
		raw(cx, &plan, 48, Frag::All, *dev);
		cx.sample(|| format!("{plan:02X?}"));
	});
	let k = r.by_tier(3usize, 4);
	r.tree("raw reads with interruptions, small buffers and reads", None, |cx| {
		let (dev, s) = cx.pick(&streams);
		let c = cuts(cx, s.len(), k);
		let plan = Plan::new(s, &c);
		for frag in [Frag::Max(1), Frag::Max(3), Frag::Max(8), Frag::Max(11)] {
			raw(cx, &plan, 18, frag, *dev);
			raw(cx, &plan, 48, frag, *dev);
		}
	});
	r.tree("interruptions under bounded fragmentation", Some(r.by_tier(2, 3)), |cx| {
		let (dev, s) = cx.pick(&streams);
		let c = cuts(cx, s.len(), 2);
		raw(cx, &Plan::new(s, &c), 20, Frag::Choose, *dev);
	});
	// An error between all bytes.
	r.tree("an error after every byte", None, |cx| {
		let (dev, s) = cx.pick(&streams);
		let step = 1 + cx.choose(12);
		let off = cx.choose(step);
		let e = *cx.pick(&ERRS);
		let rep = 1 + cx.choose(4);
		let c: Vec<(usize, VErr)> = (0..=s.len()).filter(|x| x % step == off).flat_map(|x| vec![(x, e); rep]).collect();
		raw(cx, &Plan::new(s, &c), 48, Frag::All, *dev);
		raw(cx, &Plan::new(s, &c), 18, Frag::Max(2), *dev);
	});
	r.tree("decoded reads of a device", None, |cx| {
		let s = [frame(3, READ, &[1, 2, 3, 4]), st(2), frame(3, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD]), frame(4, 0x44, &[9])].concat();
		let c = cuts(cx, s.len(), 2);
		let plan = Plan::new(&s, &c);
		for frag in [Frag::All, Frag::Max(4)] {
			decoded(cx, &plan, frag, false);
			decoded(cx, &plan, frag, true);
		}
	});
	let mut ops = representative_ops();
	ops.push(Op::SyncReadBytes(vec![3, 1, 5], 0, 3, Via::Iter));
	ops.push(Op::BulkRead(vec![(3, 0x0102, 2), (1, 0x0304, 4)], Via::BorrowCtor));
	r.tree("operations with interruptions", None, |cx| {
		let op = cx.pick(&ops);
		let mut s = op.good_replies().concat();
		s.extend_from_slice(&status(9, 0, &[4, 4]));
		let c = cuts(cx, s.len(), 2);
		let plan = Plan::new(&s, &c);
		operation(cx, op, &plan, Frag::All);
		operation(cx, op, &plan, Frag::Max(5));
	});
	// Frames of any size, interrupted at any place.
	let sizes = [20usize, 50, 120, 127, 128, 129, 250, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4000, 4096, 4100, 10_000, 32_768, 40_000, 65_000];
	let step = r.by_tier(97usize, 13);
	r.sweep("long frames with interruptions", sizes.len() as u64 * 2 * 2 * 2 * 2500, |i, cx| {
		let mut ix = Ix(i);
		let n = *ix.of(&sizes);
		let dev = ix.take(2) == 1;
		let e = ERRS[ix.take(2)];
		let tight = ix.take(2) == 1;
		let k = ix.0 as usize;
		let data: Vec<u8> = (0..n).map(|k| (k * 31 + k / 256) as u8 & 0x7F).collect();
		let f = if dev { frame(3, WRITE, &data) } else { status(3, 0, &data) };
		// Every place near the ends, the powers of two and the size classes, and places in between.
		let places: &mut dyn Iterator<Item = usize> = &mut (0..=f.len()).filter(|x| x % step == 0 || *x < 14 || f.len() - x < 6 || (x + 3).is_power_of_two() || x.is_power_of_two() || (x + 1).is_power_of_two() || x.wrapping_sub(1).is_power_of_two());
		let Some(at) = places.nth(k) else { return };
		let rest = if dev { frame(4, PING, &[]) } else { status(4, 0, &[7]) };
		let s = [&f[..], &rest].concat();
		let buf = if tight { f.len() } else { 66_000 };
		raw(cx, &Plan::new(&s, &[(at, e)]), buf, if k % 2 == 0 { Frag::All } else { Frag::Max(1 + s.len() / 3) }, dev);
	});
	// The line stays silent for any number of reads.
	r.tree("many errors at one place", None, |cx| {
		let (dev, s) = cx.pick(&streams);
		let at = cx.choose(s.len() + 1);
		let rep = *cx.pick(&[8usize, 9, 16, 17, 50, 129, 300, 3000]);
		let e = *cx.pick(&ERRS);
		let c = vec![(at, e); rep];
		raw(cx, &Plan::new(s, &c), 48, Frag::All, *dev);
		raw(cx, &Plan::new(s, &c), 18, Frag::Max(3), *dev);
	});
	r.tree("many errors after every byte", None, |cx| {
		let (dev, s) = cx.pick(&streams);
		let rep = *cx.pick(&[8usize, 9, 17, 129, 300]);
		let e = *cx.pick(&ERRS);
		let c: Vec<(usize, VErr)> = (0..=s.len()).flat_map(|x| vec![(x, e); rep]).collect();
		raw(cx, &Plan::new(s, &c), 48, Frag::All, *dev);
	});
	r.sweep("very many errors", streams.len() as u64 * 2 * 3, |i, cx| {
		let mut ix = Ix(i);
		let (dev, s) = ix.of(&streams);
		let e = *ix.of(&ERRS);
		let at = [3, 9, s.len() / 2 + 3][ix.take(3)];
		raw(cx, &Plan::new(s, &vec![(at, e); MANY]), 48, Frag::All, *dev);
	});
	// Every frame of a long stream is interrupted.
	r.sweep("long streams with interruptions", streams.len() as u64 * 9, |i, cx| {
		let mut ix = Ix(i);
		let (dev, s) = ix.of(&streams);
		let step = [1usize, 2, 3, 5, 7, 10, 11, 13, 40][ix.take(9)];
		let s = s.repeat(100);
		let c: Vec<(usize, VErr)> = (0..=s.len()).filter(|x| x % step == 0).map(|x| (x, ERRS[x / step % 3 / 2])).collect();
		raw(cx, &Plan::new(&s, &c), 48, Frag::All, *dev);
	});
	r.finish();
}

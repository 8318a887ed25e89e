//! C25: a device ignores replies of other devices on the bus.
use mc::*;

#[derive(Clone, Copy, Debug)]
enum K {
	Ok,
	Err,
	Alert,
	StuffedStatus,
	LongStatus,
	Ping,
	Write,
	Other,
	StuffedWrite,
	BadCount,
	BadCrcStatus,
	BadCrcInst,
	Malformed,
	NoErrorByte,
	Noise,
	TooBig,
	Timeout,
	Fault,
	Zero,
}
use K::*;
const ALL: [K; 19] = [
	Ok, Err, Alert, StuffedStatus, LongStatus, Ping, Write, Other, StuffedWrite, BadCount, BadCrcStatus, BadCrcInst, Malformed, NoErrorByte, Noise, TooBig,
	Timeout, Fault, Zero,
];
const FEW: [K; 9] = [Ok, Err, LongStatus, Ping, StuffedWrite, BadCrcStatus, Noise, Timeout, Zero];
const BUF: usize = 40;

fn input_of(k: K, pos: u8) -> In {
	In::Bytes(match k {
		Ok => status(pos, 0, &[]),
		Err => status(1, 0x07, &[pos]),
		Alert => status(2, 0x80, &[1, 2, pos]),
		StuffedStatus => status(3, 0, &[0xFF, 0xFF, 0xFD, 0x00, pos]),
		LongStatus => status(4, 0, &[pos; BUF - 11]),
		Ping => frame(pos, PING, &[]),
		Write => frame(1, WRITE, &[1, 2, 3, pos]),
		Other => frame(pos, 0x77, &[pos, 0x55]),
		StuffedWrite => frame(BROADCAST, SYNC_WRITE, &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD, pos]),
		BadCount => frame(pos, READ, &[1, 2, 3]),
		BadCrcStatus => bad_crc(status(pos, 0, &[1])),
		BadCrcInst => bad_crc(frame(pos, PING, &[])),
		Malformed => short_frame(pos, 2),
		NoErrorByte => frame_raw(pos, &[STATUS]),
		Noise => vec![0xFF, 0xFF, 0xFD, pos | 1, 0xFF],
		TooBig => status(pos, 0, &[9; 100]),
		Timeout => return In::Err(VErr::Timeout),
		Fault => return In::Err(VErr::Fault(pos as u32)),
		Zero => return In::Zero,
	})
}

fn expected(r: &mut RefPort) -> Got {
	loop {
		match r.next() {
			Got::Rx(Rx::Packet { inst: STATUS, .. }) => continue,
			x => return x,
		}
	}
}

/// One call in the given form, compared with the reference; returns whether it reported a timeout.
fn call(cx: &Cx, port: &VPort, d: &mut D, r: &mut RefPort, form: usize, timeout: Duration) -> bool {
	port.take_log();
	let want = expected(r);
	let e: Result<(), String> = match form {
		0 => {
			let got = dev_raw(d, timeout);
			cx.outcome(&got);
			match &want {
				Got::Rx(rx) => judge_instruction(rx, &got),
				Got::Io(e) if got == Result::Err(Er::Io(*e)) => Result::Ok(()),
				_ => Result::Err(format!("got {got:02X?}, expected {want:02X?}")),
			}
		},
		_ => {
			let got = match form {
				1 => d.read(timeout).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(Er::from),
				_ => d.read_owned(timeout).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(Er::from),
			};
			cx.outcome(&got);
			match (&want, &got) {
				(Got::Rx(Rx::Packet { id, inst, params }), g) => match (Ins::decode(*inst, params), g) {
					(Some(w), Result::Ok((i, x))) if i == id && *x == w => Result::Ok(()),
					(None, Result::Err(Er::Count { .. })) => Result::Ok(()),
					(w, g) => Result::Err(format!("got {g:02X?}, expected {w:02X?} for {id}")),
				},
				(Got::Rx(rx), Result::Err(e)) => judge(None, None, rx, &Result::Err(e.clone())),
				(Got::Io(e), Result::Err(Er::Io(x))) if e == x => Result::Ok(()),
				(w, g) => Result::Err(format!("got {g:02X?}, expected {w:02X?}")),
			}
		},
	};
	if let Result::Err(e) = e {
		vfail!("form {form}: {e}");
	}
	let log = port.take_log();
	let n = log.iter().filter(|e| matches!(e, Ev::Deadline(_))).count();
	vassert!(n == 1, "{n} deadlines were computed for one call");
	let Some(Ev::Deadline(dl)) = log.first() else { vfail!("a call does not start with its deadline: {:?}", log.first()) };
	vassert!(dl.timeout == timeout, "a deadline of {:?} instead of {timeout:?}", dl.timeout);
	for e in &log[1..] {
		match e {
			Ev::Read { deadline, .. } => vassert!(deadline == dl, "a read uses deadline {deadline:?} instead of {dl:?}"),
			e => vfail!("reading an instruction caused {e:?}"),
		}
	}
	matches!(want, Got::Io(VErr::Timeout))
}

fn history(cx: &Cx, frag: Frag, items: &[In], form: impl Fn(usize) -> usize) {
	history_buf(cx, frag, items, form, BUF)
}
fn history_buf(cx: &Cx, frag: Frag, items: &[In], form: impl Fn(usize) -> usize, buf: usize) {
	let port = VPort::new(cx).frag(frag);
	let mut d = device(&port, buf, 16);
	let mut r = RefPort::new(buf, items);
	for i in items {
		port.push(i.clone());
	}
	for k in 0..items.len() + 3 {
		let t = Duration::from_micros(700 + 13 * k as u64);
		let end = call(cx, &port, &mut d, &mut r, form(k), t);
		if end && r.input.is_empty() {
			break;
		}
	}
	vassert!(port.waiting().is_empty(), "input left over");
}

fn main() {
	let mut r = Runner::new("C25");
	r.note("alphabet", format!("{ALL:?}"));
	let n = r.by_tier(5u32, 6);
	r.sweep("sequences", 19u64.pow(n) * 3, |i, cx| {
		let mut ix = Ix(i);
		let f = ix.take(3);
		let items: Vec<In> = (0..n).map(|p| input_of(*ix.of(&ALL), p as u8 + 1)).collect();
		history(cx, Frag::All, &items, |_| f);
	});
	r.sweep("sequences, byte by byte", 19u64.pow(n - 1) * 2, |i, cx| {
		let mut ix = Ix(i);
		let m = [1, 3][ix.take(2)];
		let items: Vec<In> = (0..n - 1).map(|p| input_of(*ix.of(&ALL), p as u8 + 1)).collect();
		history(cx, Frag::Max(m), &items, |k| k % 3);
	});
	let n = r.by_tier(7u32, 8);
	r.sweep("long sequences", 9u64.pow(n), |i, cx| {
		let mut ix = Ix(i);
		let items: Vec<In> = (0..n).map(|p| input_of(*ix.of(&FEW), p as u8 + 1)).collect();
		history(cx, Frag::All, &items, |k| k % 3);
	});
	let k = r.by_tier(3, 4);
	r.tree("sequences x fragmentations", Some(k), |cx| {
		let n = 3;
		let items: Vec<In> = (0..n).map(|p| input_of(*cx.pick(&FEW), p as u8 + 1)).collect();
		history(cx, Frag::ChooseZero(2), &items, |k| k % 3);
	});
	r.tree("small read buffers", Some(1), |cx| {
		let buf = 10 + cx.choose(31);
		let items: Vec<In> = (0..2).map(|p| input_of(*cx.pick(&ALL), p as u8 + 1)).collect();
		history_buf(cx, Frag::Choose, &items, |k| k % 3, buf);
	});
	r.sweep("every timeout is used as given", 4096, |i, cx| {
		let t = match i {
			0 => Duration::ZERO,
			1 => Duration::MAX,
			i => Duration::from_nanos(1 << (i % 63)) + Duration::from_nanos(i),
		};
		let port = VPort::new(cx).baud([9600, 4_000_000, 1][i as usize % 3]);
		let mut d = device(&port, BUF, 16);
		let items = [input_of(Ok, 1), input_of(Alert, 2), input_of(Ping, 3)];
		let mut r = RefPort::new(BUF, &items);
		for i in &items {
			port.push(i.clone());
		}
		for f in 0..3 {
			call(cx, &port, &mut d, &mut r, (f + i as usize) % 3, t);
		}
	});
	r.sweep("statuses of every ID and error byte", 65536, |i, cx| {
		let (id, e) = (i as u8, (i >> 8) as u8);
		let items = [In::Bytes(status(id, e, &[])), In::Bytes(status(id, e, &[id, e, 0x55])), input_of(Write, 3), In::Bytes(status(id, e, &[1]))];
		history(cx, Frag::All, &items, |k| k % 3);
	});
	let max = r.by_tier(40usize, 200);
	r.sweep("many statuses in one read", max as u64 * 20 * 3, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(max);
		let len = ix.take(20);
		let f = ix.take(3);
		let mut v = vec![];
		for k in 0..n {
			v.extend(status(k as u8, 0, &vec![k as u8; len]));
		}
		v.extend(frame(1, PING, &[]));
		v.extend(status(1, 0, &[1, 2, 3]));
		v.extend(frame(2, ACTION, &[]));
		history_buf(cx, Frag::All, &[In::Bytes(v)], |_| f, [64, 4096][n % 2]);
	});
	// Any number of them.
	let big = r.by_tier(200_000usize, 3_000_000);
	r.sweep("very many statuses", 12, |i, cx| {
		let mut ix = Ix(i);
		let f = ix.take(3);
		let n = [big / 16, big / 4, big][ix.take(3)] + ix.take(2);
		let ends = i % 2 == 0;
		let one = status(7, 0x81, &[1, 2]);
		let port = VPort::new(cx).frag(Frag::Items).horizon(u32::MAX);
		let mut d = device(&port, BUF, 16);
		port.take_log();
		let mut left = n;
		port.0.borrow_mut().on_idle = Some(Box::new(move |q| {
			if left > 0 {
				left -= 1;
				q.push_back(In::Bytes(one.clone()));
				if left == 0 && !ends {
					q.push_back(In::Bytes(frame(1, PING, &[])));
				}
			}
		}));
		let t = Duration::from_millis(1);
		let got = match f {
			0 => dev_raw(&mut d, t).map(|x| (x.0, Ins::decode(x.1, &x.2).unwrap())),
			1 => d.read(t).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(Er::from),
			_ => d.read_owned(t).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(Er::from),
		};
		let want = if ends { Result::Err(Er::Io(VErr::Timeout)) } else { Result::Ok((1, Ins::Ping)) };
		vassert!(got == want, "after {n} statuses: {got:02X?} instead of {want:02X?}");
		let log = port.take_log();
		vassert!(log.iter().filter(|e| matches!(e, Ev::Deadline(_))).count() == 1, "more than one deadline");
		let Ev::Deadline(dl) = log[0] else { vfail!("no deadline first") };
		vassert!(
			log[1..].iter().all(|e| matches!(e, Ev::Read { deadline, .. } if *deadline == dl)),
			"a read does not use the deadline of the call, or other I/O took place"
		);
		cx.outcome(&got);
	});
	// A device in a busy place: more statuses and instructions than a small counter can count, over many calls.
	let pieces: Vec<Vec<u8>> = vec![
		[status(1, 0, &[]), status(2, 0x80, &[1, 2]), frame(1, PING, &[])].concat(),
		[status(1, 7, &[0xFF, 0xFF, 0xFD, 0, 1])].concat(),
		[frame(1, 0x77, &[0x55]), status(9, 0, &[4; 20]), status(9, 0, &[4; 20]), frame(2, WRITE, &[1, 2, 3])].concat(),
		[bad_crc(status(1, 0, &[])), status(1, 0, &[3])].concat(),
	];
	r.sweep("long sessions", 9, |i, cx| {
		device_session(cx, &pieces, MANY / 2, [1, 3, 5][i as usize % 3], [Frag::All, Frag::Max(6), Frag::Max(1)][i as usize / 3]);
	});
	r.finish();
}

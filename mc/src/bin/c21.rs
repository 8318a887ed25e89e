//! C21: reply timeouts follow the baud rate and the expected reply size.
use mc::*;

const BAUDS: [u32; 30] = [
	1, 2, 3, 7, 10, 110, 300, 340, 999, 1000, 4800, 9600, 19_200, 57_600, 57_601, 115_200, 222_222, 500_000, 1_000_000, 2_000_000, 3_000_000, 4_000_000,
	4_500_000, 6_000_000, 10_500_000, 999_999_937, 2_147_483_647, 2_147_483_648, 4_294_967_291, 4_294_967_295,
];

fn expected(n: usize, baud: u32) -> u128 {
	reply_timeout_ns(11 + n as u64, baud, 1)
}

/// Split the log of one operation into the reads per deadline; check that all deadlines are made after the write.
fn deadlines(log: &[Ev], ctx: &dyn Fn() -> String) -> Vec<(VInst, usize)> {
	let mut out: Vec<(VInst, usize)> = vec![];
	let mut made: Vec<VInst> = vec![];
	let mut written = !log.iter().any(|e| matches!(e, Ev::Write(..)));
	for e in log {
		match e {
			Ev::Write(..) => {
				vassert!(made.is_empty(), "a deadline is determined before the instruction is written; {}", ctx());
				written = true
			},
			Ev::Deadline(d) => {
				vassert!(written, "a deadline is determined before the instruction is written; {}", ctx());
				made.push(*d)
			},
			Ev::Read { deadline, .. } => {
				vassert!(made.contains(deadline), "a read with a deadline of an earlier operation; {}", ctx());
				match out.last_mut() {
					Some((d, n)) if d == deadline => *n += 1,
					_ => {
						vassert!(!out.iter().any(|(d, _)| d == deadline), "reads go back to an earlier deadline; {}", ctx());
						out.push((*deadline, 1))
					},
				}
			},
			_ => {},
		}
	}
	out
}

/// All motors silent, or answering at one byte per read: exactly one deadline per reply, with the right timeout.
fn check(cx: &Cx, op: &Op, baud: u32, answer: bool, frag: Frag, take: usize) {
	let port = VPort::new(cx).baud(baud).frag(frag).horizon(1_000_000);
	let mut c = client(&port, 600, 600);
	one(&port, &mut c, op, baud, answer, take);
}
fn one(port: &VPort, c: &mut C, op: &Op, baud: u32, answer: bool, take: usize) {
	port.take_log();
	port.reply_bytes(if answer { op.good_replies().concat() } else { vec![] });
	let got = run_take(c, op, take);
	let log = port.take_log();
	let ctx = || format!("{op:?} at {baud} baud, {}answered: {got:02X?}, port {log:02X?}", if answer { "" } else { "not " });
	vassert!(got.write.is_ok(), "{}", ctx());
	let d = deadlines(&log, &ctx);
	match op.replies() {
		Replies::None => vassert!(d.is_empty(), "{}", ctx()),
		Replies::Each(w) => {
			vassert!(d.len() == w.len(), "{} deadlines for {} replies; {}", d.len(), w.len(), ctx());
			for ((d, _), (id, n)) in d.iter().zip(&w) {
				let e = expected(*n, baud);
				vassert!(
					d.timeout.as_nanos() == e,
					"the timeout for {n} parameters of motor {id} is {} ns instead of {e} ns; {}",
					d.timeout.as_nanos(),
					ctx()
				);
			}
		},
		Replies::Scan => {
			let lo = reply_timeout_ns(14 * 253, baud, 1);
			let hi = reply_timeout_ns(14, baud, 253);
			vassert!(!d.is_empty(), "{}", ctx());
			for (d, _) in d {
				let t = d.timeout.as_nanos();
				vassert!(t >= lo && t <= hi, "the timeout of a scan is {t} ns instead of {lo}..{hi} ns; {}", ctx());
			}
		},
	}
}

fn main() {
	let mut r = Runner::new("C21");
	r.assume("whether the transfer time of a scan is rounded up once or for each of the 253 replies is left open");
	let ops = representative_ops();
	let frags = [Frag::All, Frag::Max(1), Frag::Max(3), Frag::Items];
	r.sweep("every operation at every baud rate of a list", (ops.len() * 30 * 2 * 4 * 4) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let baud = *ix.of(&BAUDS);
		let answer = ix.take(2) == 1;
		let frag = *ix.of(&frags);
		let take = ix.take(4);
		// With several replies in one read, reads and replies do not correspond.
		if answer && op.is_multi() && frag != Frag::Max(1) {
			return;
		}
		if take < 3 && !op.is_multi() {
			return;
		}
		check(cx, op, baud, answer, frag, if take == 3 { usize::MAX } else { take });
	});
	let silent = silent_ops();
	r.sweep("operations without reply", silent.len() as u64, |i, cx| check(cx, &silent[i as usize], 57_600, false, Frag::All, 9));
	r.sweep("every size", 65536 * 30 * 2, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(65536) as u16;
		let baud = *ix.of(&BAUDS);
		let op = match ix.take(2) {
			0 => Op::ReadVec(3, 9, n),
			_ => match n % 4 {
				0 => Op::SyncReadBytes(vec![3, 4], 9, n, Via::Next),
				1 => Op::BulkRead(vec![(3, 9, n), (4, 9, !n)], Via::Next),
				2 => Op::ReadSlice(3, 9, n),
				_ => Op::Transfer(3, READ, vec![1], n),
			},
		};
		check(cx, &op, baud, false, Frag::All, (n % 3) as usize);
	});
	let types = [&Ty::ALL[..], &Ty::LARGE].concat();
	r.sweep("every type", types.len() as u64 * 30 * 4, |i, cx| {
		let mut ix = Ix(i);
		let t = *ix.of(&types);
		let baud = *ix.of(&BAUDS);
		let op = match ix.take(4) {
			0 => Op::Read(3, 9, t),
			1 => Op::SyncRead(vec![3, 4, 5], 9, t, Via::Next),
			2 => Op::SyncRead(vec![3, 4, 5], 9, t, Via::Iter),
			_ => Op::Write(3, 9, t, vec![1; t.size()]),
		};
		check(cx, &op, baud, false, Frag::All, (i % 5) as usize);
	});
	let n_baud = r.by_tier(40_000_000u64, 800_000_000);
	r.sweep("every baud rate up to a limit", n_baud, |i, cx| {
		let baud = i as u32 + 1;
		let port = VPort::new(cx).baud(baud);
		let mut c = client(&port, 16, 16);
		for n in [0u16, 4, 255] {
			port.take_log();
			vassert!(c.read_status_response(n).is_err(), "a reply out of nothing");
			let log = port.take_log();
			let [Ev::Deadline(a), Ev::Read { deadline, .. }] = log[..] else { vfail!("reading a status packet: {log:?}") };
			vassert!(a == deadline && a.timeout.as_nanos() == expected(n as usize, baud), "{n} parameters at {baud} baud: {a:?}");
		}
	});
	r.sweep("every high baud rate with stride", 1_000_000, |i, cx| {
		let baud = u32::MAX - (i as u32 * 4293) % u32::MAX;
		let port = VPort::new(cx).baud(baud);
		let mut c = client(&port, 16, 16);
		let n = (i % 65536) as u16;
		c.read_status_response(n).ok();
		let log = port.take_log();
		let Some(Ev::Deadline(a)) = log.iter().find(|e| matches!(e, Ev::Deadline(_))) else { vfail!("{log:?}") };
		vassert!(a.timeout.as_nanos() == expected(n as usize, baud), "{n} parameters at {baud} baud: {a:?}");
	});
	// Explicit timeouts.
	let times: Vec<Duration> = [0u64, 1, 999, 1_000_000, 33_999_999, 34_000_000, 34_000_001, 1_000_000_000, 123_456_789_012, u32::MAX as u64 + 1, 1 << 62]
		.into_iter()
		.map(Duration::from_nanos)
		.chain([Duration::from_secs(3_000_000_000), Duration::new(1, 999_999_999)])
		.collect();
	r.sweep("explicit timeouts", (times.len() * 30 * 5 * 6) as u64, |i, cx| {
		let mut ix = Ix(i);
		let t = *ix.of(&times);
		let baud = *ix.of(&BAUDS);
		let how = ix.take(5);
		let line = ix.take(6);
		let port = VPort::new(cx).baud(baud).frag([Frag::All, Frag::Max(1)][line % 2]);
		let mut input = vec![];
		if how > 0 {
			// Status packets for others come first.
			for _ in 0..line / 2 {
				input.extend(status(9, 0, &[1, 2]));
			}
		}
		if line != 1 {
			input.extend(if how == 0 { status(3, 0, &[1, 2]) } else { frame(3, READ, &[1, 0, 2, 0]) });
		} else {
			input.extend([0, 1, 0xFF]);
		}
		let mut d;
		let mut c;
		match how {
			0 => {
				c = client(&port, 64, 64);
				port.feed(&input);
				c.read_status_response_timeout(t).ok();
			},
			h => {
				d = device(&port, 64, 64);
				port.feed(&input);
				match h {
					1 => drop(d.read(t)),
					2 => drop(d.read_owned(t)),
					3 => drop(d.read_raw_instruction_timeout(t).map(|_| ())),
					_ => drop(d.read(t).map(|_| ())),
				}
			},
		}
		let log = port.take_log();
		let made: Vec<&Ev> = log.iter().filter(|e| matches!(e, Ev::Deadline(_))).collect();
		vassert!(made.len() == 1, "{} deadlines for one explicit timeout {t:?} (how {how}, line {line}): {log:?}", made.len());
		let Ev::Deadline(a) = made[0] else { unreachable!() };
		vassert!(a.timeout == t, "the timeout {t:?} became {:?}", a.timeout);
		for e in &log {
			if let Ev::Read { deadline, .. } = e {
				vassert!(deadline == a, "a read with another deadline: {log:?}");
			}
		}
	});
	// All fragmentations of a reply: one deadline for all reads.
	r.tree("fragmentation", Some(r.by_tier(4usize, 5)), |cx| {
		let op = cx.pick(&ops);
		if op.is_multi() {
			return;
		}
		check(cx, op, 57_600, true, Frag::ChooseZero(2), 9);
	});
	// Changing the baud rate (successfully or not) between commands.
	let few = [Op::Ping(3), Op::ReadVec(3, 0, 40), Op::Scan, Op::SyncReadBytes(vec![3, 1], 0, 7, Via::Next), Op::Action(3)];
	let depth = r.by_tier(3usize, 4);
	r.tree("histories of baud rates", None, |cx| {
		let port = VPort::new(cx).baud(9600);
		let mut c = client(&port, 64, 64);
		let mut baud = 9600;
		for _ in 0..depth {
			let b = *cx.pick(&[0u32, 300, 115_200, 4_000_000, 4_294_967_295]);
			if b > 0 {
				let fail = cx.flag();
				port.0.borrow_mut().fail_set_baud = if fail { Some(VErr::Fault(1)) } else { None };
				let r = c.set_baud_rate(b);
				vassert!(r == if fail { Err(VErr::Fault(1)) } else { Ok(()) }, "set_baud_rate: {r:?}");
				if !fail {
					baud = b;
				}
			}
			let op = cx.pick(&few);
			one(&port, &mut c, op, baud, false, cx.choose(2) * 9);
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], TIME);
	});
	r.finish();
}

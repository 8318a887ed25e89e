//! C13: serial port errors are reported as they are and nothing is retried.
use mc::*;

const T: Duration = Duration::from_millis(5);

fn fallible(e: &Ev) -> bool {
	!matches!(e, Ev::Deadline(_))
}
fn failed(e: &Ev) -> Option<VErr> {
	match e {
		Ev::Discard(Err(e)) | Ev::Write(_, Err(e)) | Ev::SetBaud(_, Err(e)) | Ev::Baud(Err(e)) => Some(*e),
		Ev::Read { res: Err(e), .. } => Some(*e),
		_ => None,
	}
}

/// Run the operation with the n-th fallible port call failing; returns whether that call was reached.
fn faulty(what: &str, c: &mut C, port: &VPort, op: &Op, at: u32, err: VErr) -> bool {
	port.reply_bytes(op.good_replies().concat());
	port.take_log();
	port.fault_in(at, err);
	let got = run(c, op);
	port.0.borrow_mut().fault_at = None;
	let log: Vec<Ev> = port.take_log().into_iter().filter(fallible).collect();
	let f = op.tx_frame();
	let ctx = || format!("{what}: {op:?} with {err:?} at port call {at}: {got:02X?}, port {log:02X?}");
	// Transmitted at most once, and only the promised frame.
	let writes: Vec<&Ev> = log.iter().filter(|e| matches!(e, Ev::Write(..))).collect();
	vassert!(writes.len() <= 1, "more than one write; {}", ctx());
	vassert!(writes.iter().all(|e| matches!(e, Ev::Write(b, _) if *b == f)), "something else was written; {}", ctx());
	vassert!(log.iter().filter(|e| matches!(e, Ev::Discard(_))).count() <= 1, "discarded more than once; {}", ctx());
	let Some(pos) = log.iter().position(|e| failed(e) == Some(err)) else {
		// Not reached: a scan still ends with a timeout.
		vassert!(got.all_ok(&op.good_items()), "without a fault; {}", ctx());
		return false;
	};
	if log.len() <= at as usize && *op != Op::Scan {
		vfail!("the fault was not consumed; {}", ctx());
	}
	match &log[pos] {
		Ev::Discard(_) => {
			vassert!(got.write == Err(Er::Discard(err)) && got.items.is_empty(), "not reported as a failure to discard; {}", ctx());
			vassert!(log.len() == pos + 1, "I/O after the failure to discard; {}", ctx());
		},
		Ev::Write(..) => {
			vassert!(got.write == Err(Er::Write(err)) && got.items.is_empty(), "not reported as a failure to write; {}", ctx());
			vassert!(log.len() == pos + 1, "I/O after the failure to write; {}", ctx());
		},
		Ev::Read { .. } => {
			vassert!(got.write.is_ok(), "the write phase is reported as failed; {}", ctx());
			if *op == Op::Scan {
				let n = got.items.iter().filter(|x| **x == Err(Er::Io(err))).count();
				// After the end of the scan, dropping it may read once more.
				let ended = log[..pos].iter().any(|e| matches!(e, Ev::Read { res: Err(VErr::Timeout), .. }));
				vassert!(n == if err == VErr::Timeout || ended { 0 } else { 1 }, "a failed read in a scan; {}", ctx());
				if err != VErr::Timeout {
					let ok: Vec<Item> = got.items.iter().flatten().cloned().collect();
					vassert!(ok == op.good_items(), "other items of the scan; {}", ctx());
				}
			} else {
				vassert!(got.items.iter().filter(|x| **x == Err(Er::Io(err))).count() >= 1, "not reported as a failed read; {}", ctx());
				if !op.is_multi() {
					vassert!(got.one() == Err(Er::Io(err)), "not reported as a failed read; {}", ctx());
					vassert!(log.len() == pos + 1, "I/O after the failed read; {}", ctx());
				} else {
					// Everybody else's result is intact.
					let good = op.good_items();
					let bad = got.items.iter().position(|x| *x == Err(Er::Io(err))).unwrap();
					for (k, i) in got.items.iter().enumerate().take(bad) {
						vassert!(*i == Ok(good[k].clone()), "an earlier result changed; {}", ctx());
					}
					vassert!(got.items.len() == good.len(), "number of results; {}", ctx());
				}
			}
		},
		e => vfail!("unexpected failing call {e:?}; {}", ctx()),
	}
	true
}

fn healthy(c: &mut C, port: &VPort, op: &Op) {
	// Something else is still waiting: replies that look alike.
	for (i, n) in match op.replies() {
		Replies::Each(w) => w,
		_ => vec![(1, 3), (2, 3)],
	} {
		port.feed(&status(i, 0x80, &vec![0xEE; n]));
	}
	port.reply_bytes(op.good_replies().concat());
	port.take_log();
	let got = run(c, op);
	vassert!(got.all_ok(&op.good_items()), "{op:?} after a failure: {got:02X?}");
	vassert!(port.written() == op.tx_frame(), "{op:?} after a failure: transmitted {}", hex(&port.written()));
}

fn device_fault(cx: &Cx, how: usize, at: u32, err: VErr, frag: Frag) {
	let port = VPort::new(cx).frag(frag);
	let mut d = device(&port, 32, 32);
	let f = frame(3, READ, &[1, 0, 4, 0]);
	let s = status(3, 0x80, &[1, 0xFF, 0xFF, 0xFD]);
	if how < 3 {
		port.feed(&status(7, 0, &[1]));
		port.feed(&f);
	}
	port.take_log();
	port.fault_in(at, err);
	let mut read = |how: usize| -> Result<(), Er> {
		match how {
			0 => dev_raw(&mut d, T).map(|x| vassert!(x == (3, READ, vec![1, 0, 4, 0]), "{x:?}")),
			1 => d.read(T).map(|x| vassert!(x.id == 3, "{x:?}")).map_err(Er::from),
			2 => d.read_owned(T).map(|x| vassert!(x.id == 3, "{x:?}")).map_err(Er::from),
			3 => d
				.write_status(3, 0x80, 4, |b| {
					b.copy_from_slice(&[1, 0xFF, 0xFF, 0xFD]);
					Ok(())
				})
				.map_err(Er::from),
			4 => d.write_status_ok(3).map_err(Er::from),
			_ => d.write_status_error(3, 9).map_err(Er::from),
		}
	};
	let want = match how {
		3 => s,
		4 => status(3, 0, &[]),
		5 => status(3, 9, &[]),
		_ => vec![],
	};
	let got = read(how);
	port.0.borrow_mut().fault_at = None;
	let log: Vec<Ev> = port.take_log().into_iter().filter(fallible).collect();
	match log.iter().position(|e| failed(e) == Some(err)) {
		None => vassert!(got == Ok(()) && log.len() <= at as usize, "device without fault: {got:?}"),
		Some(pos) => {
			vassert!(log.len() == pos + 1, "device: I/O after a failure: {log:02X?}");
			let w = match &log[pos] {
				Ev::Discard(_) => Er::Discard(err),
				Ev::Write(..) => Er::Write(err),
				_ => Er::Io(err),
			};
			vassert!(got == Err(w.clone()), "device: {got:?} instead of {w:?}");
			// Works again.
			let again = read(how);
			vassert!(again == Ok(()), "device after a failure: {again:?}");
		},
	}
	if how >= 3 {
		vassert!(log.iter().all(|e| !matches!(e, Ev::Write(b, _) if *b != want)), "device: wrote something else");
		if got.is_err() {
			vassert!(port.written() == want, "device: wrote {} after a failure", hex(&port.written()));
		}
	}
	cx.outcome(&got);
}

fn main() {
	let mut r = Runner::new("C13");
	let mut ops = representative_ops();
	ops.extend(silent_ops());
	for via in [Via::Iter, Via::Borrow, Via::BorrowCtor] {
		ops.push(Op::SyncReadBytes(vec![3, 1, 7], 0, 2, via));
		ops.push(Op::BulkRead(vec![(3, 0, 2), (1, 0, 2), (7, 0, 1)], via));
	}
	ops.push(Op::SyncRead(vec![3, 1, 7], 0, Ty::A3, Via::Iter));
	let errs = [VErr::Fault(5), VErr::Timeout];
	let frags = [Frag::All, Frag::Max(5), Frag::Max(1)];
	r.sweep("a fault at every call, then every operation", (ops.len() * ops.len() * 45 * 2 * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let frag = *ix.of(&frags);
		let err = *ix.of(&errs);
		let at = ix.take(45) as u32;
		let op = ix.of(&ops);
		let next = ix.of(&ops);
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, 64, 64);
		let hit = faulty("fresh client", &mut c, &port, op, at, err);
		cx.outcome(&hit);
		healthy(&mut c, &port, next);
		healthy(&mut c, &port, op);
	});
	// Whatever comes back, the instruction is transmitted once.
	let kinds = ODD_ANSWERS;
	r.sweep("every command, whatever is received", (ops.len() * kinds * kinds * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let frag = *ix.of(&frags);
		let first = ix.take(kinds);
		let second = ix.take(kinds);
		let op = ix.of(&ops);
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, 64, 64);
		// A second transmission would get the second answer.
		port.replies(vec![odd_answer(op, first), odd_answer(op, second), odd_answer(op, 1)]);
		port.take_log();
		let got = run(&mut c, op);
		let log = port.take_log();
		let f = op.tx_frame();
		let sent = log.iter().filter(|e| matches!(e, Ev::Write(..))).count();
		vassert!(sent == 1 && written(&log) == f, "{op:?}, answered with kind {first}: {sent} packets transmitted: {}", hex(&written(&log)));
		vassert!(log.iter().filter(|e| matches!(e, Ev::Discard(_))).count() <= 1, "{op:?}, answered with kind {first}: input discarded more than once");
		cx.outcome(&got);
		if second == 1 {
			healthy(&mut c, &port, op);
		}
	});
	let few: Vec<Op> = vec![
		Op::Ping(3),
		Op::ReadVec(3, 0, 4),
		Op::WriteBytes(3, 0, vec![1]),
		Op::SyncReadBytes(vec![3, 1], 0, 2, Via::Next),
		Op::SyncWrite(0, Ty::U8, vec![(1, vec![2])]),
		Op::Scan,
		Op::BcAction,
	];
	let k = r.by_tier(4usize, 5);
	r.tree("histories with a fault in each command", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		for _ in 0..k {
			let op = cx.pick(&few);
			let at = cx.choose(5) as u32;
			let err = *cx.pick(&errs);
			faulty("history", &mut c, &port, op, at, err);
		}
		healthy(&mut c, &port, &Op::Ping(3));
		cx.sample(|| "history".into());
	});
	r.sweep("device", 6 * 60 * 2 * 3, |i, cx| {
		let mut ix = Ix(i);
		let how = ix.take(6);
		let at = ix.take(60) as u32;
		device_fault(cx, how, at, *ix.of(&errs), *ix.of(&frags));
	});
	// A broken port stays broken: every operation reports it, and never writes after a failed discard.
	r.sweep("permanently failing ports", (ops.len() * 3 * 2 * ops.len()) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let kind = ix.take(3);
		let err = *ix.of(&errs);
		let next = ix.of(&ops);
		if kind == 2 && *op == Op::Scan {
			return;
		}
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		port.take_log();
		{
			let mut p = port.0.borrow_mut();
			match kind {
				0 => p.fail_discard = Some(err),
				1 => p.fail_write = Some(err),
				_ => p.fail_reads = Some(err),
			}
		}
		port.reply_bytes(op.good_replies().concat());
		let got = run(&mut c, op);
		let log: Vec<Ev> = port.take_log().into_iter().filter(fallible).collect();
		match kind {
			0 => vassert!(got.write == Err(Er::Discard(err)) && log.len() == 1, "{op:?}: {got:?}, {log:?}"),
			1 => vassert!(got.write == Err(Er::Write(err)) && log.len() == 2, "{op:?}: {got:?}, {log:?}"),
			_ => {
				vassert!(got.write.is_ok(), "{op:?}: {got:?}");
				match op.replies() {
					Replies::None => vassert!(log.len() == 2, "{op:?}: {log:?}"),
					Replies::Each(w) => {
						vassert!(got.items == vec![Err(Er::Io(err)); w.len()], "{op:?}: {got:?}");
						vassert!(log.len() == 2 + w.len(), "{op:?}: {log:?}");
					},
					Replies::Scan => {},
				}
			},
		}
		{
			let mut p = port.0.borrow_mut();
			p.fail_discard = None;
			p.fail_write = None;
			p.fail_reads = None;
		}
		healthy(&mut c, &port, next);
		cx.outcome(&got);
	});
	r.finish();
}

//! C14: single-motor commands succeed only on the addressed motor's own reply.
use mc::*;

const N_KIND: usize = 37;

/// Every kind of single-motor command, for a motor.
fn kind(k: usize, id: u8) -> Op {
	let v = |n: usize| -> Vec<u8> { (0..n).map(|i| 0x40 + i as u8).collect() };
	match k {
		0 => Op::Ping(id),
		1..=15 => Op::Read(id, 0x0102, Ty::ALL[k - 1]),
		16 => Op::ReadVec(id, 0x0102, 0),
		17 => Op::ReadVec(id, 0x0102, 1),
		18 => Op::ReadVec(id, 0x0102, 5),
		19 => Op::ReadSlice(id, 0x0102, 3),
		20 => Op::ReadSlice(id, 0x0102, 0),
		21 => Op::Write(id, 0x0102, Ty::U32, v(4)),
		22 => Op::WriteBytes(id, 0x0102, v(3)),
		23 => Op::RegWrite(id, 0x0102, Ty::U16, v(2)),
		24 => Op::RegWriteBytes(id, 0x0102, v(5)),
		25 => Op::Action(id),
		26 => Op::Reboot(id),
		27 => Op::FactoryReset(id, 0xFF),
		28 => Op::FactoryReset(id, 1),
		29 => Op::FactoryReset(id, 2),
		30 => Op::ClearRev(id),
		31 => Op::ClearErr(id),
		32 => Op::Write(id, 0x0102, Ty::A0, vec![]),
		33..=35 => Op::Read(id, 0x0102, Ty::ALL[k - 18]),
		_ => Op::Transfer(id, 0x42, v(3), 2),
	}
}
fn asked(op: &Op) -> (u8, usize) {
	match op.replies() {
		Replies::Each(w) => w[0],
		_ => unreachable!(),
	}
}

/// The op receives the first frame; a perfect reply behind it must not change the result.
fn check(cx: &Cx, op: &Op, first: &[u8], rescue: bool, frag: Frag) {
	let port = VPort::new(cx).frag(frag);
	let mut c = client(&port, 64, 64);
	let mut reply = vec![In::Bytes(first.to_vec())];
	if rescue {
		reply.push(In::Bytes(op.good_replies().concat()));
	}
	port.replies(vec![reply]);
	let got = run(&mut c, op);
	vassert!(got.write.is_ok() && got.items.len() == 1, "{op:?}: {got:02X?}");
	let (id, n) = asked(op);
	// transfer_single leaves the number of parameters to the caller.
	let n = if matches!(op, Op::Transfer(..)) { None } else { Some(n) };
	let rx = RefRx::over(64, first).next();
	if let Err(e) = judge(Some(id), n, &rx, &got.items[0]) {
		vfail!("{op:?}, first reply {} ({rx:02X?}): {e}", hex(first));
	}
	cx.outcome(&got.items[0].is_ok());
}

fn main() {
	let mut r = Runner::new("C14");
	r.assume("when several things mismatch in one frame, any of the matching error kinds is accepted");
	r.assume("transfer_single does not promise to check the number of parameters (its documentation leaves that to the caller)");
	// Reply IDs.
	r.sweep("every motor ID times every reply ID", (N_KIND * 256 * 256) as u64, |i, cx| {
		let mut ix = Ix(i);
		let rid = ix.take(256) as u8;
		let id = ix.take(256) as u8;
		let op = kind(ix.take(N_KIND), id);
		if id == BROADCAST {
			return;
		}
		let (_, n) = asked(&op);
		let f = status(rid, 0, &op.reply_data(id, n));
		check(cx, &op, &f, rid != id, Frag::All);
	});
	r.sweep("every instruction ID in the reply", (N_KIND * 256 * 4) as u64, |i, cx| {
		let mut ix = Ix(i);
		let inst = ix.take(256) as u8;
		let op = kind(ix.take(N_KIND), 3);
		let rid = [3u8, 0x55][ix.take(2)];
		let err = [0u8, 0x80][ix.take(2)];
		let (_, n) = asked(&op);
		let mut p = vec![err];
		p.extend(op.reply_data(3, n));
		check(cx, &op, &frame(rid, inst, &p), true, Frag::All);
	});
	let counts = r.by_tier(52usize, 52);
	r.sweep("every number of parameters", (N_KIND * counts * 3 * 3 * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(counts);
		let err = [0u8, 0x80, 0x07][ix.take(3)];
		let rid = [3u8, 4, 0xFE][ix.take(3)];
		let fill = [0u8, 0x31, 0x55][ix.take(3)];
		let op = kind(ix.take(N_KIND), 3);
		check(cx, &op, &status(rid, err, &vec![fill; n]), true, Frag::All);
		check(cx, &op, &status(rid, err, &vec![fill; n]), false, Frag::Max(4));
	});
	r.sweep("every error byte", (N_KIND * 256 * 2 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let err = ix.take(256) as u8;
		let op = kind(ix.take(N_KIND), 7);
		let (_, n) = asked(&op);
		let n = if ix.take(2) == 1 { n } else { n + 1 };
		let rid = [7u8, 8][ix.take(2)];
		check(cx, &op, &status(rid, err, &op.reply_data(7, n)), true, Frag::All);
	});
	// The full product of small sets, with a corrupt or foreign frame also.
	let ids = [1u8, 2, 0, 0xFD, 0xFF, 0x55];
	r.tree("products", None, |cx| {
		let id = *cx.pick(&ids);
		let op = kind(cx.choose(N_KIND), id);
		let rid = *cx.pick(&[1u8, 2, 0, 0xFD, 0xFE, 0xFF, 0x55]);
		let inst = *cx.pick(&[STATUS, PING, READ, 0xFF, 0x42]);
		let err = *cx.pick(&[0u8, 0x80, 0x01, 0x81, 0x7F]);
		let (_, n) = asked(&op);
		let n = match cx.choose(5) {
			0 => n,
			1 => n + 1,
			2 if n > 0 => n - 1,
			3 => 0,
			_ => n * 2 + 1,
		};
		let mut p = vec![err];
		p.extend(op.reply_data(id, n));
		let f = frame(rid, inst, &p);
		let f = match cx.choose(4) {
			0 => f,
			1 => bad_crc(f),
			2 => frame_raw(rid, &[inst]),
			_ => short_frame(rid, 2),
		};
		let frag = [Frag::All, Frag::Max(3), Frag::Items][f.len() % 3];
		check(cx, &op, &f, true, frag);
	});
	// The data, ID and alert bit returned are those of the packet.
	r.sweep("every parameter value", (N_KIND * 256 * 22 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = ix.take(256) as u8;
		let at = ix.take(22);
		let alert = ix.take(2) == 1;
		let id = (i % 253) as u8;
		let op = kind(ix.take(N_KIND), id);
		let (_, n) = asked(&op);
		let mut d = vec![0xFFu8; n];
		if at < n {
			d[at] = b;
		} else if at > n {
			return;
		}
		let f = status(id, if alert { 0x80 } else { 0 }, &d);
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		port.replies(vec![vec![In::Bytes(f)]]);
		let got = run(&mut c, &op);
		vassert!(got.one() == Ok(item(id, alert, &d)), "{op:?}: {got:02X?} instead of {d:02X?}");
	});
	r.sweep("every ping reply", 65536 * 4, |i, cx| {
		let d = [i as u8, (i >> 8) as u8, [0u8, 1, 0x80, 0xFF][(i >> 16) as usize]];
		let port = VPort::new(cx);
		let mut c = client(&port, 32, 32);
		port.replies(vec![vec![In::Bytes(status(9, 0, &d))]]);
		match c.ping(9) {
			Ok(p) => vassert!(
				p.motor_id == 9 && !p.alert && p.data.model == i as u16 && p.data.firmware == d[2],
				"ping reply {d:02X?} decoded as {p:02X?}"
			),
			Err(e) => vfail!("ping reply {d:02X?}: {e:?}"),
		}
	});
	// Large replies.
	r.sweep("large reads", 700 * 5, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(700);
		let d = ix.take(5) as i64 - 2;
		let m = n as i64 + d;
		if m < 0 {
			return;
		}
		let op = Op::ReadVec(3, 0, n as u16);
		let f = status(3, 0, &vec![0x5A; m as usize]);
		let port = VPort::new(cx).frag(Frag::Max(100));
		let mut c = client(&port, 800, 64);
		port.replies(vec![vec![In::Bytes(f.clone()), In::Bytes(op.good_replies().concat())]]);
		let got = run(&mut c, &op);
		if let Err(e) = judge(Some(3), Some(n), &RefRx::over(800, &f).next(), &got.items[0]) {
			vfail!("{op:?}, {m} bytes: {e}");
		}
	});
	// Numbers that agree in some of their bits, and motors that reply far too much.
	let asked_for = [0usize, 1, 2, 3, 4, 8, 16, 100, 128, 255, 256, 257, 259, 300, 400, 511, 512, 513, 520, 768, 1024];
	let most = r.by_tier(1100u64, 2600);
	r.sweep("every number of parameters for every number requested", asked_for.len() as u64 * most * 3 * 3, |i, cx| {
		let mut ix = Ix(i);
		let err = [0u8, 0x80, 3][ix.take(3)];
		let k = ix.take(3);
		let n = *ix.of(&asked_for);
		let m = ix.take(most as usize);
		let op = match k {
			0 => Op::ReadVec(3, 0, n as u16),
			1 => Op::ReadSlice(3, 0, n as u16),
			_ => match Ty::ALL.iter().chain(&Ty::LARGE).find(|t| t.size() == n) {
				Some(t) => Op::Read(3, 0, *t),
				None => return,
			},
		};
		let f = status(3, err, &vec![0x5A; m]);
		let port = VPort::new(cx);
		let mut c = client(&port, 2700, 64);
		port.replies(vec![vec![In::Bytes(f.clone()), In::Bytes(op.good_replies().concat())]]);
		let got = run(&mut c, &op);
		if let Err(e) = judge(Some(3), Some(n), &RefRx::over(2700, &f).next(), &got.items[0]) {
			vfail!("{op:?}, {m} bytes: {e}");
		}
	});
	r.sweep("far too many parameters", (N_KIND as u64) * most * 2, |i, cx| {
		let mut ix = Ix(i);
		let op = kind(ix.take(N_KIND), 3);
		let err = [0u8, 0x80][ix.take(2)];
		let (_, n) = asked(&op);
		let m = ix.take(most as usize);
		let f = status(3, err, &vec![0x5A; m]);
		let port = VPort::new(cx);
		let mut c = client(&port, 2700, 64);
		port.replies(vec![vec![In::Bytes(f.clone()), In::Bytes(op.good_replies().concat())]]);
		let got = run(&mut c, &op);
		let n = if matches!(op, Op::Transfer(..)) { None } else { Some(n) };
		if let Err(e) = judge(Some(3), n, &RefRx::over(2700, &f).next(), &got.items[0]) {
			vfail!("{op:?}, {m} bytes: {e}");
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().filter(|o| !o.is_multi()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], RESULT);
	});
	r.finish();
}

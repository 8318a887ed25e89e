//! C15: error numbers fail a command and the alert bit alone does not.
use dynamixel2::{ReadError, TransferError};
use mc::*;

const T: Duration = Duration::from_millis(5);

fn main() {
	let mut r = Runner::new("C15");
	let mut ops = representative_ops();
	for via in [Via::Next, Via::Iter, Via::Borrow, Via::BorrowCtor] {
		ops.push(Op::SyncReadBytes(vec![3, 1, 7, 9], 0, 2, via));
		ops.push(Op::SyncReadBytes(vec![3, 1], 0, 0, via));
		ops.push(Op::BulkRead(vec![(3, 0, 2), (1, 0, 0), (7, 0, 5)], via));
	}
	for t in Ty::ALL {
		ops.push(Op::Read(3, 0, t));
		ops.push(Op::SyncRead(vec![3, 1, 7], 0, t, Via::Next));
		ops.push(Op::SyncRead(vec![3, 1, 7], 0, t, Via::Iter));
		ops.push(Op::Write(3, 0, t, vec![7; t.size()]));
		ops.push(Op::RegWrite(3, 0, t, vec![7; t.size()]));
	}
	ops.push(Op::FactoryReset(3, 1));
	ops.push(Op::FactoryReset(3, 2));

	// Every error byte at every position of every operation; with full data, without data and with other data.
	r.sweep("every error byte at every position of every operation", (ops.len() * 256 * 4 * 3 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let err = ix.take(256) as u8;
		let op = ix.of(&ops);
		let pos = ix.take(4);
		let len = ix.take(3);
		let other = [0u8, 0x80][ix.take(2)];
		let want: Vec<(Option<u8>, usize)> = match op.replies() {
			Replies::Each(w) => w.iter().map(|x| (Some(x.0), x.1)).collect(),
			Replies::Scan => vec![(None, 3), (None, 3), (None, 3), (None, 3)],
			Replies::None => return,
		};
		if pos >= want.len() {
			return;
		}
		let frames: Vec<Vec<u8>> = want
			.iter()
			.enumerate()
			.map(|(k, (id, n))| {
				let e = if k == pos { err } else { other };
				let n = match len {
					// A motor that refuses a command does not send data.
					0 if k == pos && err & 0x7F != 0 => 0,
					2 if k == pos && err & 0x7F != 0 => n + 2,
					_ => *n,
				};
				let id = id.unwrap_or(20 + k as u8);
				status(id, e, &op.reply_data(id, n))
			})
			.collect();
		let port = VPort::new(cx);
		let mut c = client(&port, 128, 64);
		port.reply_bytes(frames.concat());
		let got = run(&mut c, op);
		vassert!(got.write.is_ok() && got.items.len() == want.len(), "{op:?}: {got:02X?}");
		for (k, f) in frames.iter().enumerate() {
			let e = f[8];
			let id = f[4];
			let expect: Res = if e & 0x7F != 0 { Err(Er::Motor(e)) } else { Ok(item(id, e & 0x80 != 0, &op.reply_data(id, want[k].1))) };
			vassert!(got.items[k] == expect, "{op:?}: reply {k} with error byte {e:02X}: {:02X?} instead of {expect:02X?}", got.items[k]);
		}
		cx.outcome(&got);
		cx.sample(|| format!("{op:?}: {got:02X?}"));
	});
	// ID and error byte together; then also the size.
	let kind = |k: usize, id: u8, n: u16| -> Option<Op> {
		let via = [Via::Next, Via::Iter, Via::Borrow, Via::BorrowCtor];
		Some(match k {
			0 => Op::ReadVec(id, 5, n),
			1 => Op::ReadSlice(id, 5, n),
			2 => Op::Transfer(id, 0x42, vec![1], n),
			3..=6 => Op::SyncReadBytes(vec![id], 5, n, via[k - 3]),
			7..=10 => Op::BulkRead(vec![(id, 5, n)], via[k - 7]),
			11 if n == 3 => Op::Ping(id),
			12..=20 if n == 0 => match k {
				12 => Op::WriteBytes(id, 5, vec![1]),
				13 => Op::RegWriteBytes(id, 5, vec![1]),
				14 => Op::Action(id),
				15 => Op::Reboot(id),
				16 => Op::FactoryReset(id, 0xFF),
				17 => Op::ClearRev(id),
				18 => Op::ClearErr(id),
				19 => Op::Write(id, 5, Ty::U32, vec![1, 2, 3, 4]),
				_ => Op::RegWrite(id, 5, Ty::I8, vec![1]),
			},
			21 | 22 => {
				let t = *Ty::ALL.iter().chain(&Ty::LARGE).rev().find(|t| t.size() == n as usize)?;
				if k == 21 { Op::Read(id, 5, t) } else { Op::SyncRead(vec![id], 5, t, Via::Iter) }
			},
			23 if n == 3 => Op::Scan,
			_ => return None,
		})
	};
	let each = |cx: &Cx, op: &Op, id: u8, err: u8, n: usize| {
		let d: Vec<u8> = if n == 0 { vec![] } else { op.reply_data(id, n) };
		let port = VPort::new(cx);
		let mut c = client(&port, n + 32 + n / 3, 64);
		port.reply_bytes(status(id, err, &d));
		let got = run(&mut c, op);
		let want: Res = if err & 0x7F != 0 { Err(Er::Motor(err)) } else { Ok(item(id, err & 0x80 != 0, &d)) };
		vassert!(got.write.is_ok() && got.items == [want], "{op:?}, {id} replies with error byte {err:02X} and {n} parameters: {got:02X?}");
		cx.outcome(&(err, got.items[0].is_ok()));
	};
	r.sweep("every ID with every error byte", 256 * 256 * 24 * 4, |i, cx| {
		let mut ix = Ix(i);
		let (id, err) = (ix.take(256) as u8, ix.take(256) as u8);
		let k = ix.take(24);
		let n = [0usize, 2, 3, 4][ix.take(4)];
		if id == BROADCAST {
			return;
		}
		if let Some(op) = kind(k, id, n as u16) {
			each(cx, &op, id, err, n);
		}
	});
	// Errors with any amount of data: a motor that reports an error is not held to the number of parameters.
	let most = r.by_tier(600u64, 2100);
	r.sweep("every size with every error byte", most * 256 * 24 * 3, |i, cx| {
		let mut ix = Ix(i);
		let err = ix.take(256) as u8;
		let k = ix.take(24);
		let id = [3u8, 0x80, 0xFC][ix.take(3)];
		let n = ix.take(most as usize);
		if let Some(op) = kind(k, id, n as u16) {
			each(cx, &op, id, err, n);
		}
		if err & 0x7F != 0 {
			if let Some(op) = kind(k, id, 0).or(kind(k, id, 3)) {
				each(cx, &op, id, err, n);
			}
		}
		if k == 0 {
			let port = VPort::new(cx);
			let mut c = client(&port, n + 32, 64);
			let d = vec![0x11u8; n];
			port.feed(&status(id, err, &d));
			let got = cl_status(&mut c, T);
			let want = if err & 0x7F != 0 { Err(Er::Motor(err)) } else { Ok((id, err, d)) };
			vassert!(got == want, "status of {id} with error byte {err:02X} and {n} parameters: {got:02X?}");
		}
	});
	// The fields of the error, and of a raw status packet.
	r.sweep("accessors", 256 * 256 * 2, |i, cx| {
		let mut ix = Ix(i);
		let err = ix.take(256) as u8;
		let id = ix.take(256) as u8;
		let n = ix.take(2) * 3;
		let (number, alert) = (err & 0x7F, err >= 0x80);
		let port = VPort::new(cx);
		let mut c = client(&port, 32, 32);
		port.feed(&status(id, err, &vec![1; n]));
		match c.read_status_response_timeout(T) {
			Ok(s) => vassert!(
				number == 0 && s.error() == err && s.error_number() == 0 && s.alert() == alert && s.packet_id() == id && s.instruction_id() == STATUS && s.parameters().len() == n,
				"status with error byte {err:02X}: {s:?}"
			),
			Err(ReadError::MotorError(m)) => vassert!(number != 0 && m.raw == err && m.error_number() == number && m.alert() == alert, "error byte {err:02X}: {m:?}"),
			Err(e) => vfail!("error byte {err:02X}: {e:?}"),
		}
		port.feed(&status(id, err, &vec![1; n]));
		match c.read_status_response(n as u16) {
			Ok(s) => vassert!(number == 0 && s.alert() == alert, "status with error byte {err:02X}: {s:?}"),
			Err(ReadError::MotorError(m)) => vassert!(number != 0 && m.raw == err && m.error_number() == number && m.alert() == alert, "error byte {err:02X}: {m:?}"),
			Err(e) => vfail!("error byte {err:02X}: {e:?}"),
		}
		if id == BROADCAST {
			return;
		}
		port.reply_bytes(status(id, err, &vec![1; n]));
		match c.transfer_single(id, 7, 0, n as u16, |_| Ok(())) {
			Ok(s) => vassert!(number == 0 && s.alert() == alert, "status with error byte {err:02X}: {s:?}"),
			Err(TransferError::ReadError(ReadError::MotorError(m))) => {
				vassert!(number != 0 && m.raw == err && m.error_number() == number && m.alert() == alert, "error byte {err:02X}: {m:?}")
			},
			Err(e) => vfail!("error byte {err:02X}: {e:?}"),
		}
	});
	// What a device sends is what the client reports.
	r.sweep("from device to client", 256 * 3 * 4, |i, cx| {
		let mut ix = Ix(i);
		let err = ix.take(256) as u8;
		let how = ix.take(3);
		let n = ix.take(4);
		let port = VPort::new(cx);
		let mut d = device(&port, 32, 32);
		let (e, n) = match how {
			0 => {
				d.write_status_error(3, err).unwrap_or_else(|e| vfail!("{e:?}"));
				(err, 0)
			},
			1 => {
				d.write_status_ok(3).unwrap_or_else(|e| vfail!("{e:?}"));
				(0, 0)
			},
			_ => {
				d.write_status(3, err, n, |b| {
					b.fill(0xFE);
					Ok(())
				})
				.unwrap_or_else(|e| vfail!("{e:?}"));
				(err, n)
			},
		};
		let bytes = port.written();
		let port = VPort::new(cx);
		let mut c = client(&port, 32, 32);
		port.reply_bytes(bytes);
		let got = run(&mut c, &Op::ReadVec(3, 0, n as u16)).one();
		let want: Res = if e & 0x7F != 0 { Err(Er::Motor(e)) } else { Ok(item(3, e & 0x80 != 0, &vec![0xFE; n])) };
		vassert!(got == want, "device replied with error byte {e:02X} and {n} parameters, client: {got:02X?}");
		cx.outcome(&got);
	});
	// Histories: an error does not stick.
	let few: Vec<Op> = vec![Op::Ping(3), Op::ReadVec(3, 0, 2), Op::WriteBytes(3, 0, vec![1]), Op::SyncRead(vec![3, 1], 0, Ty::U16, Via::Next), Op::BulkRead(vec![(3, 0, 1)], Via::Next), Op::Scan];
	let bytes = [0u8, 0x80, 0x01, 0x81, 0x7F, 0xFF];
	let k = r.by_tier(4usize, 5);
	r.tree("histories", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		for _ in 0..k {
			let op = cx.pick(&few);
			let e = *cx.pick(&bytes);
			let frames: Vec<Vec<u8>> = op.good_items().iter().map(|x| status(x.id, e, &x.data)).collect();
			port.reply_bytes(frames.concat());
			let got = run(&mut c, op);
			for (g, x) in got.items.iter().zip(op.good_items()) {
				let want: Res = if e & 0x7F != 0 { Err(Er::Motor(e)) } else { Ok(item(x.id, e & 0x80 != 0, &x.data)) };
				vassert!(*g == want, "{op:?} with error byte {e:02X}: {got:02X?}");
			}
			vassert!(got.items.len() == frames.len(), "{op:?}: {got:02X?}");
		}
	});
	r.finish();
}

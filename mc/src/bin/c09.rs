//! C09: a packet that does not fit the transmit buffer is refused cleanly.
use mc::*;

/// The outcome of one transmission attempt, given what must be on the wire if it fits.
fn check(what: &dyn Fn() -> String, port: &VPort, wbuf: usize, frame: &[u8], got: Result<(), Er>) {
	let log = port.take_log();
	if frame.len() <= wbuf {
		vassert!(got == Ok(()), "{}: a frame of {} bytes fits the buffer of {wbuf}, but: {got:?}", what(), frame.len());
		vassert!(written(&log) == frame, "{}: transmitted {} instead of {}", what(), hex(&written(&log)), hex(frame));
		vassert!(log.iter().filter(|e| matches!(e, Ev::Write(..))).count() == 1, "{}: not exactly one write", what());
	} else {
		match got {
			Err(Er::TooSmall { required, total }) => {
				vassert!(required > total, "{}: buffer {wbuf}, frame of {} bytes: required {required}, total {total}", what(), frame.len())
			},
			got => vfail!("{}: a frame of {} bytes does not fit the buffer of {wbuf}, but: {got:?}", what(), frame.len()),
		}
		vassert!(log.is_empty(), "{}: refused, but the serial port was touched: {log:02X?}", what());
	}
}

fn send_client(c: &mut C, id: u8, inst: u8, p: &[u8]) -> Result<(), Er> {
	c.write_instruction(id, inst, p.len(), |b| {
		veq!(b.len(), p.len(), "size of the buffer for the parameters");
		b.copy_from_slice(p);
		Ok(())
	})
	.map_err(Er::from)
}
fn send_device(d: &mut D, id: u8, err: u8, p: &[u8]) -> Result<(), Er> {
	d.write_status(id, err, p.len(), |b| {
		veq!(b.len(), p.len(), "size of the buffer for the parameters");
		b.copy_from_slice(p);
		Ok(())
	})
	.map_err(Er::from)
}

fn client_history(cx: &Cx, wbuf: usize, packets: &[(u8, Vec<u8>)]) {
	let port = VPort::new(cx);
	let mut c = client(&port, 16, wbuf);
	port.take_log();
	for (inst, p) in packets {
		let got = send_client(&mut c, 7, *inst, p);
		cx.outcome(&got);
		let f = frame(7, *inst, p);
		check(&|| format!("write_instruction of {} parameters {}", p.len(), hex(p)), &port, wbuf, &f, got);
	}
}
fn device_history(cx: &Cx, wbuf: usize, packets: &[(u8, Vec<u8>)]) {
	let port = VPort::new(cx);
	let mut d = device(&port, 16, wbuf);
	port.take_log();
	for (err, p) in packets {
		let got = send_device(&mut d, 7, *err, p);
		cx.outcome(&got);
		let f = status(7, *err, p);
		check(&|| format!("write_status of {} parameters {}", p.len(), hex(p)), &port, wbuf, &f, got);
	}
}

fn main() {
	let mut r = Runner::new("C09");
	r.assume("transmit buffers have at least 10 bytes (smaller ones are rejected by a documented panic at construction)");
	// All payloads over the stuffing alphabet and all buffer sizes around their frames.
	let alpha = [0xFFu8, 0xFD, 0x00];
	let max = r.by_tier(11usize, 13);
	let n: u64 = (0..=max as u32).map(|k| 3u64.pow(k)).sum();
	let payload = |mut i: u64| -> Vec<u8> {
		let mut k = 0u32;
		while i >= 3u64.pow(k) {
			i -= 3u64.pow(k);
			k += 1;
		}
		let mut ix = Ix(i);
		(0..k).map(|_| *ix.of(&alpha)).collect()
	};
	r.sweep("all payloads over the alphabet around their boundary", n, |i, cx| {
		let p = payload(i);
		for inst in [0x03u8, 0xFF, 0xFD] {
			let need = frame(7, inst, &p).len();
			for wbuf in (need.saturating_sub(5)).max(10)..=need + 3 {
				client_history(cx, wbuf, &[(inst, p.clone()), (0x01, vec![]), (inst, p.clone())]);
			}
			let need = status(7, inst, &p).len();
			for wbuf in (need.saturating_sub(5)).max(10)..=need + 3 {
				device_history(cx, wbuf, &[(inst, p.clone()), (0, vec![]), (inst, p.clone())]);
			}
		}
	});
	// All buffer sizes times all lengths and fillings.
	let pats: Vec<&[u8]> = vec![&[0xFF], &[0xFD], &[0xFF, 0xFF, 0xFD], &[0x11], &[0xFF, 0xFD], &[0xFF, 0xFF, 0xFF, 0xFD], &[0xFF, 0xFF, 0xFD, 0xFD, 0x00]];
	let top = r.by_tier(700usize, 2500);
	r.sweep("all buffer sizes and lengths", (top * (top + 10) * pats.len()) as u64, |i, cx| {
		let mut ix = Ix(i);
		let wbuf = 10 + ix.take(top);
		let n = ix.take(top + 10);
		let p: Vec<u8> = ix.of(&pats).iter().cycle().take(n).copied().collect();
		client_history(cx, wbuf, &[(0x03, p.clone())]);
		device_history(cx, wbuf, &[(0x00, p)]);
	});
	// One stuffing pattern at every position of a payload that just fits or just does not.
	r.sweep("one pattern at every position", (60 * 60 * 6) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(60);
		let at = ix.take(60);
		let d = ix.take(6);
		if at + 3 > n {
			return;
		}
		let mut p = vec![0x20u8; n];
		p[at..at + 3].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
		let need = frame(7, 3, &p).len();
		client_history(cx, need + d - 3, &[(3, p.clone()), (3, vec![]), (3, p.clone())]);
		let need = status(7, 0, &p).len();
		device_history(cx, need + d - 3, &[(0, p.clone()), (0, vec![0xFF; 0]), (0, p)]);
	});
	// Histories: refused and accepted packets in any order leave no trace in each other.
	let packets: Vec<(u8, Vec<u8>)> = vec![
		(1, vec![]),
		(3, vec![1, 2, 3]),
		(3, vec![0xFF, 0xFF, 0xFD]),
		(3, vec![0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD]),
		(3, vec![9; 12]),
		(3, vec![9; 40]),
		(3, vec![9, 9, 9, 9, 0xFF, 0xFF, 0xFD]),
		(0xFF, vec![0xFF, 0xFD]),
	];
	let k = r.by_tier(5usize, 7);
	r.tree("histories", None, |cx| {
		let wbuf = 10 + cx.choose(14);
		let h: Vec<_> = (0..k).map(|_| cx.pick(&packets).clone()).collect();
		if cx.flag() {
			client_history(cx, wbuf, &h);
		} else {
			device_history(cx, wbuf, &h);
		}
		cx.sample(|| format!("buffer {wbuf}: {h:02X?}"));
	});
	// Every operation with every buffer size around its frame.
	let mut ops = representative_ops();
	ops.extend(silent_ops());
	let stuffy = |n: usize| -> Vec<u8> { [0xFFu8, 0xFF, 0xFD].iter().cycle().take(n).copied().collect() };
	ops.extend(vec![
		Op::Read(3, 0xFFFF, Ty::U8),
		Op::ReadVec(3, 0xFFFF, 0x00FD),
		Op::Write(3, 0xFFFF, Ty::U8, vec![0xFD]),
		Op::Write(3, 0xFFFF, Ty::A5, vec![0xFF; 20]),
		Op::Write(3, 0, Ty::A0, vec![]),
		Op::Write(3, 0, Ty::U128, stuffy(16)),
		Op::Write(3, 0, Ty::A5, stuffy(20)),
		Op::WriteBytes(3, 0xFFFF, stuffy(9)),
		Op::WriteBytes(3, 0, vec![]),
		Op::WriteBytes(3, 0, stuffy(30)),
		Op::RegWrite(3, 0xFFFF, Ty::U64, stuffy(8)),
		Op::RegWrite(3, 0, Ty::A22, stuffy(4)),
		Op::RegWrite(3, 0, Ty::A13, stuffy(6)),
		Op::RegWriteBytes(3, 0, stuffy(12)),
		Op::SyncRead(vec![0xFF, 0xFF, 0xFD], 0, Ty::U16, Via::Next),
		Op::SyncRead(vec![], 0, Ty::U16, Via::Next),
		Op::SyncReadBytes(vec![0xFF, 0xFF, 0xFD, 1], 0, 0xFFFF, Via::Borrow),
		Op::SyncReadBytes((0..40).collect(), 0, 2, Via::BorrowCtor),
		Op::BulkRead(vec![(0xFF, 0xFDFF, 0xFFFF)], Via::Next),
		Op::BulkRead((0..20).map(|i| (i, 7, 2)).collect(), Via::BorrowCtor),
		Op::BulkRead(vec![], Via::Next),
		Op::SyncWrite(0, Ty::U32, (0..8).map(|i| (i, stuffy(4))).collect()),
		Op::SyncWrite(0, Ty::A3, vec![(0xFF, stuffy(6)), (0xFD, stuffy(6))]),
		Op::SyncWrite(0, Ty::U8, vec![]),
		Op::SyncWriteBytes(0, 3, (0..8).map(|i| (i, stuffy(3))).collect()),
		Op::SyncWriteBytes(0xFFFF, 0xFD, vec![(1, vec![0; 0xFD])]),
		Op::BulkWrite((0..8).map(|i| (i, 0xFFFF, stuffy(i as usize))).collect()),
		Op::BulkWrite(vec![]),
		Op::RawWrite(3, 0xFF, vec![0xFF, 0xFD]),
		Op::Transfer(3, 0xFF, stuffy(7), 4),
	]);
	r.sweep("every operation around its boundary", ops.len() as u64 * 16, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let d = ix.take(16);
		let f = op.tx_frame();
		let wbuf = (f.len() + d).saturating_sub(12);
		if wbuf < 10 {
			return;
		}
		for second in [Op::BcAction, op.clone()] {
			let port = VPort::new(cx);
			let mut c = client(&port, 700, wbuf);
			port.take_log();
			for o in [op, &second] {
				let want = o.tx_frame();
				let small = match o.replies() {
					Replies::Each(v) => v.iter().all(|x| x.1 < 600),
					_ => true,
				};
				if small {
					port.reply_bytes(o.good_replies().concat());
				} else {
					port.reply_bytes(vec![]);
				}
				let got = run(&mut c, o);
				if want.len() <= wbuf && small {
					vassert!(got.all_ok(&o.good_items()), "{o:?} with a transmit buffer of {wbuf}: {got:02X?}");
				}
				check(&|| format!("{o:?}"), &port, wbuf, &want, got.write.clone());
				cx.outcome(&got.write);
			}
		}
	});
	// The smallest and every other buffer size, for every operation.
	let top = r.by_tier(400usize, 3000);
	r.sweep("every operation with every buffer size", (ops.len() * top) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let wbuf = 10 + ix.take(top);
		let port = VPort::new(cx);
		let mut c = client(&port, 700, wbuf);
		port.take_log();
		let got = run(&mut c, op);
		check(&|| format!("{op:?}"), &port, wbuf, &op.tx_frame(), got.write.clone());
		cx.outcome(&got.write);
	});
	// Device helpers, and parameters that can not be encoded.
	r.sweep("status helpers", 256 * 4, |i, cx| {
		let mut ix = Ix(i);
		let e = ix.take(256) as u8;
		let wbuf = 10 + ix.take(4);
		let port = VPort::new(cx);
		let mut d = device(&port, 16, wbuf);
		port.take_log();
		let got = d.write_status_error(9, e).map_err(Er::from);
		check(&|| format!("write_status_error({e})"), &port, wbuf, &status(9, e, &[]), got);
		let got = d.write_status_ok(9).map_err(Er::from);
		check(&|| "write_status_ok".into(), &port, wbuf, &status(9, 0, &[]), got);
	});
	r.sweep("parameters that fail to encode", 40 * 2, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(40);
		let dev = ix.take(2) == 1;
		let port = VPort::new(cx);
		let err = || dynamixel2::BufferTooSmallError { required_size: 1234, total_size: n };
		let (mut c, mut d) = (client(&port, 16, 64), device(&port, 16, 64));
		port.take_log();
		let got = if dev {
			d.write_status(5, 0, n, |b| {
				b.fill(0xFF);
				Err(err())
			})
			.map_err(Er::from)
		} else {
			c.write_instruction(5, 3, n, |b| {
				b.fill(0xFF);
				Err(err())
			})
			.map_err(Er::from)
		};
		vassert!(got == Err(Er::TooSmall { required: 1234, total: n }), "error of the encoder: {got:?}");
		vassert!(port.take_log().is_empty(), "the encoder failed but the serial port was touched");
		let p = [1u8, 0xFF, 0xFF, 0xFD];
		let (got, f) = if dev { (send_device(&mut d, 5, 0, &p), status(5, 0, &p)) } else { (send_client(&mut c, 5, 3, &p), frame(5, 3, &p)) };
		check(&|| "packet after a failed encoder".into(), &port, 64, &f, got);
	});
	// Buffers beyond what the length field can express.
	let lens: Vec<usize> = vec![65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000];
	r.sweep("buffers beyond the length field", (lens.len() * 9 * 3 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = *ix.of(&lens);
		let wbuf = [65000usize, 65540, 65541, 65542, 65543, 65544, 65600, 70100, 140000][ix.take(9)];
		let p: Vec<u8> = match ix.take(3) {
			0 => vec![0x11; n],
			1 => {
				let mut v = vec![0x11; n];
				v[n - 3..].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
				v
			},
			_ => vec![0xFF; n],
		};
		let dev = ix.take(2) == 1;
		let port = VPort::new(cx);
		let stuffed = stuff(&if dev { [&[STATUS, 0][..], &p].concat() } else { [&[3u8][..], &p].concat() });
		let fits = stuffed.len() + 2 <= 0xFFFF && stuffed.len() + 9 <= wbuf;
		let got = if dev {
			let mut d = device(&port, 16, wbuf);
			port.take_log();
			send_device(&mut d, 7, 0, &p)
		} else {
			let mut c = client(&port, 16, wbuf);
			port.take_log();
			send_client(&mut c, 7, 3, &p)
		};
		if fits {
			check(&|| format!("{n} parameters"), &port, wbuf, &frame_raw(7, &stuffed), got);
		} else {
			vassert!(matches!(got, Err(Er::TooSmall { required, total }) if required > total), "{n} parameters, buffer {wbuf}: {got:?}");
			vassert!(port.take_log().is_empty(), "{n} parameters, buffer {wbuf}: refused but the port was touched");
		}
	});
	r.finish();
}

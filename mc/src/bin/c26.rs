//! C26: a device's status reply reaches the client unchanged.
use dynamixel2::BufferTooSmallError;
use mc::*;

/// How the device is asked to reply.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
	Status,
	Error,
	Ok,
}

/// Let the device reply; check what is on the wire; returns it.
fn reply(cx: &Cx, d: &mut D, port: &VPort, form: Form, id: u8, err: u8, p: &[u8]) -> Option<Vec<u8>> {
	port.take_log();
	let mut seen = None;
	let res = match form {
		Form::Status => d.write_status(id, err, p.len(), |b| {
			seen = Some(b.len());
			if b.len() == p.len() {
				b.copy_from_slice(p);
			}
			Ok(())
		}),
		Form::Error => d.write_status_error(id, err),
		Form::Ok => d.write_status_ok(id),
	}
	.map_err(Er::from);
	let f = status(id, err, p);
	let size = WBUF.get();
	let log = port.take_log();
	let ctx = || format!("{form:?} {id} {err:02X} {} with a transmit buffer of {size}", hex(p));
	if let Some(n) = seen {
		vassert!(n == p.len(), "{}: the encoder is given {n} bytes for {} parameters", ctx(), p.len());
	}
	cx.outcome(&res.is_ok());
	if f.len() <= size {
		vassert!(res == Ok(()), "{}: {res:?} although the frame of {} bytes fits", ctx(), f.len());
		let w: Vec<&Ev> = log.iter().filter(|e| matches!(e, Ev::Write(..))).collect();
		vassert!(log.iter().all(|e| matches!(e, Ev::Write(..) | Ev::Discard(_))), "{}: other I/O: {log:?}", ctx());
		vassert!(w.len() == 1 && written(&log) == f, "{}: transmitted {} instead of {}", ctx(), hex(&written(&log)), hex(&f));
		Some(f)
	} else {
		match &res {
			Err(Er::TooSmall { required, total }) => {
				vassert!(required > total, "{}: required {required}, total {total}", ctx())
			},
			r => vfail!("{}: {r:?} although the frame of {} bytes does not fit", ctx(), f.len()),
		}
		vassert!(log.is_empty(), "{}: refused, but caused {log:?}", ctx());
		None
	}
}
thread_local! { static WBUF: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
fn dev(cx: &Cx, wbuf: usize) -> (VPort, D) {
	WBUF.set(wbuf);
	let port = VPort::new(cx);
	let d = device(&port, 32, wbuf);
	(port, d)
}

/// What the client makes of the frame, by every way of reading a reply.
fn receive(cx: &Cx, c: &mut C, port: &VPort, f: &[u8], id: u8, err: u8, p: &[u8], frag: Frag) {
	port.set_frag(frag);
	let ctx = || format!("reply {id} {err:02X} {}", hex(p));
	let want: Res = if err & 0x7F != 0 { Err(Er::Motor(err)) } else { Ok(item(id, err & 0x80 != 0, p)) };
	// Raw.
	port.feed(f);
	let got = cl_status(c, Duration::from_millis(1));
	if let Err(e) = judge_status(&Rx::Packet { id, inst: STATUS, params: [&[err], p].concat() }, &got) {
		vfail!("{}: raw: {e}", ctx());
	}
	if got.is_ok() {
		vassert!(got == Ok((id, err, p.to_vec())), "{}: raw {got:02X?}", ctx());
	}
	vassert!(port.waiting().is_empty(), "{}: input left over", ctx());
	if id == BROADCAST {
		return;
	}
	let n = p.len() as u16;
	let mut ops = vec![Op::Transfer(id, 0x42, vec![], n), Op::ReadVec(id, 5, n), Op::ReadSlice(id, 5, n)];
	ops.push(Op::SyncReadBytes(vec![id], 5, n, Via::Next));
	ops.push(Op::BulkRead(vec![(id, 5, n)], Via::Next));
	match n {
		0 => ops.extend([Op::WriteBytes(id, 1, vec![3]), Op::Action(id), Op::Reboot(id), Op::FactoryReset(id, 1), Op::ClearRev(id), Op::Read(id, 0, Ty::A0)]),
		2 => ops.extend([Op::Read(id, 0, Ty::U16), Op::SyncRead(vec![id], 0, Ty::U16, Via::Iter)]),
		3 => ops.push(Op::Ping(id)),
		4 => ops.extend([Op::Read(id, 0, Ty::U32), Op::Read(id, 0, Ty::A22)]),
		8 => ops.push(Op::Read(id, 0, Ty::I64)),
		_ => {},
	}
	for op in &ops {
		port.reply_bytes(f.to_vec());
		let ran = run(c, op);
		let got = ran.one();
		vassert!(got == want, "{} obtained with {op:?}: {got:02X?} instead of {want:02X?}", ctx());
		vassert!(port.waiting().is_empty(), "{}: input left over after {op:?}", ctx());
	}
	cx.outcome(&want);
}

fn both(cx: &Cx, form: Form, id: u8, err: u8, p: &[u8], frag: Frag) {
	let size = 400.max(p.len() * 4 / 3 + 20);
	let (dp, mut d) = dev(cx, size);
	let f = reply(cx, &mut d, &dp, form, id, err, p).unwrap();
	let cp = VPort::new(cx);
	let mut c = client(&cp, size, 64);
	receive(cx, &mut c, &cp, &f, id, err, p, frag);
}

const AL: [u8; 4] = [0xFF, 0xFD, 0x00, 0x55];
fn critical(ix: &mut Ix) -> Vec<u8> {
	let mut n = 0;
	while ix.0 >= 4u64.pow(n) {
		ix.0 -= 4u64.pow(n);
		n += 1;
	}
	(0..n).map(|_| *ix.of(&AL)).collect()
}
fn n_critical(k: u32) -> u64 {
	(0..=k).map(|n| 4u64.pow(n)).sum()
}

fn main() {
	let mut r = Runner::new("C26");
	r.assume("write buffers have the documented minimum of 10 bytes");
	r.sweep("every packet ID and error byte", 65536 * 4, |i, cx| {
		let mut ix = Ix(i);
		let (id, err) = (ix.take(256) as u8, ix.take(256) as u8);
		match ix.take(4) {
			0 => both(cx, Form::Error, id, err, &[], Frag::All),
			1 => both(cx, Form::Status, id, err, &[err, 0xFF, id], Frag::All),
			2 => both(cx, Form::Status, id, err, &[0xFF, 0xFD], Frag::All),
			_ => {
				if err == 0 {
					both(cx, Form::Ok, id, 0, &[], Frag::All)
				}
			},
		}
	});
	// Size, ID and error byte together.
	let sizes: Vec<usize> = (0..=r.by_tier(600, 2100)).chain([1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]).collect();
	let ids: &[u8] = &[0, 1, 0x7F, 0x80, 0xFC, 0xFD, 0xFE, 0xFF];
	r.sweep("every error byte with every size", (sizes.len() * 256 * ids.len()) as u64, |i, cx| {
		let mut ix = Ix(i);
		let err = ix.take(256) as u8;
		let id = *ix.of(ids);
		let n = *ix.of(&sizes);
		let p: Vec<u8> = (0..n).map(|k| if err & 1 == 0 { (k * 3 + 1) as u8 } else { [0xFF, 0xFF, 0xFD, 0x55, 0x00][k % 5] }).collect();
		both(cx, Form::Status, id, err, &p, Frag::All);
	});
	let k = r.by_tier(10u32, 12);
	r.sweep("contents over the critical alphabet", 3 * n_critical(k), |i, cx| {
		let mut ix = Ix(i);
		let err = [0u8, 0x80, 0xFF][ix.take(3)];
		let p = critical(&mut ix);
		both(cx, Form::Status, 0xFD, err, &p, Frag::All);
	});
	r.sweep("every three parameters", 1 << 24, |i, cx| {
		both(cx, Form::Status, 9, 0x80, &[i as u8, (i >> 8) as u8, (i >> 16) as u8], Frag::All);
	});
	r.sweep("transmit buffer sizes", 40 * 3 * n_critical(6), |i, cx| {
		let mut ix = Ix(i);
		let size = 10 + ix.take(40);
		let (id, err) = [(1u8, 0u8), (0xFF, 0xFF), (0xFD, 0xFD)][ix.take(3)];
		let mut p = critical(&mut ix);
		let (port, mut d) = dev(cx, size);
		if let Some(f) = reply(cx, &mut d, &port, Form::Status, id, err, &p) {
			let cp = VPort::new(cx);
			let mut c = client(&cp, f.len(), 64);
			cp.feed(&f);
			let got = cl_status(&mut c, Duration::from_millis(1));
			let want = if err & 0x7F != 0 { Err(Er::Motor(err)) } else { Ok((id, err, p.clone())) };
			vassert!(got == want, "{id} {err:02X} {}: {got:02X?}", hex(&p));
		}
		// The device works on after a refusal.
		p.truncate(0);
		if size >= 11 {
			reply(cx, &mut d, &port, Form::Ok, id, 0, &p);
			reply(cx, &mut d, &port, Form::Error, id, err, &p);
		}
	});
	let long = r.by_tier(1500usize, 3000);
	r.sweep("parameter counts around the transmit buffer", long as u64 * 12 * 4, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(long);
		let slack = ix.take(12);
		let p: Vec<u8> = match ix.take(4) {
			0 => (0..n).map(|k| k as u8 & 0x7F).collect(),
			1 => vec![0xFF; n],
			2 => (0..n).map(|k| [0xFF, 0xFF, 0xFD][k % 3]).collect(),
			_ => (0..n).map(|k| [0xFF, 0xFF, 0xFD, 0xFD][(k + 1) % 4]).collect(),
		};
		let size = (status(7, 0, &p).len() + 5).saturating_sub(slack).max(10);
		let (port, mut d) = dev(cx, size);
		if let Some(f) = reply(cx, &mut d, &port, Form::Status, 7, 0, &p) {
			let cp = VPort::new(cx);
			let mut c = client(&cp, f.len().max(16), 64);
			receive(cx, &mut c, &cp, &f, 7, 0, &p, Frag::Max(64));
		}
	});
	r.sweep("the largest replies", 64 * 3, |i, cx| {
		let mut ix = Ix(i);
		let n = 65510 + ix.take(64);
		let fill = ix.take(3);
		let p: Vec<u8> = (0..n).map(|k| [(k % 251) as u8 & 0x7F, 0xFE, if k < 60 { [0x00, 0xFF, 0xFF, 0xFD][k % 4] } else { 3 }][fill]).collect();
		let body = stuff(&[&[STATUS, 0], &p[..]].concat()).len();
		let port = VPort::new(cx);
		let mut d = device(&port, 32, 70_000);
		port.take_log();
		let res = d.write_status(7, 0, n, |b| {
			b.copy_from_slice(&p);
			Ok(())
		});
		let log = port.take_log();
		if body + 2 <= 65535 {
			vassert!(res.is_ok(), "{n} parameters: {res:?}");
			let f = written(&log);
			vassert!(f == status(7, 0, &p), "{n} parameters: wrong frame");
			let cp = VPort::new(cx);
			let mut c = client(&cp, f.len(), 64);
			cp.feed(&f);
			let got = cl_status(&mut c, Duration::from_millis(1));
			vassert!(got == Ok((7, 0, p)), "{n} parameters are not received as sent");
		} else {
			vassert!(res.is_err(), "{n} parameters do not fit a frame, but {res:?}");
			vassert!(log.is_empty(), "{n} parameters do not fit a frame, but it caused I/O");
		}
		cx.outcome(&(body + 2 <= 65535));
	});
	r.sweep("absurd parameter counts", 64, |i, cx| {
		let n = [usize::MAX, usize::MAX - 1, usize::MAX - 10, usize::MAX - 11, usize::MAX - 12, usize::MAX / 2, 65536 * 3, 65535][i as usize % 8] - (i as usize / 8) % 2;
		let port = VPort::new(cx);
		let mut d = device(&port, 32, 64);
		port.take_log();
		// Sizes that no buffer in memory can have are outside the contract unless they are refused.
		if n <= isize::MAX as usize {
			let res = d.write_status(7, 0, n, |_| Ok(())).map_err(Er::from);
			vassert!(matches!(res, Err(Er::TooSmall { .. })), "{n} parameters: {res:?}");
			vassert!(port.log().is_empty(), "I/O for a refused reply");
		}
	});
	r.sweep("an encoder that fails", 20 * 20, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(20);
		let size = 14 + ix.take(20);
		let (port, mut d) = dev(cx, size);
		port.take_log();
		let res = d
			.write_status(3, 0, n, |_| Err(BufferTooSmallError { required_size: 1234, total_size: 33 }))
			.map_err(Er::from);
		let fits = n + 11 <= size;
		vassert!(matches!(res, Err(Er::TooSmall { .. })), "{res:?}");
		if fits {
			vassert!(res == Err(Er::TooSmall { required: 1234, total: 33 }), "the error of the encoder became {res:?}");
		}
		vassert!(port.log().is_empty(), "I/O although encoding failed: {:?}", port.log());
		reply(cx, &mut d, &port, Form::Status, 3, 0, &[1, 2, 3]);
	});
	// One device that replies again and again, to one client.
	let depth = r.by_tier(5usize, 6);
	r.tree("histories of replies", None, |cx| {
		let (dp, mut d) = dev(cx, 17);
		let cp = VPort::new(cx);
		let mut c = client(&cp, 17, 32);
		for _ in 0..depth {
			let p = *cx.pick(&[&[][..], &[0xFF, 0xFF, 0xFD], &[1], &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD], &[0; 6], &[0; 7], &[0xFD, 0xFF, 0xFF, 0xFD, 0xFD, 0]]);
			let err = *cx.pick(&[0u8, 0x80, 0x01]);
			if let Some(f) = reply(cx, &mut d, &dp, Form::Status, 0xFF, err, p) {
				receive(cx, &mut c, &cp, &f, 0xFF, err, p, Frag::All);
			}
		}
	});
	r.tree("fragmented reception", Some(r.by_tier(2, 3)), |cx| {
		let p = *cx.pick(&[&[][..], &[0xFF, 0xFF, 0xFD], &[1], &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD, 3]]);
		let err = *cx.pick(&[0u8, 0x80, 0x01]);
		let (dp, mut d) = dev(cx, 40);
		let f = reply(cx, &mut d, &dp, Form::Status, 2, err, p).unwrap();
		let cp = VPort::new(cx).frag(Frag::Choose);
		let mut c = client(&cp, 24, 32);
		let op = Op::ReadVec(2, 0, p.len() as u16);
		cp.reply_bytes(f);
		let got = run(&mut c, &op).one();
		let want = if err & 0x7F != 0 { Err(Er::Motor(err)) } else { Ok(item(2, err & 0x80 != 0, p)) };
		vassert!(got == want, "{got:02X?} instead of {want:02X?}");
	});
	// Between an instruction and its reply, with the instruction still partly unread or more of them waiting.
	r.sweep("whatever is in the read buffer", 64 * 4, |i, cx| {
		let mut ix = Ix(i);
		let extra = ix.take(16);
		let frag = [Frag::All, Frag::Max(1), Frag::Max(7), Frag::Max(16)][ix.take(4)];
		let n = ix.take(4) * 2;
		let port = VPort::new(cx).frag(frag);
		let mut d = device(&port, 40, 40);
		WBUF.set(40);
		port.feed(&frame(1, PING, &[]));
		port.feed(&[frame(1, ACTION, &[]), status(3, 0, &[])].concat()[..extra]);
		let got = dev_raw(&mut d, Duration::from_millis(1));
		vassert!(got == Ok((1, PING, vec![])), "{got:02X?}");
		reply(cx, &mut d, &port, Form::Status, 1, 0, &[0xFF, 0xFF, 0xFD, 1, 2, 3][..n.min(6)]);
		reply(cx, &mut d, &port, Form::Ok, 1, 0, &[]);
		reply(cx, &mut d, &port, Form::Error, 1, 5, &[]);
	});
	// Port failures are reported.
	r.sweep("a failing port", 3 * 3, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(3);
		let (port, mut d) = dev(cx, 40);
		port.take_log();
		match ix.take(3) {
			0 => port.0.borrow_mut().fail_write = Some(VErr::Fault(1)),
			1 => port.0.borrow_mut().fail_write = Some(VErr::Timeout),
			_ => {},
		}
		let fails = port.0.borrow().fail_write;
		let res = d.write_status(3, 0, n, |b| {
			b.fill(1);
			Ok(())
		});
		let res = res.map_err(Er::from);
		vassert!(res == fails.map_or(Ok(()), |e| Err(Er::Write(e))), "{res:?}");
	});
	// More replies than a small counter can count.
	r.sweep("long sessions", 6, |i, cx| {
		let (port, mut d) = dev(cx, 48);
		let cport = VPort::new(cx).frag([Frag::All, Frag::Max(5)][i as usize % 2]);
		let mut c = client(&cport, 48, 16);
		for k in 0..MANY / 2 {
			port.fresh();
			cport.fresh();
			let n = k * [1, 3, 5][i as usize / 2] % 12;
			let form = [Form::Status, Form::Status, Form::Ok, Form::Error][k % 4];
			let p: Vec<u8> = [0xFF, 0xFF, 0xFD, 0, 1, 0x40, 0, 0x55, 0xFF, 0xFF, 0xFD, 0xFD][..if k % 4 < 2 { n } else { 0 }].to_vec();
			let err = if k % 4 == 2 { 0 } else { (k / 4) as u8 };
			if let Some(f) = reply(cx, &mut d, &port, form, k as u8, err, &p) {
				receive(cx, &mut c, &cport, &f, k as u8, err, &p, Frag::All);
			}
		}
	});
	r.finish();
}

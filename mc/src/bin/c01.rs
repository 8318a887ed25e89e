//! C01: every transmitted packet is one well-formed Protocol 2.0 frame.
use mc::*;

/// Transmit one packet and compare what reached the port with the reference frame.
fn send(port: &VPort, what: &str, f: impl FnOnce() -> Result<(), Er>, want: Option<&[u8]>) {
	port.take_log();
	let r = f();
	let log = port.take_log();
	let tx = written(&log);
	match want {
		Some(w) => {
			vassert!(r.is_ok(), "{what}: {r:?}");
			if tx != w {
				fail(format!("{what}: transmitted {}, expected {} ({:?})", hex(&tx), hex(w), parse_exact(&tx).err()));
			}
			if let Err(e) = parse_exact(&tx) {
				engine_error(format!("reference frame invalid: {e}"));
			}
		},
		None => {
			vassert!(matches!(r, Err(Er::TooSmall { .. })), "{what}: got {r:?}, expected a buffer-too-small error");
			vassert!(tx.is_empty(), "{what}: transmitted {} although it was refused", hex(&tx));
		},
	}
}
fn raw(c: &mut C, id: u8, inst: u8, p: &[u8]) -> Result<(), Er> {
	c.write_instruction(id, inst, p.len(), |b| {
		vassert!(b.len() == p.len(), "parameter buffer of {} bytes for {} parameters", b.len(), p.len());
		b.copy_from_slice(p);
		Ok(())
	})
	.map_err(Er::from)
}
fn stat(d: &mut D, id: u8, err: u8, p: &[u8]) -> Result<(), Er> {
	d.write_status(id, err, p.len(), |b| {
		vassert!(b.len() == p.len(), "parameter buffer of {} bytes for {} parameters", b.len(), p.len());
		b.copy_from_slice(p);
		Ok(())
	})
	.map_err(Er::from)
}
fn content(kind: usize, len: usize) -> Vec<u8> {
	let pat: &[u8] = match kind {
		0 => &[0x00],
		1 => &[0xFF],
		2 => &[0xFF, 0xFF, 0xFD],
		3 => &[0xFF, 0xFF, 0xFF, 0xFD, 0xFD],
		4 => &[0xFD, 0xFF, 0xFF],
		_ => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
	};
	pat.iter().cycle().take(len).copied().collect()
}

fn main() {
	let mut r = Runner::new("C01");
	r.assume("bytes given to write_all reach the line in order; several write_all calls of one operation count as one frame if nothing comes between");

	let payloads: Vec<Vec<u8>> = vec![vec![], vec![0x12], vec![0xFF, 0xFF, 0xFD], vec![0xFF, 0xFD, 0xFF, 0xFF, 0xFD, 0x00]];
	r.sweep("instruction: all ids x all instructions", 65536 * payloads.len() as u64, |i, cx| {
		let mut ix = Ix(i);
		let (id, inst, p) = (ix.take(256) as u8, ix.take(256) as u8, ix.of(&payloads));
		let port = VPort::new(cx);
		let mut c = client(&port, 16, 64);
		send(&port, &format!("instruction {inst:02X} to {id} with {p:02X?}"), || raw(&mut c, id, inst, p), Some(&frame(id, inst, p)));
		cx.sample(|| hex(&frame(id, inst, p)));
	});
	r.sweep("status: all ids x all error bytes", 65536 * payloads.len() as u64, |i, cx| {
		let mut ix = Ix(i);
		let (id, err, p) = (ix.take(256) as u8, ix.take(256) as u8, ix.of(&payloads));
		let port = VPort::new(cx);
		let mut d = device(&port, 16, 64);
		send(&port, &format!("status {err:02X} from {id} with {p:02X?}"), || stat(&mut d, id, err, p), Some(&status(id, err, p)));
		if p.is_empty() {
			send(&port, &format!("write_status_error {err:02X} from {id}"), || d.write_status_error(id, err).map_err(Er::from), Some(&status(id, err, p)));
			send(&port, &format!("write_status_ok from {id}"), || d.write_status_ok(id).map_err(Er::from), Some(&status(id, 0, p)));
		}
	});

	// Two free bytes take the checksum through all of its values.
	r.sweep("all pairs of parameter bytes: every checksum", 65536 * 6, |i, cx| {
		let mut ix = Ix(i);
		let (a, b, place) = (ix.take(256) as u8, ix.take(256) as u8, ix.take(6) as usize);
		let p: Vec<u8> = match place {
			0 => vec![a, b],
			1 => vec![0xFF, a, b],
			2 => vec![a, 0xFF, 0xFD, b],
			3 => vec![1, 2, 3, 4, 5, a, b, 6],
			4 => vec![a, 0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD, b],
			_ => [&[a], &content(5, 30)[..], &[b]].concat(),
		};
		let port = VPort::new(cx);
		let mut c = client(&port, 16, 64);
		send(&port, &format!("instruction with {p:02X?}"), || raw(&mut c, 0x21, 0x82, &p), Some(&frame(0x21, 0x82, &p)));
		let mut d = device(&port, 16, 64);
		send(&port, &format!("status with {p:02X?}"), || stat(&mut d, 0x21, 0, &p), Some(&status(0x21, 0, &p)));
		cx.outcome(&frame(0x21, 0x82, &p)[p.len()..].len());
	});

	let alpha = [0xFFu8, 0xFD, 0x00, 0x55];
	let max = r.by_tier(9usize, 11);
	r.tree("payload strings", None, |cx| {
		let inst = *cx.pick(&[0xFFu8, 0x03, 0xFD]);
		let n = cx.choose(max + 1);
		let p: Vec<u8> = (0..n).map(|_| *cx.pick(&alpha)).collect();
		let port = VPort::new(cx);
		let mut c = client(&port, 16, 40);
		send(&port, &format!("instruction {inst:02X} with {p:02X?}"), || raw(&mut c, 1, inst, &p), Some(&frame(1, inst, &p)));
		let mut d = device(&port, 16, 40);
		send(&port, &format!("status {inst:02X} with {p:02X?}"), || stat(&mut d, 1, inst, &p), Some(&status(1, inst, &p)));
		cx.outcome(&frame(1, inst, &p).len());
	});

	// Every length; the buffer is as large as needed for any 16-bit length and more.
	let quick: Vec<usize> = (0..3000).chain([4095, 4096, 4097, 16382, 16383, 16384, 32766, 32767, 32768]).chain(49100..49170).chain(54600..54640).chain(65500..65540).chain([65600, 66000, 69000]).collect();
	let lens: Vec<usize> = r.by_tier(quick, (0..69_500).collect());
	r.sweep("all lengths", lens.len() as u64 * 12, |i, cx| {
		let mut ix = Ix(i);
		let (kind, side) = (ix.take(6), ix.take(2));
		let len = *ix.of(&lens);
		let p = content(kind, len);
		let port = VPort::new(cx);
		let body: Vec<u8> = if side == 0 { [&[0x03], &p[..]].concat() } else { [&[0x55, 0x80], &p[..]].concat() };
		let fits = stuff(&body).len() + 2 <= 0xFFFF;
		let want = if fits { Some(frame_raw(9, &stuff(&body))) } else { None };
		if side == 0 {
			let mut c = client(&port, 16, 100_000);
			send(&port, &format!("instruction with {len} parameters of kind {kind}"), || raw(&mut c, 9, 3, &p), want.as_deref());
			send(&port, "the next instruction", || raw(&mut c, 1, 2, &[1, 2, 3, 4]), Some(&frame(1, 2, &[1, 2, 3, 4])));
		} else {
			let mut d = device(&port, 16, 100_000);
			send(&port, &format!("status with {len} parameters of kind {kind}"), || stat(&mut d, 9, 0x80, &p), want.as_deref());
			send(&port, "the next status", || stat(&mut d, 1, 2, &[1, 2, 3, 4]), Some(&status(1, 2, &[1, 2, 3, 4])));
		}
		cx.outcome(&fits);
	});

	r.sweep("all lengths, one content each", 69_500 * 2, |i, cx| {
		let mut ix = Ix(i);
		let (len, side) = (ix.take(69_500), ix.take(2));
		let p = content((len + len / 6) % 6, len);
		let port = VPort::new(cx);
		let body: Vec<u8> = if side == 0 { [&[0x82], &p[..]].concat() } else { [&[0x55, 0x01], &p[..]].concat() };
		let stuffed = stuff(&body);
		let want = (stuffed.len() + 2 <= 0xFFFF).then(|| frame_raw(0xC8, &stuffed));
		if side == 0 {
			let mut c = client(&port, 16, 100_000);
			send(&port, &format!("instruction with {len} parameters"), || raw(&mut c, 0xC8, 0x82, &p), want.as_deref());
		} else {
			let mut d = device(&port, 16, 100_000);
			send(&port, &format!("status with {len} parameters"), || stat(&mut d, 0xC8, 1, &p), want.as_deref());
		}
		cx.outcome(&want.is_some());
	});

	// Histories: nothing of an earlier packet (content, length, refusal, failed encoding) shows up in a later one.
	let depth = r.by_tier(5usize, 6);
	let menu: Vec<(u8, u8, Vec<u8>)> = vec![
		(1, 1, vec![]),
		(0xFE, 0x83, content(2, 12)),
		(0xFF, 0xFF, vec![0xFF, 0xFD, 0x00]),
		(0, 0, vec![0; 9]),
		(7, 0x55, content(5, 20)),
		(2, 3, content(5, 60)), // refused
		(3, 4, vec![]),         // encoding fails
		(4, 5, vec![]),         // port refuses
	];
	r.tree("histories on one client and one device", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 16, 40);
		let mut d = device(&port, 16, 40);
		for step in 0..depth {
			let k = cx.choose(menu.len());
			let (id, inst, p) = &menu[k];
			let dev = k < 5 && cx.flag();
			let what = format!("step {step}, packet {k} by {}", if dev { "device" } else { "client" });
			match k {
				5 => send(&port, &what, || raw(&mut c, *id, *inst, p), None),
				6 => {
					port.take_log();
					let e = c.write_instruction(*id, *inst, 3, |b| {
						b.fill(0xFF);
						Err(dynamixel2::BufferTooSmallError { required_size: 5, total_size: 3 })
					});
					vassert!(matches!(e.map_err(Er::from), Err(Er::TooSmall { required: 5, total: 3 })), "{what}: the error of the encoder was not returned");
					vassert!(written(&port.take_log()).is_empty(), "{what}: transmitted although encoding failed");
				},
				7 => {
					port.fault_in(1, VErr::Fault(1));
					let _ = raw(&mut c, *id, *inst, p);
				},
				_ if dev => send(&port, &what, || stat(&mut d, *id, *inst, p), Some(&status(*id, *inst, p))),
				_ => send(&port, &what, || raw(&mut c, *id, *inst, p), Some(&frame(*id, *inst, p))),
			}
			cx.step();
		}
	});

	// Every operation transmits exactly its one frame.
	let mut ops = representative_ops();
	ops.extend(silent_ops());
	let n = ops.len() as u64;
	r.sweep("one frame per operation", n * n, |i, cx| {
		let mut ix = Ix(i);
		let (a, b) = (ix.of(&ops).clone(), ix.of(&ops).clone());
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		for op in [a, b] {
			port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
			port.take_log();
			run(&mut c, &op);
			let tx = port.written();
			if let Err(e) = parse_exact(&tx) {
				fail(format!("{op:?}: transmitted {}: {e}", hex(&tx)));
			}
			let discards = port.log().iter().filter(|x| matches!(x, Ev::Discard(_))).count();
			vassert!(discards >= 1, "{op:?}: input never discarded");
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], TX);
	});
	r.finish();
}

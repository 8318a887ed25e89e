//! C07: no byte sequence on the bus can crash or wedge the library.
use mc::*;

const T: Duration = Duration::from_millis(5);

/// All valid frames that occur anywhere in the stream, as (id, instruction, parameters).
fn frames_in(stream: &[u8]) -> Vec<(u8, u8, Vec<u8>)> {
	let mut v = vec![];
	for i in 0..stream.len() {
		let r = &stream[i..];
		if r.len() >= 10 && r[..4] == HEADER {
			let n = 7 + (r[5] as usize | (r[6] as usize) << 8);
			if n >= 10 && r.len() >= n {
				let m = r[n - 2] as u16 | (r[n - 1] as u16) << 8;
				if crc(0, &r[..n - 2]) == m {
					let u = unstuff(&r[7..n - 2]);
					v.push((r[4], u[0], u[1..].to_vec()));
				}
			}
		}
	}
	v
}

/// The client reads raw status packets until nothing is left.
fn raw_client(cx: &Cx, stream: &[u8], frag: Frag, buf: usize) {
	let port = VPort::new(cx).frag(frag).horizon(20_000);
	port.feed(stream);
	let mut c = client(&port, buf, 16);
	let all = frames_in(stream);
	let mut rx = RefRx::over(buf, stream);
	for k in 0.. {
		let got = cl_status(&mut c, T);
		if buf < 10 {
			vassert!(got.is_err(), "read buffer of {buf}: {got:02X?}");
			break;
		}
		if k == 0 {
			if let Err(e) = judge_status(&rx.next(), &got) {
				vfail!("client, buffer {buf}, {frag:?}, stream {}: {e}", hex(stream));
			}
		}
		cx.outcome(&got);
		match got {
			Ok((id, e, p)) => {
				let mut q = vec![e];
				q.extend_from_slice(&p);
				vassert!(all.contains(&(id, STATUS, q)), "client, stream {}: delivered {id} {e:02X} {p:02X?}, which was not received", hex(stream));
			},
			Err(Er::Io(VErr::Timeout)) => break,
			Err(_) => {},
		}
		vassert!(k <= stream.len(), "client, stream {}: more results than bytes", hex(stream));
	}
}

/// The device reads raw or decoded instructions until nothing is left.
fn raw_device(cx: &Cx, stream: &[u8], frag: Frag, buf: usize, how: usize) {
	let port = VPort::new(cx).frag(frag).horizon(20_000);
	port.feed(stream);
	let mut d = device(&port, buf, 16);
	let all = frames_in(stream);
	let mut rx = RefRx::over(buf, stream);
	for k in 0.. {
		if how == 0 {
			let got = dev_raw(&mut d, T);
			if buf < 10 {
				vassert!(got.is_err(), "read buffer of {buf}: {got:02X?}");
				break;
			}
			if k == 0 {
				if let Err(e) = judge_instruction(&next_for_device(&mut rx), &got) {
					vfail!("device, buffer {buf}, {frag:?}, stream {}: {e}", hex(stream));
				}
			}
			cx.outcome(&got);
			match got {
				Ok(p) => vassert!(all.contains(&p), "device, stream {}: delivered {p:02X?}, which was not received", hex(stream)),
				Err(Er::Io(VErr::Timeout)) => break,
				Err(_) => {},
			}
		} else {
			let e: Result<u8, Er> = if how == 1 { d.read(T).map(|i| i.id).map_err(Er::from) } else { d.read_owned(T).map(|i| i.id).map_err(Er::from) };
			if buf < 10 {
				vassert!(e.is_err(), "read buffer of {buf}: {e:02X?}");
				break;
			}
			if k == 0 {
				let want = next_for_device(&mut rx);
				match (&want, &e) {
					(Rx::Packet { id, .. }, Ok(g)) => vassert!(id == g, "device, stream {}: instruction for {g} instead of {id}", hex(stream)),
					(Rx::Packet { .. }, Err(Er::Count { .. })) => {},
					(Rx::Packet { .. }, Err(x)) => vfail!("device, stream {}: {x:?} instead of {want:02X?}", hex(stream)),
					(_, Ok(_)) => vfail!("device, stream {}: an instruction was returned instead of {want:02X?}", hex(stream)),
					(_, Err(x)) => {
						if let Err(e) = judge(None, None, &want, &Err(x.clone())) {
							vfail!("device, stream {}: {e}", hex(stream));
						}
					},
				}
			}
			match e {
				Ok(id) => vassert!(all.iter().any(|p| p.0 == id && p.1 != STATUS), "device, stream {}: an instruction that was not received", hex(stream)),
				Err(Er::Io(VErr::Timeout)) => break,
				Err(_) => {},
			}
		}
		vassert!(k <= stream.len(), "device, stream {}: more results than bytes", hex(stream));
	}
}

/// The client executes an operation, to which the stream is the answer.
fn operation(cx: &Cx, op: &Op, stream: &[u8], frag: Frag, buf: usize, take: usize) {
	let port = VPort::new(cx).frag(frag).horizon(60_000);
	port.replies(vec![vec![In::Bytes(stream.to_vec())]]);
	if stream.is_empty() {
		port.replies(vec![]);
	}
	let mut c = client(&port, buf, 64);
	let got = run_take(&mut c, op, take);
	vassert!(got.write.is_ok(), "{op:?}: {got:02X?}");
	cx.outcome(&got);
	if buf < 10 {
		vassert!(got.items.iter().all(|x| x.is_err()), "{op:?} with a read buffer of {buf}: {got:02X?}");
		return;
	}
	let all = frames_in(stream);
	if let (Replies::Each(want), Some(first)) = (op.replies(), got.items.first()) {
		let rx = RefRx::over(buf, stream).next();
		let count = if matches!(op, Op::Transfer(..)) { None } else { Some(want[0].1) };
		if let Err(e) = judge(Some(want[0].0), count, &rx, first) {
			vfail!("{op:?}, buffer {buf}, stream {}: {e}", hex(stream));
		}
	}
	for i in got.items.iter().flatten() {
		vassert!(
			all.iter().any(|p| p.0 == i.id && p.1 == STATUS && p.2.len() == i.data.len() + 1 && p.2[1..] == i.data[..] && (p.2[0] == 0x80) == i.alert && p.2[0] & 0x7F == 0),
			"{op:?}, stream {}: delivered {i:02X?}, which was not received",
			hex(stream)
		);
	}
}

fn crc_of(mut f: Vec<u8>, good: bool) -> Vec<u8> {
	let c = crc(0, &f) ^ if good { 0 } else { 0x0100 };
	f.extend_from_slice(&c.to_le_bytes());
	f
}

fn main() {
	let mut r = Runner::new("C07");
	r.assume("read buffers are at least 10 bytes where a result is required; smaller ones only have to give an error");
	r.note("log", format!("built with logging enabled: {}", cfg!(feature = "log")));
	let mut ops = representative_ops();
	ops.extend(vec![
		Op::SyncRead(vec![3], 0, Ty::A3, Via::Iter),
		Op::SyncReadBytes(vec![0xFF, 0x55], 0, 0, Via::Iter),
		Op::SyncReadBytes(vec![3, 0xFD], 0, 1, Via::Borrow),
		Op::BulkRead(vec![(3, 0, 0), (0xFD, 0, 1)], Via::BorrowCtor),
		Op::BulkRead(vec![(0xFF, 0, 1)], Via::Iter),
		Op::ReadVec(0xFF, 0, 0),
		Op::Read(0x55, 0, Ty::A0),
		Op::Transfer(0xFF, 1, vec![], 0),
	]);
	let good = status(3, 0, &[9, 8]);
	let good_i = frame(3, 0x03, &[9, 8, 7]);

	// Streams over the header alphabet: everything up to a length, with every reader.
	let alpha = [0xFFu8, 0xFD, 0x00, 0x55, 0x02];
	let max = r.by_tier(10usize, 11);
	let n = 5u64.pow(max as u32);
	r.sweep("all streams over the alphabet", n, |i, cx| {
		let mut ix = Ix(i);
		let s: Vec<u8> = (0..max).map(|_| *ix.of(&alpha)).collect();
		raw_client(cx, &s, Frag::All, 10);
		raw_device(cx, &s, Frag::Max(3), 12, (i % 3) as usize);
	});
	// The same behind a header, so that ID, length, body and checksum are all from the alphabet.
	let max = r.by_tier(9usize, 10);
	let n = 5u64.pow(max as u32);
	r.sweep("all streams over the alphabet behind a header", n, |i, cx| {
		let mut ix = Ix(i);
		let mut s = HEADER.to_vec();
		s.extend((0..max).map(|_| *ix.of(&alpha)));
		raw_client(cx, &s, Frag::All, 14);
		raw_device(cx, &s, Frag::Max(5), 11, (i % 3) as usize);
		raw_device(cx, &s, Frag::Max(1), 300, (i / 3 % 3) as usize);
	});
	// Streams built from whole pieces, so that long malformed things arise.
	let pieces: Vec<Vec<u8>> = vec![
		HEADER.to_vec(),
		vec![0xFF, 0xFF, 0xFD],
		vec![0xFF],
		vec![0x00, 0x00],
		vec![0x03, 0x03, 0x00],
		vec![0xFF, 0xFF],
		short_frame(3, 0),
		short_frame(3, 1),
		short_frame(3, 2),
		frame_raw(3, &[0x55]),
		frame_raw(3, &[0x55, 0xFF, 0xFF, 0xFD, 0xFD]),
		frame_raw(3, &[0xFD]),
		good.clone(),
		good_i.clone(),
		frame(3, 2, &[1]),
		bad_crc(good.clone()),
		frame_with_len(3, 0xFFFF, &[]),
		frame_with_len(3, 0x0100, &[0x55]),
	];
	let k = r.by_tier(5usize, 6);
	r.tree("all sequences of pieces", None, |cx| {
		let mut s = vec![];
		for _ in 0..k {
			s.extend_from_slice(cx.pick(&pieces));
		}
		let frag = [Frag::All, Frag::Max(1), Frag::Max(7)][s.len() % 3];
		for buf in [14usize, 32] {
			raw_client(cx, &s, frag, buf);
			raw_device(cx, &s, frag, buf, 0);
			raw_device(cx, &s, frag, buf, 1 + s.len() % 2);
		}
		cx.sample(|| format!("stream {}", hex(&s)));
	});
	// Frames with every small length field, all bodies over the alphabet, right and wrong checksum, followed by a good frame.
	let top = r.by_tier(9usize, 11);
	let body_alpha = [0xFFu8, 0xFD, 0x55, 0x00];
	r.tree("all short frames", None, |cx| {
		let len = cx.choose(top + 1);
		let id = *cx.pick(&[3u8, 0xFF]);
		let mut f = HEADER.to_vec();
		f.push(id);
		f.extend_from_slice(&(len as u16).to_le_bytes());
		if len >= 2 {
			for _ in 0..len - 2 {
				f.push(*cx.pick(&body_alpha));
			}
			f = crc_of(f, cx.flag());
		} else {
			f.extend(vec![0u8; len]);
		}
		let tail = cx.choose(3);
		let mut s = f.clone();
		match tail {
			0 => {},
			1 => s.extend_from_slice(&good),
			_ => s.extend_from_slice(&good_i),
		}
		for buf in [10usize, 11, 12, 16, 18, 40] {
			raw_client(cx, &s, Frag::All, buf);
			raw_device(cx, &s, Frag::Max(9), buf, 0);
			raw_device(cx, &s, Frag::All, buf, 1 + buf % 2);
		}
	});
	// Every length field.
	r.sweep("every length field", 65536 * 2, |i, cx| {
		let len = (i % 65536) as u16;
		let ok = i / 65536 == 0;
		let mut f = HEADER.to_vec();
		f.push(3);
		f.extend_from_slice(&len.to_le_bytes());
		f.push(0x55);
		if ok {
			// A status packet with correct checksum where the length allows it.
			if (3..2000).contains(&len) {
				f.extend(vec![0u8; len as usize - 3]);
				f = crc_of(f, true);
			}
		}
		f.extend_from_slice(&good);
		for buf in [10usize, 17, 128] {
			raw_client(cx, &f, Frag::All, buf);
			raw_device(cx, &f, Frag::Max(13), buf, (i % 3) as usize);
		}
	});
	// Every instruction ID with every small number of parameters, so that every decoder sees too few and too many.
	let fills = [0u8, 1, 2, 0x55, 0x80, 0xFD, 0xFF];
	let most = r.by_tier(40usize, 200);
	r.sweep("every instruction with few parameters", (256 * most * fills.len() * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let how = ix.take(3);
		let fill = *ix.of(&fills);
		let n = ix.take(most);
		let inst = ix.take(256) as u8;
		for id in [3u8, BROADCAST] {
			let s = [frame(id, inst, &vec![fill; n]), good_i.clone()].concat();
			raw_device(cx, &s, Frag::All, 64, how);
			if how == 0 {
				raw_client(cx, &s, Frag::All, 64);
			}
		}
	});
	// All operations: malformed answers of every kind.
	let mut answers: Vec<Vec<u8>> = pieces.clone();
	for n in 0..8usize {
		answers.push(status(3, 0, &vec![7; n]));
		answers.push(status(3, 0x80, &vec![0xFF; n]));
		answers.push(status(3, 0x05, &vec![0xFD; n]));
		answers.push(frame_raw(3, &vec![0x55; n + 1]));
	}
	for len in 0..14u16 {
		for fill in [0u8, 0x55, 0xFF] {
			answers.push(frame_with_len(3, len, &vec![fill; len as usize]));
			let mut f = frame_with_len(3, len, &vec![fill; (len as usize).saturating_sub(2)]);
			if len >= 2 {
				f = crc_of(f, true);
			}
			answers.push(f);
		}
	}
	for cut in 0..good.len() {
		answers.push(good[..cut].to_vec());
	}
	answers.push(vec![]);
	let bufs = [10usize, 11, 12, 13, 14, 15, 16, 20, 64];
	r.sweep("operations with one malformed answer", (ops.len() * answers.len() * bufs.len() * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let a = ix.of(&answers);
		let buf = *ix.of(&bufs);
		let frag = *ix.of(&[Frag::All, Frag::Max(1), Frag::Max(6)]);
		operation(cx, op, a, frag, buf, usize::MAX);
		operation(cx, op, a, frag, buf, 0);
	});
	let few: Vec<Vec<u8>> = pieces.iter().skip(6).cloned().collect();
	let k = r.by_tier(4usize, 5);
	r.tree("operations with sequences of malformed answers", None, |cx| {
		let op = cx.pick(&ops);
		let mut s = vec![];
		for _ in 0..k {
			s.extend_from_slice(cx.pick(&few));
		}
		operation(cx, op, &s, Frag::All, 16, usize::MAX);
		operation(cx, op, &s, Frag::Max(4), 14, 1);
	});
	let max = r.by_tier(7usize, 9);
	let n = 5u64.pow(max as u32);
	r.sweep("operations with all answers over the alphabet", n * ops.len() as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let mut s = HEADER.to_vec();
		s.extend((0..max).map(|_| *ix.of(&alpha)));
		operation(cx, op, &s, Frag::All, 20, usize::MAX);
	});
	// Unusable read buffers.
	r.sweep("tiny read buffers", (10 * (ops.len() + 4) * answers.len()) as u64, |i, cx| {
		let mut ix = Ix(i);
		let buf = ix.take(10);
		let k = ix.take(ops.len() + 4);
		let a = ix.of(&answers);
		match k {
			0 => raw_client(cx, a, Frag::All, buf),
			1..=3 => raw_device(cx, a, Frag::All, buf, k - 1),
			// A scan never ends by itself then, but every call returns.
			k => operation(cx, &ops[k - 4], a, Frag::All, buf, 3),
		}
	});
	// A bus that never stops talking: the reader must return or keep asking the port for more.
	let streams: Vec<Vec<u8>> = vec![vec![0xFF], vec![0x00], vec![0xFF, 0xFF, 0xFD], good.clone(), good_i.clone(), bad_crc(good.clone()), short_frame(1, 0), frame_with_len(1, 0xFFFF, &[])];
	let endless = ops.clone();
	r.sweep("endless input", (streams.len() * (endless.len() + 2)) as u64, |i, cx| {
		let mut ix = Ix(i);
		let s = ix.of(&streams).clone();
		let k = ix.take(endless.len() + 2);
		let port = VPort::new(cx).horizon(30_000).frag(Frag::Items);
		let mut left = 2000;
		port.0.borrow_mut().on_idle = Some(Box::new(move |q| {
			if left > 0 {
				left -= 1;
				q.push_back(In::Bytes(s.clone()));
			}
		}));
		match k {
			0 => {
				let mut c = client(&port, 20, 64);
				let _ = cl_status(&mut c, T);
			},
			1 => {
				let mut d = device(&port, 20, 64);
				let _ = dev_raw(&mut d, T);
			},
			k => {
				if endless[k - 2] != Op::Scan {
					let mut c = client(&port, 20, 64);
					let got = run(&mut c, &endless[k - 2]);
					cx.outcome(&got);
				}
			},
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], 0);
	});
	// More frames than a small counter can count, by one reader.
	let pieces: Vec<Vec<u8>> = vec![
		status(3, 0, &[]),
		status(3, 0x80, &[1, 2, 3]),
		status(3, 0, &[0xFF, 0xFF, 0xFD, 0, 1, 0x30, 0]),
		frame(3, PING, &[]),
		frame(BROADCAST, SYNC_WRITE, &[0xFF, 0xFF, 0xFD, 0, 1]),
		status(4, 2, &[]),
		bad_crc(status(3, 0, &[5])),
		bad_crc(frame(3, PING, &[5])),
		[&[0xFF, 0xFF, 0x00, 0xFD][..], &status(5, 0, &[1])].concat(),
		frame_raw(3, &[STATUS]),
		[short_frame(3, 0), frame(3, PING, &[])].concat(),
		[short_frame(3, 2), status(3, 0, &[9])].concat(),
		[frame_with_len(3, 100, &[1, 2, 3]), frame(3, READ, &[1, 2, 3, 4])].concat(),
	];
	r.sweep("long sessions of a reader", r.by_tier(18u64, 60), |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(7), Frag::Max(1)][ix.take(3)];
		let stride = [1usize, 3, 7, 11, 13][ix.0 as usize];
		if dev {
			device_session(cx, &pieces, MANY, stride, frag);
		} else {
			client_session(cx, &pieces, MANY, stride, frag);
		}
	});
	// The same with decoded instructions, and with operations that never succeed.
	r.sweep("long sessions of a decoding device", 4, |i, cx| {
		let port = VPort::new(cx).frag([Frag::All, Frag::Max(5)][i as usize / 2]);
		let mut d = device(&port, 48, 64);
		for k in 0..MANY {
			port.fresh();
			port.feed(&pieces[k % pieces.len()]);
			for _ in 0..4 {
				if i % 2 == 0 {
					let _ = d.read(T).map(|x| x.id);
				} else {
					let _ = d.read_owned(T).map(|x| x.id);
				}
			}
		}
	});
	let n = r.by_tier(5_000, MANY);
	r.sweep("long sessions with malformed answers", (ops.len() * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let how = ix.take(3);
		let port = VPort::new(cx);
		let mut c = client(&port, 24, 64);
		let mut k = 0;
		let p = pieces.clone();
		port.on_frame(move |_, q| {
			k += 1;
			match how {
				0 => q.push_back(In::Bytes(p[k % p.len()].clone())),
				1 => q.push_back(In::Err(VErr::Fault(1))),
				_ => {},
			}
		});
		for _ in 0..n {
			port.fresh();
			run(&mut c, op);
		}
	});
	r.finish();
}

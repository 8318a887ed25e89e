//! C10: reception works in every read buffer that can hold the frame.
use mc::*;

const T: Duration = Duration::from_millis(5);

/// A status (or instruction) frame of exactly `size` bytes.
fn sized(inst: bool, size: usize, fill: u8) -> Vec<u8> {
	if inst {
		frame(5, WRITE, &vec![fill; size - 10])
	} else {
		status(5, 0, &vec![fill; size - 11])
	}
}

/// Everything in the stream is reported as the reference receiver with this buffer size says.
fn check(cx: &Cx, stream: &[u8], buf: usize, frag: Frag, dev: bool) {
	let port = VPort::new(cx).frag(frag).horizon(400_000);
	port.feed(stream);
	let mut rx = RefRx::over(buf, stream);
	let mut n = 0;
	if dev {
		let mut d = device(&port, buf, 16);
		loop {
			let want = next_for_device(&mut rx);
			let got = dev_raw(&mut d, T);
			if let Err(e) = judge_instruction(&want, &got) {
				vfail!("device, read buffer {buf}, {frag:?}, stream {}: result {n}: {e}", hex(stream));
			}
			n += 1;
			if want == Rx::Nothing {
				break;
			}
		}
	} else {
		let mut c = client(&port, buf, 16);
		loop {
			let want = rx.next();
			let got = cl_status(&mut c, T);
			if let Err(e) = judge_status(&want, &got) {
				vfail!("client, read buffer {buf}, {frag:?}, stream {}: result {n}: {e}", hex(stream));
			}
			n += 1;
			if want == Rx::Nothing {
				break;
			}
		}
	}
	for e in port.log() {
		if let Ev::Read { cap, .. } = e {
			vassert!(cap > 0 && cap <= buf, "asked the port to read into {cap} bytes");
		}
	}
	cx.outcome(&n);
}

fn main() {
	let mut r = Runner::new("C10");
	r.assume("read buffers have at least 10 bytes; noise and the contents of frames that do not fit contain no header prefix");
	let top = r.by_tier(48usize, 90);
	let sizes: Vec<usize> = (10..top + 4).collect();
	let frags = [Frag::All, Frag::Max(1), Frag::Max(2), Frag::Max(3), Frag::Max(7), Frag::Max(8), Frag::Max(9), Frag::Max(13), Frag::Items];
	// A frame of every size behind something of every size.
	let n_pre = 5;
	r.sweep(
		"a frame of every size behind something of every size",
		((top - 9) * sizes.len() * n_pre * 44 * 2) as u64,
		|i, cx| {
			let mut ix = Ix(i);
			let buf = 10 + ix.take(top - 9);
			let size = *ix.of(&sizes);
			let kind = ix.take(n_pre);
			let k = ix.take(44);
			let dev = ix.take(2) == 1;
			if (!dev && size < 11) || (kind >= 3 && k < 11) {
				return;
			}
			let mut s = match kind {
				0 => vec![0x20; k],
				1 => vec![0xFF; k],
				2 => [0xFFu8, 0xFF, 0xFD].iter().cycle().take(k).copied().collect(),
				3 => sized(dev, k, 0x41),
				_ => bad_crc(sized(!dev, k, 0x42)),
			};
			let f = sized(dev, size, 0x43);
			s.extend_from_slice(&f);
			s.extend_from_slice(&sized(dev, 11, 0x44));
			let frag = frags[(i % 9) as usize];
			check(cx, &s, buf, Frag::All, dev);
			check(cx, &s, buf, frag, dev);
		},
	);
	// Three frames around the boundary, every fragmentation pattern with fixed size.
	r.sweep("three frames around the boundary", (20 * 6 * 6 * 6 * 40 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let buf = 12 + ix.take(20);
		let f = |ix: &mut Ix| (buf + ix.take(6)).saturating_sub(4).max(11);
		let (a, b, c) = (f(&mut ix), f(&mut ix), f(&mut ix));
		let m = 1 + ix.take(40);
		let dev = ix.take(2) == 1;
		let s = [sized(dev, a, 0x31), sized(dev, b, 0xFF), sized(dev, c, 0x33)].concat();
		check(cx, &s, buf, Frag::Max(m), dev);
	});
	// Every short history of arrivals into a nearly full buffer.
	r.tree("bounded fragmentation around the boundary", Some(r.by_tier(3, 4)), |cx| {
		let buf = 11 + cx.choose(6);
		let dev = cx.flag();
		let a = 11 + cx.choose(7);
		let b = 11 + cx.choose(7);
		let noise = *cx.pick(&[0usize, 1, 5, 14]);
		let mut s = vec![0xFF; noise];
		s.extend_from_slice(&sized(dev, a, 0x31));
		s.extend_from_slice(&sized(dev, b, 0xFD));
		check(cx, &s, buf, Frag::Choose, dev);
		cx.sample(|| format!("buffer {buf}, stream {}", hex(&s)));
	});
	// Byte stuffed frames: the received size counts.
	let alpha = [0xFFu8, 0xFD, 0x00];
	let max = r.by_tier(9usize, 11);
	r.sweep("stuffed frames around the boundary", 3u64.pow(max as u32) * 2, |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let p: Vec<u8> = (0..max).map(|_| *ix.of(&alpha)).collect();
		let f = if dev { frame(5, 0xFD, &p) } else { status(5, 0x00, &p) };
		let s = [&f[..], &f[..], &sized(dev, 11, 1)].concat();
		for buf in f.len() - 2..=f.len() + 2 {
			check(cx, &s, buf, Frag::All, dev);
			check(cx, &s, buf, Frag::Max(5), dev);
		}
	});
	// Operations whose reply is around the size of the read buffer.
	let flav = 8;
	r.sweep("operations with replies around the read buffer", (r.by_tier(200, 1000) * 9 * flav * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let d = ix.take(9);
		let kind = ix.take(flav);
		let frag = *ix.of(&[Frag::All, Frag::Max(1), Frag::Max(10)]);
		let n = ix.0 as usize;
		let c = n as u16;
		let (op, n) = match kind {
			0 => (Op::ReadVec(3, 0, c), n),
			1 => (Op::ReadSlice(3, 0, c), n),
			2 => (Op::SyncReadBytes(vec![3, 4, 9], 0, c, Via::Next), n),
			3 => (Op::SyncReadBytes(vec![3, 4, 9], 0, c, Via::BorrowCtor), n),
			4 => (Op::BulkRead(vec![(3, 0, c), (4, 0, c), (9, 0, c)], Via::Iter), n),
			5 => (Op::BulkRead(vec![(3, 0, c), (4, 0, c), (9, 0, c)], Via::Borrow), n),
			6 => (Op::SyncRead(vec![3, 4], 0, Ty::U32, Via::Next), 4),
			_ => (Op::Read(3, 0, Ty::A5), 20),
		};
		let Replies::Each(want) = op.replies() else { return };
		// Some of the replies need byte stuffing, which makes them longer.
		let data = |k: usize| -> Vec<u8> {
			let mut v = vec![0x21; n];
			if k == 1 && n >= 3 {
				v[..3].copy_from_slice(&[0xFF, 0xFF, 0xFD])
			}
			v
		};
		let frames: Vec<Vec<u8>> = want.iter().enumerate().map(|(k, w)| status(w.0, 0, &data(k))).collect();
		let buf = (frames[0].len() + d).saturating_sub(4).max(10);
		let port = VPort::new(cx).frag(frag);
		port.reply_bytes(frames.concat());
		let mut cl = client(&port, buf, 64);
		let got = run(&mut cl, &op);
		vassert!(got.items.len() == want.len(), "{op:?}: {got:02X?}");
		for (k, f) in frames.iter().enumerate() {
			let expect = if f.len() <= buf { Ok(item(want[k].0, false, &data(k))) } else { Err(Er::BufferFull { required: f.len(), total: buf }) };
			vassert!(got.items[k] == expect, "{op:?}, read buffer {buf}, frame of {} bytes: {:02X?}", f.len(), got.items[k]);
		}
		cx.outcome(&got);
	});
	// The largest frames.
	let bufs = [65500usize, 65530, 65541, 65542, 65543, 70000];
	r.sweep("the largest frames", (bufs.len() * 12 * 2 * 4) as u64, |i, cx| {
		let mut ix = Ix(i);
		let buf = *ix.of(&bufs);
		let size = [60000usize, 65499, 65500, 65501, 65529, 65530, 65531, 65538, 65539, 65540, 65541, 65542][ix.take(12)];
		let dev = ix.take(2) == 1;
		let frag = *ix.of(&[Frag::All, Frag::Max(60001), Frag::Max(997), Frag::Max(65541)]);
		let s = [vec![0xFF; 3], sized(dev, size, 0x01), sized(dev, 20, 2), sized(dev, 60000, 3)].concat();
		check(cx, &s, buf, frag, dev);
	});
	r.finish();
}

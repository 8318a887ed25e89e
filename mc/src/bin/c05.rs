//! C05: reception does not depend on how the bytes are split into reads.
use mc::*;

const T: Duration = Duration::from_millis(5);
const BUF: usize = 40;

/// Read everything with a client (or device) and compare with the reference receiver over the whole stream.
fn read_all(cx: &Cx, stream: &[u8], frag: Frag, dev: bool, split_feed: bool) {
	let port = VPort::new(cx).frag(frag).horizon(10_000);
	if split_feed {
		for b in stream {
			port.feed(&[*b]);
		}
	} else {
		port.feed(stream);
	}
	let mut rx = RefRx::over(BUF, stream);
	let mut delivered = 0;
	if dev {
		let mut d = device(&port, BUF, 16);
		loop {
			port.take_log();
			let before = rx.clone();
			let got = dev_raw(&mut d, T);
			let want = next_for_device(&mut rx);
			if let Err(e) = judge_instruction(&want, &got) {
				fail(format!("device reading {}: {e}", hex(stream)));
			}
			if let Err(e) = check_no_needless_read(&port.take_log(), stream, &mut delivered, &mut before.clone(), true) {
				fail(format!("device reading {}: {e}", hex(stream)));
			}
			cx.outcome(&got);
			if want == Rx::Nothing {
				break;
			}
		}
	} else {
		let mut c = client(&port, BUF, 16);
		loop {
			port.take_log();
			let before = rx.clone();
			let got = cl_status(&mut c, T);
			let want = rx.next();
			if let Err(e) = judge_status(&want, &got) {
				fail(format!("client reading {}: {e}", hex(stream)));
			}
			if let Err(e) = check_no_needless_read(&port.take_log(), stream, &mut delivered, &mut before.clone(), false) {
				fail(format!("client reading {}: {e}", hex(stream)));
			}
			cx.outcome(&got);
			if want == Rx::Nothing {
				break;
			}
		}
	}
}

fn main() {
	let mut r = Runner::new("C05");
	let segs: Vec<(&str, Vec<u8>)> = vec![
		("status", status(3, 0, &[])),
		("status with data", status(3, 0x80, &[1, 2, 3])),
		("stuffed status", status(3, 0, &[0xFF, 0xFF, 0xFD, 9])),
		("ping", frame(3, PING, &[])),
		("instruction", frame(0xFE, 0x83, &[0xFF, 0xFF, 0xFD, 0, 1])),
		("motor error", status(4, 0x02, &[])),
		("bad checksum", bad_crc(status(3, 0, &[5]))),
		("noise", vec![0xFF, 0xFF, 0x00, 0xFD, 0xFF]),
		("no error byte", frame_raw(3, &[STATUS])),
		("too big", frame_with_len(3, 100, &[1, 2, 3])),
		("status whose data looks like a header", status(3, 0, &[0xFF, 0xFF, 0xFD, 0, 3, 4, 0])),
	];
	let singles: Vec<Vec<u8>> = segs.iter().map(|x| x.1.clone()).collect();

	// Every division of one frame into reads (2^(n-1) compositions).
	r.tree("one segment, every fragmentation", None, |cx| {
		let k = cx.choose(singles.len());
		let dev = cx.flag();
		read_all(cx, &singles[k], Frag::Choose, dev, false);
		cx.sample(|| segs[k].0.to_string());
	});
	// Every division of two short frames.
	let pairs: Vec<Vec<u8>> = vec![
		[&status(3, 0, &[])[..], &status(4, 0, &[])[..]].concat()[..].to_vec(),
		[&frame(3, PING, &[])[..], &frame(4, PING, &[])[..]].concat(),
		[&status(3, 0, &[])[..], &frame(4, PING, &[])[..]].concat(),
		[&bad_crc(frame(3, PING, &[]))[..], &frame(4, PING, &[])[..]].concat(),
		[&[0xFF, 0xFF, 0xFD][..], &frame(4, PING, &[])[..]].concat(),
	];
	{
		r.tree("two frames, every fragmentation", None, |cx| {
			let k = cx.choose(pairs.len());
			let dev = cx.flag();
			read_all(cx, &pairs[k], Frag::Choose, dev, false);
		});
	}
	// All sequences of segments, with every placement of up to k cuts.
	let (n, cuts) = r.by_tier((3usize, 2usize), (3, 4));
	r.tree("sequences of segments, bounded cuts", Some(cuts), |cx| {
		let mut s = vec![];
		let len = 1 + cx.choose(n);
		for _ in 0..len {
			s.extend_from_slice(cx.pick(&singles));
		}
		read_all(cx, &s, Frag::Choose, cx.flag(), false);
	});
	let n2 = r.by_tier(2usize, 2);
	r.tree("pairs of segments, two cuts and empty reads", Some(r.by_tier(3usize, 4)), |cx| {
		let mut s = vec![];
		let len = 1 + cx.choose(n2);
		for _ in 0..len {
			s.extend_from_slice(cx.pick(&singles));
		}
		read_all(cx, &s, Frag::ChooseZero(1), cx.flag(), false);
	});
	// Fixed read sizes: every size, longer sequences, all segments in all orders of length 4.
	let n3 = r.by_tier(5usize, 6);
	r.tree("sequences of segments, fixed read size", None, |cx| {
		let size = 1 + cx.choose(13);
		let dev = cx.flag();
		let mut s = vec![];
		for _ in 0..n3 {
			s.extend_from_slice(cx.pick(&singles));
		}
		read_all(cx, &s, Frag::Max(size), dev, false);
	});
	// Reads that return nothing, any number of them at any point.
	r.tree("zero-length reads", None, |cx| {
		let k = cx.choose(singles.len());
		let at = cx.choose(singles[k].len() + 1);
		let zeros = *cx.pick(&[1usize, 2, 7, 100, 129, 300, 5_000, 70_000]);
		let dev = cx.flag();
		let port = VPort::new(cx).horizon(80_000);
		port.feed(&singles[k][..at]);
		for _ in 0..zeros {
			port.push(In::Zero);
		}
		port.feed(&singles[k][at..]);
		let mut rx = RefRx::over(BUF, &singles[k]);
		if dev {
			let mut d = device(&port, BUF, 16);
			if let Err(e) = judge_instruction(&next_for_device(&mut rx), &dev_raw(&mut d, T)) {
				fail(format!("{} with {zeros} empty reads at {at}: {e}", segs[k].0));
			}
		} else {
			let mut c = client(&port, BUF, 16);
			if let Err(e) = judge_status(&rx.next(), &cl_status(&mut c, T)) {
				fail(format!("{} with {zeros} empty reads at {at}: {e}", segs[k].0));
			}
		}
	});
	// Whole operations: the reply (or replies) of every operation under every single cut and fixed read size.
	let ops: Vec<Op> = representative_ops();
	r.tree("operations under fragmentation", Some(r.by_tier(4usize, 6)), |cx| {
		let op = cx.pick(&ops);
		let port = VPort::new(cx).frag(Frag::ChooseZero(1)).horizon(10_000);
		let mut c = client(&port, 64, 64);
		port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
		let got = run(&mut c, op);
		vassert!(got.all_ok(&op.good_items()), "{op:?}: {got:02X?}, expected {:02X?}", op.good_items());
		cx.outcome(&got);
	});
	r.sweep("operations, fixed read sizes", ops.len() as u64 * 60, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let size = 1 + ix.take(60);
		let port = VPort::new(cx).frag(Frag::Max(size));
		let mut c = client(&port, 64, 64);
		port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
		let got = run(&mut c, op);
		vassert!(got.all_ok(&op.good_items()), "{op:?} in reads of {size}: {got:02X?}, expected {:02X?}", op.good_items());
	});
	// An empty read before every byte of a reply, any number of times.
	r.sweep("empty reads between all bytes", ops.len() as u64 * 5, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let zeros = [1usize, 3, 20, 300, 3000][ix.take(5)];
		let port = VPort::new(cx).frag(Frag::Items).horizon(1_000_000);
		let mut c = client(&port, 64, 64);
		let mut v = vec![];
		for b in op.good_replies().concat() {
			v.extend(std::iter::repeat_n(In::Zero, zeros));
			v.push(In::Bytes(vec![b]));
		}
		port.replies(vec![v]);
		let got = run(&mut c, op);
		vassert!(got.all_ok(&op.good_items()), "{op:?}, {zeros} empty reads before every byte: {got:02X?}, expected {:02X?}", op.good_items());
	});
	// A long stream divided in different ways.
	r.sweep("long streams", 2 * 13, |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let size = [1usize, 2, 3, 5, 7, 11, 13, 14, 15, 39, 40, 41, 1000][ix.take(13)];
		let n = 400;
		let s: Vec<u8> = (0..n).flat_map(|k| singles[k * 7 % singles.len()].clone()).collect();
		let port = VPort::new(cx).frag(Frag::Max(size));
		port.feed(&s);
		let mut rx = RefRx::over(BUF, &s);
		let mut c = client(&port, BUF, 16);
		let mut d = device(&port, BUF, 16);
		loop {
			let want = if dev { next_for_device(&mut rx) } else { rx.next() };
			let e = if dev { judge_instruction(&want, &dev_raw(&mut d, T)) } else { judge_status(&want, &cl_status(&mut c, T)) };
			if let Err(e) = e {
				fail(format!("a long stream in reads of {size}: {e}"));
			}
			if want == Rx::Nothing {
				break;
			}
		}
	});
	// More frames than a small counter can count, by one reader.
	let pieces: Vec<Vec<u8>> = vec![
		status(3, 0, &[]),
		status(3, 0x80, &[1, 2, 3]),
		status(3, 0, &[0xFF, 0xFF, 0xFD, 0, 1, 0x30, 0]),
		frame(3, PING, &[]),
		frame(BROADCAST, SYNC_WRITE, &[0xFF, 0xFF, 0xFD, 0, 1]),
		status(4, 2, &[]),
		bad_crc(status(3, 0, &[5])),
		bad_crc(frame(3, PING, &[5])),
		[&[0xFF, 0xFF, 0x00, 0xFD][..], &status(5, 0, &[1])].concat(),
		frame_raw(3, &[STATUS]),
		[short_frame(3, 0), frame(3, PING, &[])].concat(),
		[short_frame(3, 2), status(3, 0, &[9])].concat(),
		[frame_with_len(3, 100, &[1, 2, 3]), frame(3, READ, &[1, 2, 3, 4])].concat(),
	];
	r.sweep("long sessions of a reader", r.by_tier(18u64, 60), |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(7), Frag::Max(1)][ix.take(3)];
		let stride = [1usize, 3, 7, 11, 13][ix.0 as usize];
		if dev {
			device_session(cx, &pieces, MANY, stride, frag);
		} else {
			client_session(cx, &pieces, MANY, stride, frag);
		}
	});
	r.finish();
}

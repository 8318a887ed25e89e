//! C08: a rejected frame does not take the following frames down.
use mc::*;

const T: Duration = Duration::from_millis(5);
const BUF: usize = 24;

#[derive(Clone)]
struct Seg {
	name: &'static str,
	bytes: Vec<u8>,
	what: What,
}
#[derive(Clone, PartialEq, Debug)]
enum What {
	Packet,
	Checksum(u16, u16),
	TooBig(usize),
	Malformed,
}

fn seg(name: &'static str, bytes: Vec<u8>, what: What) -> Seg {
	Seg { name, bytes, what }
}

fn segments(buf: usize) -> Vec<Seg> {
	let mut v = vec![
		seg("status", status(3, 0, &[1, 2, 3]), What::Packet),
		seg("status stuffed", status(4, 0x80, &[0xFF, 0xFF, 0xFD]), What::Packet),
		seg("status motor error", status(3, 0x04, &[]), What::Packet),
		seg("status other count", status(3, 0, &[9]), What::Packet),
		seg("instruction", frame(3, WRITE, &[1, 0, 0xFF, 0xFF, 0xFD]), What::Packet),
		seg("instruction short", frame(0xFE, ACTION, &[]), What::Packet),
		seg("len 0", short_frame(3, 0), What::Malformed),
		seg("len 1", short_frame(3, 1), What::Malformed),
		seg("len 2", short_frame(3, 2), What::Malformed),
		seg("status without error byte", frame_raw(3, &[STATUS]), What::Malformed),
		seg("exactly too big", status(3, 0, &vec![0x33; buf - 10]), What::TooBig(buf + 1)),
		seg("too big", status(3, 0, &[0xFF; 30]), What::TooBig(41)),
		seg("too big, contents like a header", frame(3, WRITE, &[0xFF, 0xFF, 0xFD, 0x00, 0xFF, 0xFF, 0xFD, 0, 0, 0xFF, 0xFF, 0xFD, 0, 0xFF]), What::TooBig(27)),
		seg("fills the buffer", status(3, 0, &vec![0x44; buf - 11]), What::Packet),
	];
	for (name, f) in [
		("bad status", status(3, 0, &[1, 2, 3])),
		("bad instruction", frame(3, READ, &[1, 2, 3, 4])),
		("bad stuffed status", status(3, 0, &[0xFF, 0xFF, 0xFD])),
		("bad minimal", frame(3, PING, &[])),
		("bad, fills the buffer", status(3, 0, &vec![0x55; buf - 11])),
	] {
		let f = bad_crc(f);
		let m = f[f.len() - 2] as u16 | (f[f.len() - 1] as u16) << 8;
		let c = crc(0, &f[..f.len() - 2]);
		v.push(seg(name, f, What::Checksum(m, c)));
	}
	// The checksum field looks like the start of a header.
	let mut f = frame(3, PING, &[7]);
	let n = f.len();
	f[n - 2] = 0xFF;
	f[n - 1] = 0xFF;
	let c = crc(0, &f[..n - 2]);
	assert!(c != 0xFFFF);
	v.push(seg("bad, checksum FF FF", f, What::Checksum(0xFFFF, c)));
	v
}

fn expected(s: &Seg, buf: usize) -> Rx {
	match s.what {
		What::Packet => {
			let (id, inst, params) = parse_exact(&s.bytes).unwrap();
			Rx::Packet { id, inst, params }
		},
		What::Checksum(message, computed) => Rx::BadChecksum { message, computed },
		What::TooBig(need) => Rx::TooBig { need, have: buf },
		What::Malformed => Rx::Malformed,
	}
}

/// Read raw packets until nothing is left; every segment gives one result.
fn raw(cx: &Cx, segs: &[&Seg], frag: Frag, dev: bool, via: usize) {
	let port = VPort::new(cx).frag(frag);
	for s in segs {
		port.feed(&s.bytes);
	}
	let names: Vec<&str> = segs.iter().map(|s| s.name).collect();
	if dev {
		let mut d = device(&port, BUF, 16);
		for (i, s) in segs.iter().enumerate() {
			let want = expected(s, BUF);
			if matches!(want, Rx::Packet { inst: STATUS, .. }) {
				continue;
			}
			if via == 0 {
				let got = dev_raw(&mut d, T);
				if let Err(e) = judge_instruction(&want, &got) {
					vfail!("device, {frag:?}, segments {names:?}: at {i}: {e}");
				}
			} else {
				let got = if via == 1 { d.read(T).map(|x| x.id).map_err(Er::from) } else { d.read_owned(T).map(|x| x.id).map_err(Er::from) };
				match (&want, &got) {
					(Rx::Packet { id, .. }, g) => vassert!(*g == Ok(*id), "device read, segments {names:?}: at {i}: {g:?}"),
					(w, Err(e)) => {
						if let Err(e) = judge(None, None, w, &Err(e.clone())) {
							vfail!("device read, segments {names:?}: at {i}: {e}")
						}
					},
					(w, g) => vfail!("device read, segments {names:?}: at {i}: {g:?} instead of {w:?}"),
				}
			}
		}
		let got = dev_raw(&mut d, T);
		vassert!(got == Err(Er::Io(VErr::Timeout)), "device, {frag:?}, segments {names:?}: at the end: {got:02X?}");
	} else {
		let mut c = client(&port, BUF, 16);
		for (i, s) in segs.iter().enumerate() {
			let got = cl_status(&mut c, T);
			if let Err(e) = judge_status(&expected(s, BUF), &got) {
				vfail!("client, {frag:?}, segments {names:?}: at {i}: {e}");
			}
		}
		let got = cl_status(&mut c, T);
		vassert!(got == Err(Er::Io(VErr::Timeout)), "client, {frag:?}, segments {names:?}: at the end: {got:02X?}");
	}
	cx.outcome(&names);
	cx.sample(|| format!("{frag:?} {names:?}"));
}

/// A client operation consumes the first frame, the rest is read raw.
fn through_op(cx: &Cx, op: &Op, segs: &[&Seg], frag: Frag) {
	let port = VPort::new(cx).frag(frag);
	port.replies(vec![segs.iter().map(|s| In::Bytes(s.bytes.clone())).collect()]);
	let names: Vec<&str> = segs.iter().map(|s| s.name).collect();
	let mut c = client(&port, BUF, 64);
	let got = run(&mut c, op);
	let mut k = 0;
	match op.replies() {
		Replies::Each(w) => {
			vassert!(got.items.len() == w.len(), "{op:?}, {names:?}: {got:02X?}");
			for (id, n) in w {
				let want = segs.get(k).map(|s| expected(s, BUF)).unwrap_or(Rx::Nothing);
				let n = if matches!(op, Op::Transfer(..)) { None } else { Some(n) };
				if let Err(e) = judge(Some(id), n, &want, &got.items[k]) {
					vfail!("{op:?}, {frag:?}, segments {names:?}: at {k}: {e}");
				}
				k += 1;
			}
		},
		Replies::Scan => {
			vassert!(got.items.len() == segs.len(), "scan, {names:?}: {got:02X?}");
			for s in segs {
				if let Err(e) = judge(None, Some(3), &expected(s, BUF), &got.items[k]) {
					vfail!("scan, {frag:?}, segments {names:?}: at {k}: {e}");
				}
				k += 1;
			}
		},
		Replies::None => {},
	}
	for s in segs.iter().skip(k) {
		let got = cl_status(&mut c, T);
		if let Err(e) = judge_status(&expected(s, BUF), &got) {
			vfail!("after {op:?}, {frag:?}, segments {names:?}: at {k}: {e}");
		}
		k += 1;
	}
	cx.outcome(&got);
}

fn main() {
	let mut r = Runner::new("C08");
	r.assume("the contents of frames that are too big for the buffer do not contain a header prefix (they are byte stuffed)");
	let segs = segments(BUF);
	let good_s = &segs[0].clone();
	let good_i = &segs[4].clone();
	let n = r.by_tier(3usize, 4);
	let frags = [Frag::All, Frag::Max(1), Frag::Max(2), Frag::Max(5), Frag::Max(8), Frag::Max(11), Frag::Items];
	r.tree("sequences of frames, fixed read sizes", None, |cx| {
		let k = 1 + cx.choose(n);
		let mut v: Vec<&Seg> = (0..k).map(|_| cx.pick(&segs)).collect();
		for f in frags {
			v.push(good_s);
			raw(cx, &v, f, false, 0);
			v.pop();
			v.push(good_i);
			raw(cx, &v, f, true, k % 3);
			raw(cx, &v, f, true, (k + 1) % 3);
			v.pop();
		}
	});
	let (b, triple) = r.by_tier((3usize, 1usize), (4, 3));
	r.tree("pairs of frames under bounded fragmentation", Some(b), |cx| {
		let v: Vec<&Seg> = vec![cx.pick(&segs), cx.pick(&segs), if cx.flag() { good_s } else { good_i }];
		raw(cx, &v, Frag::Choose, std::ptr::eq(v[2], good_i), 0);
	});
	r.tree("triples of frames under bounded fragmentation", Some(triple), |cx| {
		let v: Vec<&Seg> = vec![cx.pick(&segs), cx.pick(&segs), cx.pick(&segs), if cx.flag() { good_s } else { good_i }];
		raw(cx, &v, Frag::Choose, std::ptr::eq(v[3], good_i), 0);
	});
	let short: Vec<Seg> = segs.iter().filter(|s| s.bytes.len() <= 10 || s.name == "too big").cloned().collect();
	r.tree("one rejected frame under every fragmentation", if r.thorough() { Some(8) } else { Some(5) }, |cx| {
		let s = cx.pick(&short);
		if cx.flag() {
			raw(cx, &[s, &segs[5]], Frag::Choose, true, 0);
		} else {
			raw(cx, &[s, &seg("minimal", status(1, 0, &[]), What::Packet)], Frag::Choose, false, 0);
		}
	});
	let mut ops = representative_ops();
	ops.push(Op::SyncRead(vec![3, 4, 3, 3], 0, Ty::U8, Via::Iter));
	ops.push(Op::SyncReadBytes(vec![3, 4, 3], 0, 3, Via::Next));
	ops.push(Op::SyncReadBytes(vec![3, 4, 3], 0, 3, Via::BorrowCtor));
	ops.push(Op::BulkRead(vec![(3, 0, 3), (4, 0, 3), (5, 0, 3)], Via::Next));
	ops.push(Op::BulkRead(vec![(3, 0, 1), (4, 0, 3), (5, 0, 3)], Via::BorrowCtor));
	// Also the replies of other motors, with any number of parameters.
	let mut all = segs.clone();
	all.push(seg("status of another motor", status(7, 0, &[1, 2, 3]), What::Packet));
	all.push(seg("empty status", status(3, 0, &[]), What::Packet));
	all.push(seg("empty status of another motor", status(4, 0, &[]), What::Packet));
	let n = r.by_tier(3usize, 4);
	r.tree("operations, rest read afterwards", None, |cx| {
		let op = cx.pick(&ops);
		let mut v: Vec<&Seg> = (0..n).map(|_| cx.pick(&all)).collect();
		v.push(good_s);
		for f in [Frag::All, Frag::Max(1), Frag::Items] {
			through_op(cx, op, &v, f);
		}
	});
	// Every checksum value that can precede a header.
	r.sweep("every wrong checksum in front of a good frame", 65536, |i, cx| {
		let mut f = status(3, 0, &[5]);
		let n = f.len();
		let c = crc(0, &f[..n - 2]);
		if i as u16 == c {
			return;
		}
		f[n - 2..].copy_from_slice(&(i as u16).to_le_bytes());
		let s = seg("bad", f, What::Checksum(i as u16, c));
		raw(cx, &[&s, &s, good_s], Frag::All, false, 0);
		raw(cx, &[&s, &s, good_i], Frag::Max(10), true, 0);
	});
	// Rejected frames of any size that contain what looks like another frame.
	let sizes = [0usize, 10, 50, 120, 128, 250, 256, 300, 500, 512, 900, 1000, 1024, 1030, 2048, 4096, 5000, 10_000, 32_768, 60_000];
	r.sweep("long rejected frames with a frame inside", (sizes.len() * 4 * 3 * 3 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = *ix.of(&sizes);
		let place = ix.take(4);
		let how = ix.take(3);
		let frag = [Frag::All, Frag::Max(100), Frag::Max(1000)][ix.take(3)];
		let dev = ix.take(2) == 1;
		let inner = [status(9, 0, &[1, 2]), frame(9, PING, &[])].concat();
		let at = [0, n / 2, n.saturating_sub(1), n][place];
		let mut body = vec![if dev { WRITE } else { STATUS }, 0];
		body.extend(vec![0x11; at]);
		body.extend(&inner);
		body.extend(vec![0x22; n - at]);
		// The inner frame is not stuffed.
		let f = frame_with_len(3, (body.len() + 2) as u16, &body);
		let sum = crc(0, &f) ^ [1, 0x8000, 0xFFFF][how];
		let message = [&f[..], &sum.to_le_bytes()].concat();
		let s = seg("long bad", message, What::Checksum(sum, crc(0, &f)));
		let port = VPort::new(cx).frag(frag);
		let good = if dev { frame(4, PING, &[]) } else { status(4, 0, &[8]) };
		port.feed(&s.bytes);
		port.feed(&good);
		let want = Er::Checksum { message: sum, computed: crc(0, &f) };
		let what = || format!("a rejected frame of {} bytes with a frame inside at {at}", s.bytes.len());
		if dev {
			let mut d = device(&port, 66_000, 64);
			let got = dev_raw(&mut d, T);
			vassert!(got == Err(want.clone()), "{}: {:?} instead of {want:?}", what(), got.map(|x| x.0));
			let got = dev_raw(&mut d, T);
			vassert!(got == Ok((4, PING, vec![])), "after {}: {:02X?}", what(), got);
		} else {
			let mut c = client(&port, 66_000, 64);
			let got = cl_status(&mut c, T);
			vassert!(got == Err(want.clone()), "{}: {:?} instead of {want:?}", what(), got.map(|x| x.0));
			let got = cl_status(&mut c, T);
			vassert!(got == Ok((4, 0, vec![8])), "after {}: {:02X?}", what(), got);
		}
	});
	// More frames than a small counter can count, by one reader.
	let pieces: Vec<Vec<u8>> = vec![
		bad_crc(status(3, 0, &[5])),
		bad_crc(frame(3, PING, &[5])),
		frame_raw(3, &[STATUS]),
		[short_frame(3, 0), frame(3, PING, &[])].concat(),
		[short_frame(3, 2), status(3, 0, &[9])].concat(),
		[frame_with_len(3, 100, &[1, 2, 3]), frame(3, READ, &[1, 2, 3, 4])].concat(),
		status(3, 5, &[]),
		status(3, 0, &[0xFF, 0xFF, 0xFD]),
		frame(3, WRITE, &[0xFF, 0xFF, 0xFD]),
		bad_crc(status(3, 0, &[5; 37])),
	];
	r.sweep("long sessions of a reader", r.by_tier(18u64, 60), |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(7), Frag::Max(1)][ix.take(3)];
		let stride = [1usize, 3, 7, 11, 13][ix.0 as usize];
		if dev {
			device_session(cx, &pieces, MANY, stride, frag);
		} else {
			client_session(cx, &pieces, MANY, stride, frag);
		}
	});
	// Long runs of rejected frames, then a good one.
	r.sweep("many rejected frames in a row", (pieces.len() * 4 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let bad = ix.of(&pieces);
		let n = [100usize, 256, 300, 5000][ix.take(4)];
		let mut all = vec![bad.repeat(n)];
		all.push(status(3, 0, &[1]));
		all.push(frame(3, PING, &[]));
		if ix.take(2) == 1 {
			device_session(cx, &all, 6, 1, Frag::Max(100));
		} else {
			client_session(cx, &all, 6, 1, Frag::Max(100));
		}
	});
	r.finish();
}

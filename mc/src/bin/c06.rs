//! C06: line noise between frames is skipped.
use mc::*;

const T: Duration = Duration::from_millis(5);

/// Frames with noise before each of them; every frame must be delivered, in order, without any error in between.
fn check(cx: &Cx, frames: &[Vec<u8>], noise: &[Vec<u8>], frag: Frag, buf: usize, dev: bool) {
	let mut stream = vec![];
	for (i, f) in frames.iter().enumerate() {
		stream.extend_from_slice(&noise[i]);
		stream.extend_from_slice(f);
	}
	if let Some(n) = noise.get(frames.len()) {
		stream.extend_from_slice(n);
	}
	let port = VPort::new(cx).frag(frag).horizon(200_000 + 2 * stream.len() as u32);
	port.feed(&stream);
	if dev {
		let mut d = device(&port, buf, 16);
		for f in frames {
			let (id, inst, p) = parse_exact(f).unwrap();
			if inst == STATUS {
				continue;
			}
			let got = dev_raw(&mut d, T);
			vassert!(got == Ok((id, inst, p.clone())), "device, buffer {buf}, noise {noise:02X?}: got {got:02X?} instead of frame {}", hex(f));
		}
		let got = dev_raw(&mut d, T);
		vassert!(got == Err(Er::Io(VErr::Timeout)), "device, buffer {buf}, noise {noise:02X?}: after all frames: {got:02X?}");
	} else {
		let mut c = client(&port, buf, 16);
		for f in frames {
			let (id, inst, p) = parse_exact(f).unwrap();
			let got = cl_status(&mut c, T);
			if inst == STATUS {
				vassert!(got == Ok((id, p[0], p[1..].to_vec())), "client, buffer {buf}, noise {noise:02X?}: got {got:02X?} instead of frame {}", hex(f));
			} else {
				vassert!(got == Err(Er::Instr { actual: inst, expected: STATUS }), "client, buffer {buf}, noise {noise:02X?}: got {got:02X?} for instruction {}", hex(f));
			}
		}
		let got = cl_status(&mut c, T);
		vassert!(got == Err(Er::Io(VErr::Timeout)), "client, buffer {buf}, noise {noise:02X?}: after all frames: {got:02X?}");
	}
	cx.outcome(&stream.len());
}

fn noise(cx: &Cx, alpha: &[u8], max: usize) -> Option<Vec<u8>> {
	let n = cx.choose(max + 1);
	let v: Vec<u8> = (0..n).map(|_| *cx.pick(alpha)).collect();
	if contains(&v, &HEADER) {
		None
	} else {
		Some(v)
	}
}

fn main() {
	let mut r = Runner::new("C06");
	r.assume("noise contains no complete header prefix FF FF FD 00 (such noise is the beginning of a frame, see C07 and C08)");
	let alpha = [0xFFu8, 0xFD, 0x00, 0x07];
	let st = status(3, 0, &[0xFF, 0xFF, 0xFD]);
	let st2 = status(4, 0x80, &[1, 2]);
	let ins = frame(3, 0x03, &[0x10, 0, 0xFF, 0xFF, 0xFD]);
	let ins2 = frame(0xFE, 0x05, &[]);

	let max = r.by_tier(9usize, 11);
	r.tree("noise before one frame", None, |cx| {
		let Some(n) = noise(cx, &alpha, max) else { return };
		check(cx, &[st.clone()], &[n.clone()], Frag::All, 20, false);
		check(cx, &[ins.clone()], &[n.clone()], Frag::All, 20, true);
		check(cx, &[ins.clone()], &[n.clone()], Frag::Max(1), 16, true);
		check(cx, &[st.clone()], &[n.clone()], Frag::Max(1), 15, false);
		check(cx, &[st.clone()], &[n.clone()], Frag::Max(3), 15, false);
		check(cx, &[st2.clone(), st.clone()], &[vec![], n.clone()], Frag::Max(5), 15, false);
		cx.sample(|| format!("noise {}", hex(&n)));
	});
	let max = r.by_tier(4usize, 5);
	r.tree("noise around two frames", None, |cx| {
		let Some(a) = noise(cx, &alpha, max) else { return };
		let Some(b) = noise(cx, &alpha, max) else { return };
		let ns = [a, b.clone(), b];
		let k = cx.choose(4);
		let frag = *cx.pick(&[Frag::All, Frag::Max(1), Frag::Max(4), Frag::Max(7)]);
		match k {
			0 => check(cx, &[st.clone(), st2.clone()], &ns, frag, 15, false),
			1 => check(cx, &[ins.clone(), ins2.clone()], &ns, frag, 16, true),
			2 => check(cx, &[st.clone(), ins2.clone()], &ns, frag, 32, true),
			_ => check(cx, &[ins.clone(), st2.clone()], &ns, frag, 32, false),
		}
	});
	// Every placement of cuts in the noise and the frame.
	let max = r.by_tier(6usize, 6);
	r.tree("noise under bounded fragmentation", Some(r.by_tier(3usize, 5)), |cx| {
		let Some(n) = noise(cx, &[0xFF, 0xFD, 0x00], max) else { return };
		let dev = cx.flag();
		if dev {
			check(cx, &[ins2.clone(), ins.clone()], &[vec![], n], Frag::Choose, 20, true);
		} else {
			check(cx, &[st2.clone(), st.clone()], &[vec![], n], Frag::Choose, 20, false);
		}
	});
	r.tree("noise under every fragmentation", None, |cx| {
		let n = cx.pick(&[vec![0xFFu8, 0xFF], vec![0xFF, 0xFF, 0xFD], vec![0xFF, 0xFF, 0xFD, 0xFF], vec![0xFD, 0x00]]).clone();
		if cx.flag() {
			check(cx, &[ins2.clone()], &[n], Frag::Choose, 20, true);
		} else {
			check(cx, &[status(3, 0, &[])], &[n], Frag::Choose, 20, false);
		}
	});
	// All values of single and double noise bytes.
	r.sweep("every pair of noise bytes", 65536, |i, cx| {
		let n = vec![i as u8, (i >> 8) as u8];
		check(cx, &[st.clone(), st2.clone()], &[n.clone(), n.clone()], Frag::All, 15, false);
		check(cx, &[ins.clone(), ins2.clone()], &[n.clone(), n], Frag::Max(2), 16, true);
	});
	// Any amount of noise relative to the buffer: every length, buffer size and filling.
	let pats: Vec<&[u8]> = vec![&[0xFF], &[0x00], &[0xFF, 0xFF, 0xFD], &[0xFF, 0xFF], &[0xFD, 0x00, 0xFF], &[0xFF, 0xFF, 0xFD, 0xFD], &[1, 2, 3, 4, 5, 6, 7]];
	let top = r.by_tier(600usize, 4000);
	r.sweep("amount of noise", (top * pats.len() * 5 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let len = ix.take(top);
		let pat = *ix.of(&pats);
		let buf = [15usize, 16, 17, 30, 128][ix.take(5)];
		let dev = ix.take(2) == 1;
		let n: Vec<u8> = pat.iter().cycle().take(len).copied().collect();
		for frag in [Frag::All, Frag::Max(1), Frag::Max(11)] {
			if dev {
				check(cx, &[ins2.clone(), ins2.clone()], &[n.clone(), n.clone()], frag, buf, true);
			} else {
				check(cx, &[st2.clone(), st.clone()], &[n.clone(), n.clone()], frag, buf, false);
			}
		}
	});
	// Operations with noise before and between their replies.
	let ops = representative_ops();
	let max = r.by_tier(6usize, 8);
	r.tree("operations with noise", None, |cx| {
		let op = cx.pick(&ops);
		let Some(n) = noise(cx, &[0xFF, 0xFD, 0x00], max) else { return };
		let frag = *cx.pick(&[Frag::All, Frag::Max(1), Frag::Items]);
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, 32, 64);
		let mut replies = vec![];
		for f in op.good_replies() {
			replies.push(In::Bytes(n.clone()));
			replies.push(In::Bytes(f));
		}
		replies.push(In::Bytes(n.clone()));
		replies.retain(|x| *x != In::Bytes(vec![]));
		port.replies(vec![replies]);
		let got = run(&mut c, op);
		vassert!(got.all_ok(&op.good_items()), "{op:?} with noise {n:02X?}: {got:02X?}, expected {:02X?}", op.good_items());
		cx.outcome(&got);
	});
	// Noise beyond all sizes of counters and buffers.
	let lens = [254usize, 255, 256, 257, 4095, 4096, 4097, 32768, 65534, 65535, 65536, 65537, 70_000, 200_000];
	r.sweep("a lot of noise", (lens.len() * pats.len() * 2 * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let len = *ix.of(&lens);
		let pat = *ix.of(&pats);
		let dev = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(1), Frag::Max(11)][ix.take(3)];
		let n: Vec<u8> = pat.iter().cycle().take(len).copied().collect();
		let f = if dev { ins2.clone() } else { st2.clone() };
		check(cx, &[f.clone(), f], &[n, vec![1]], frag, 30, dev);
	});
	// Noise before each of many frames.
	r.sweep("many frames with noise", 7 * 2 * 3, |i, cx| {
		let mut ix = Ix(i);
		let pat = *ix.of(&pats);
		let dev = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(3), Frag::Max(16)][ix.take(3)];
		let n = 3000;
		let frames: Vec<Vec<u8>> = (0..n).map(|k| if dev { frame(k as u8, 0x05, &[]) } else { status(k as u8, 0, &[k as u8]) }).collect();
		let noises: Vec<Vec<u8>> = (0..n).map(|k| pat.iter().cycle().take(k % 29).copied().collect()).collect();
		check(cx, &frames, &noises, frag, 30, dev);
	});
	r.finish();
}

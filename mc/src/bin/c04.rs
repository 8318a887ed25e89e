//! C04: frames with transmission errors are never accepted.
use mc::*;

const T: Duration = Duration::from_millis(5);

struct Case {
	name: &'static str,
	op: Option<Op>,
	good: Vec<u8>,
}

/// Feed a corrupted frame followed by an intact one; the first must be reported as an invalid checksum, never as data.
fn try_corrupt(cx: &Cx, case: &Case, f: &[u8]) {
	let message = f[f.len() - 2] as u16 | (f[f.len() - 1] as u16) << 8;
	let computed = crc(0, &f[..f.len() - 2]);
	if message == computed {
		// Only possible for error patterns that the CRC does not detect; counted and reported in the evidence.
		UNDETECTABLE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
		return;
	}
	let want = Er::Checksum { message, computed };
	let port = VPort::new(cx);
	match &case.op {
		Some(op) => {
			let mut c = client(&port, 64, 64);
			port.reply_bytes(f.to_vec());
			let got = run_take(&mut c, op, 1).items.first().cloned();
			vassert!(got == Some(Err(want.clone())), "{}: {op:?} with the corrupted reply {} (was {}) gave {got:02X?}, expected {want:02X?}", case.name, hex(f), hex(&case.good));
			// Raw reading.
			let port = VPort::new(cx);
			port.feed(f);
			port.feed(&case.good);
			let mut c = client(&port, 64, 64);
			let got = cl_status(&mut c, T);
			vassert!(got == Err(want.clone()), "{}: reading {} gave {got:02X?}, expected {want:02X?}", case.name, hex(f));
			let got = cl_status(&mut c, T);
			vassert!(got.is_ok(), "{}: the intact frame after the corrupted one gave {got:02X?}", case.name);
		},
		None => {
			let mut d = device(&port, 64, 64);
			port.feed(f);
			port.feed(&case.good);
			let got = dev_raw(&mut d, T);
			vassert!(got == Err(want.clone()), "{}: the device read {} as {got:02X?}, expected {want:02X?}", case.name, hex(f));
			let got = dev_raw(&mut d, T);
			vassert!(got.is_ok(), "{}: the intact frame after the corrupted one gave {got:02X?}", case.name);
			let port = VPort::new(cx);
			let mut d = device(&port, 64, 64);
			port.feed(f);
			let got = d.read_owned(T).map(|x| x.id).map_err(Er::from);
			vassert!(got == Err(want.clone()), "{}: the device read {} as {got:02X?}", case.name, hex(f));
			let got = d.read(T).map(|x| x.id).map_err(Er::from);
			vassert!(got == Err(Er::Io(VErr::Timeout)), "{}: after a corrupted frame the device read {got:02X?}", case.name);
		},
	}
	cx.step();
}
static UNDETECTABLE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Bit positions of the packet ID, body and checksum, in the order in which the checksum sees them.
fn bits(f: &[u8]) -> Vec<(usize, u8)> {
	let mut v = vec![];
	for i in (4..f.len()).filter(|&i| i != 5 && i != 6) {
		for b in (0..8).rev() {
			v.push((i, 1 << b));
		}
	}
	v
}

fn main() {
	let mut r = Runner::new("C04");
	r.assume("only errors outside the header prefix and length field are enumerated (those move the frame boundary and are covered by C07)");
	let cases = vec![
		Case { name: "ping reply", op: Some(Op::Ping(3)), good: status(3, 0, &[0x06, 0x04, 0x26]) },
		Case { name: "stuffed read reply", op: Some(Op::ReadVec(3, 132, 6)), good: status(3, 0x80, &[1, 0xFF, 0xFF, 0xFD, 0, 2]) },
		Case { name: "write reply", op: Some(Op::WriteBytes(3, 1, vec![1])), good: status(3, 0, &[]) },
		Case { name: "sync read reply", op: Some(Op::SyncRead(vec![3, 4], 1, Ty::U16, Via::Next)), good: status(3, 0, &[7, 8]) },
		Case { name: "bulk read reply", op: Some(Op::BulkRead(vec![(3, 1, 2)], Via::Next)), good: status(3, 0, &[7, 8]) },
		Case { name: "scan reply", op: Some(Op::Scan), good: status(3, 0, &[7, 8, 9]) },
		Case { name: "write instruction", op: None, good: frame(3, WRITE, &[0x74, 0, 0, 2, 0, 0]) },
		Case { name: "ping instruction", op: None, good: frame(3, PING, &[]) },
		Case { name: "unknown instruction, stuffed", op: None, good: frame(3, 0x77, &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF, 0xFD]) },
	];
	let n = cases.len();

	r.tree("one and two flipped bits", None, |cx| {
		let case = cx.pick(&cases);
		let b = bits(&case.good);
		let i = cx.choose(b.len());
		let j = cx.choose(b.len());
		if j < i {
			return;
		}
		let mut f = case.good.clone();
		f[b[i].0] ^= b[i].1;
		if j > i {
			f[b[j].0] ^= b[j].1;
		}
		try_corrupt(cx, case, &f);
		cx.sample(|| format!("{}: {}", case.name, hex(&f)));
	});
	// All bursts of up to `w` bits, in the bit order of the checksum.
	let w = r.by_tier(15usize, 19);
	let maxbits = 8 * 24u64;
	r.sweep("bursts", n as u64 * maxbits << (w - 1), |i, cx| {
		let mut ix = Ix(i);
		let pat = ix.take(1 << (w - 1)) << 1 | 1;
		let case = ix.of(&cases);
		let start = ix.take(maxbits as usize);
		let b = bits(&case.good);
		let mut f = case.good.clone();
		for k in 0..w {
			if pat >> k & 1 == 1 {
				match b.get(start + k) {
					Some(x) => f[x.0] ^= x.1,
					None => return,
				}
			}
		}
		try_corrupt(cx, case, &f);
	});
	// The same on the line: the serial port sends the least significant bit first.
	r.sweep("bursts in line order", n as u64 * maxbits << (w - 1), |i, cx| {
		let mut ix = Ix(i);
		let pat = ix.take(1 << (w - 1)) << 1 | 1;
		let case = ix.of(&cases);
		let start = ix.take(maxbits as usize);
		let mut b = bits(&case.good);
		for c in b.chunks_mut(8) {
			c.reverse();
		}
		let mut f = case.good.clone();
		for k in 0..w {
			if pat >> k & 1 == 1 {
				match b.get(start + k) {
					Some(x) => f[x.0] ^= x.1,
					None => return,
				}
			}
		}
		try_corrupt(cx, case, &f);
	});
	r.sweep("replaced bytes", n as u64 * 24 * 256, |i, cx| {
		let mut ix = Ix(i);
		let case = ix.of(&cases);
		let pos = 4 + ix.take(24);
		let v = ix.take(256) as u8;
		if pos == 5 || pos == 6 || pos >= case.good.len() || case.good[pos] == v {
			return;
		}
		let mut f = case.good.clone();
		f[pos] = v;
		try_corrupt(cx, case, &f);
	});
	// The checksum field takes every value.
	r.sweep("all checksum fields", n as u64 * 65536, |i, cx| {
		let mut ix = Ix(i);
		let case = ix.of(&cases);
		let v = ix.take(65536) as u16;
		let mut f = case.good.clone();
		let k = f.len() - 2;
		if f[k..] == v.to_le_bytes() {
			return;
		}
		f[k..].copy_from_slice(&v.to_le_bytes());
		try_corrupt(cx, case, &f);
	});
	// Longer frames: every single bit, and every replaced byte class, of frames of every length up to a bound.
	let top = r.by_tier(300usize, 1000);
	r.sweep("single bits of longer frames", top as u64 * (top as u64 + 6) * 8, |i, cx| {
		let mut ix = Ix(i);
		let bit = ix.take(8);
		let len = ix.take(top);
		let pos = ix.take(top + 6);
		let data: Vec<u8> = (0..len).map(|k| (k * 29 + 3) as u8).collect();
		let good = status(3, 0, &data);
		let k = if pos == 0 { 4 } else { 6 + pos };
		if k >= good.len() {
			return;
		}
		let mut f = good.clone();
		f[k] ^= 1 << bit;
		let port = VPort::new(cx);
		let mut c = client(&port, 512, 64);
		port.reply_bytes(f.clone());
		let got = run(&mut c, &Op::ReadVec(3, 0, len as u16)).one();
		let m = f[f.len() - 2] as u16 | (f[f.len() - 1] as u16) << 8;
		let want = Er::Checksum { message: m, computed: crc(0, &f[..f.len() - 2]) };
		vassert!(got == Err(want.clone()), "length {len}, bit {bit} of byte {k} flipped: {got:02X?}, expected {want:02X?}");
	});
	// Frames of any size up to the largest: errors near the ends and in between.
	let sizes = [200usize, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4000, 4095, 4096, 4097, 8192, 10_000, 16_384, 32_000, 32_767, 32_768, 40_000, 60_000, 65_000, 65_500];
	let step = r.by_tier(1009usize, 101);
	r.sweep("very long frames", sizes.len() as u64 * 2 * 8 * 700, |i, cx| {
		let mut ix = Ix(i);
		let n = *ix.of(&sizes);
		let dev = ix.take(2) == 1;
		let bit = ix.take(8);
		let k = ix.0 as usize;
		let data: Vec<u8> = (0..n).map(|k| (k * 29 + k / 256) as u8 & 0x7F).collect();
		let mut f = if dev { frame(3, WRITE, &data) } else { status(3, 0, &data) };
		let len = f.len();
		let Some(at) = (4..len).filter(|x| *x != 5 && *x != 6 && (x % step == 0 || *x < 12 || len - x < 5)).nth(k) else { return };
		f[at] ^= 1 << bit;
		let want = Er::Checksum { message: f[len - 2] as u16 | (f[len - 1] as u16) << 8, computed: crc(0, &f[..len - 2]) };
		let port = VPort::new(cx).frag(if k % 2 == 0 { Frag::All } else { Frag::Max(1 + len / 4) });
		let what = || format!("a frame of {len} bytes with bit {bit} of byte {at} flipped");
		if dev {
			let mut d = device(&port, 66_000, 64);
			port.feed(&f);
			port.feed(&frame(9, PING, &[]));
			let got = dev_raw(&mut d, T);
			vassert!(got == Err(want.clone()), "the device read {}: {:?}, expected {want:02X?}", what(), got.map(|x| x.0));
			let got = dev_raw(&mut d, T);
			vassert!(got == Ok((9, PING, vec![])), "after {}, the device read {:?}", what(), got.map(|x| x.0));
		} else {
			let mut c = client(&port, 66_000, 64);
			port.reply_bytes(f);
			let got = run(&mut c, &Op::ReadVec(3, 0, n as u16)).one();
			vassert!(got == Err(want.clone()), "{}: {:?}, expected {want:02X?}", what(), got.map(|x| x.id));
		}
	});
	// What else is received together with the damaged frame does not matter.
	let fill = r.by_tier(60u64, 260);
	r.sweep("in company", 2 * 5 * fill * 6 * 4 * 4, |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let before = ix.take(5) as usize;
		let at = ix.take(6) as usize;
		let size = *ix.of(&[64usize, 128, 1000, 5000]);
		let frag = *ix.of(&[Frag::All, Frag::Max(1), Frag::Max(100), Frag::Items]);
		let behind = ix.0 as usize;
		let other = |k: usize| if dev { frame(k as u8, WRITE, &vec![k as u8; 2 + k % 5]) } else { status(k as u8, (k % 2 * 128) as u8, &vec![k as u8; k % 5]) };
		let mut f = if dev { frame(3, WRITE, &[1, 2, 3, 0xFF, 0xFF, 0xFD]) } else { status(3, 0, &[1, 2, 3, 0xFF, 0xFF, 0xFD]) };
		let len = f.len();
		// In the ID, the instruction, the first and last parameter and the checksum.
		f[[4, 7, 8, len - 3, len - 2, len - 1][at]] ^= 1 << (i % 8);
		let port = VPort::new(cx).frag(frag).horizon(100_000);
		let mut all: Vec<Vec<u8>> = (0..before).map(other).collect();
		all.push(f);
		all.extend((0..behind).map(|k| other(100 + k)));
		for f in &all {
			port.feed(f);
		}
		let stream = all.concat();
		let mut rx = RefRx::over(size, &stream);
		let (mut c, mut d) = (client(&port, size, 64), device(&port, size, 64));
		for _ in 0..(before + 1 + behind).min(before + 3) {
			let r = if dev { judge_instruction(&next_for_device(&mut rx), &dev_raw(&mut d, T)) } else { judge_status(&rx.next(), &cl_status(&mut c, T)) };
			if let Err(e) = r {
				vfail!("a damaged frame behind {before} and in front of {behind} others, {frag:?}, buffer of {size}: {e}");
			}
			cx.step();
		}
	});
	// Or how it came in pieces, with errors in between.
	r.tree("interrupted", None, |cx| {
		let case = cx.pick(&cases);
		let mut f = case.good.clone();
		let len = f.len();
		f[*cx.pick(&[4, 7, len - 3, len - 2, len - 1])] ^= *cx.pick(&[1, 0x80]);
		let message = f[len - 2] as u16 | (f[len - 1] as u16) << 8;
		let want = Er::Checksum { message, computed: crc(0, &f[..len - 2]) };
		let mut cuts = [1 + cx.choose(len - 1), 1 + cx.choose(len - 1)];
		cuts.sort();
		let port = VPort::new(cx).frag(Frag::Items);
		let errors = [cx.pick(&[In::Err(VErr::Timeout), In::Err(VErr::Fault(1)), In::Zero]).clone(), cx.pick(&[In::Err(VErr::Timeout), In::Zero]).clone()];
		let mut at = 0;
		for (cut, e) in cuts.iter().zip(&errors) {
			if *cut > at {
				port.push(In::Bytes(f[at..*cut].to_vec()));
			}
			port.push(e.clone());
			at = *cut;
		}
		port.push(In::Bytes(f[at..].to_vec()));
		let (mut c, mut d) = (client(&port, 64, 64), device(&port, 64, 64));
		for _ in 0..1 + errors.iter().filter(|e| !matches!(e, In::Zero)).count() {
			let e = match &case.op {
				Some(_) => cl_status(&mut c, T).map(|_| ()),
				None => dev_raw(&mut d, T).map(|_| ()),
			};
			let more = port.0.borrow().input.iter().any(|i| matches!(i, In::Bytes(_)));
			match e {
				Err(Er::Io(_)) if more => continue,
				Err(e) if e == want => break,
				e => vfail!("{}: {} in pieces, with errors after {cuts:?}: {e:02X?}, expected {want:02X?}", case.name, hex(&f)),
			}
		}
	});
	let many = r.by_tier(5_000usize, 140_000);
	r.sweep("long sessions", 12, |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let every = *ix.of(&[2usize, 3, 7]);
		let op = ix.take(2) == 1;
		let port = VPort::new(cx).horizon(u32::MAX);
		let (mut c, mut d) = (client(&port, 64, 64), device(&port, 64, 64));
		for k in 0..many {
			let data = [k as u8, (k >> 8) as u8, 7];
			let mut f = if dev { frame(3, WRITE, &data) } else { status(3, 0, &data) };
			let damaged = k % every == 1;
			if damaged {
				let at = [4, 7, 8, 9, 10, f.len() - 2, f.len() - 1][k / every % 7];
				f[at] ^= 1 << (k / 7 % 8);
			}
			let got = match (dev, op) {
				(true, _) => {
					port.feed(&f);
					dev_raw(&mut d, T).map(|x| x.2)
				},
				(_, false) => {
					port.feed(&f);
					cl_status(&mut c, T).map(|x| x.2)
				},
				_ => {
					port.replies(vec![vec![In::Bytes(f.clone())]]);
					run(&mut c, &Op::ReadVec(3, 9, 3)).one().map(|x| x.data)
				},
			};
			let good = match &got {
				Ok(x) => !damaged && x[..] == data,
				Err(Er::Checksum { .. }) => damaged,
				_ => false,
			};
			vassert!(good, "frame {k} ({}), {}: {got:02X?}", hex(&f), if damaged { "damaged" } else { "good" });
			if k % 64 == 0 {
				port.fresh();
			}
		}
	});
	// Truncation at every byte, for all receivers; nothing else arrives, or another frame follows.
	r.tree("truncation", None, |cx| {
		let case = cx.pick(&cases);
		let cut = cx.choose(case.good.len());
		let follow = cx.flag();
		let mut stream = case.good[..cut].to_vec();
		let other = if case.op.is_some() { status(3, 0, &[0x42]) } else { frame(3, 0x42, &[0x42]) };
		if follow {
			stream.extend_from_slice(&other);
		}
		let mut rx = RefRx::over(64, &stream);
		let port = VPort::new(cx).frag(Frag::Choose);
		port.set_frag(if cx.flag() { Frag::Max(1) } else { Frag::All });
		port.feed(&stream);
		if case.op.is_some() {
			let mut c = client(&port, 64, 64);
			for _ in 0..2 {
				let got = cl_status(&mut c, T);
				if let Err(e) = judge_status(&rx.next(), &got) {
					fail(format!("{} cut to {} bytes: {e}", case.name, cut));
				}
			}
		} else {
			let mut d = device(&port, 64, 64);
			for _ in 0..2 {
				let got = dev_raw(&mut d, T);
				if let Err(e) = judge_instruction(&next_for_device(&mut rx), &got) {
					fail(format!("{} cut to {} bytes: {e}", case.name, cut));
				}
			}
		}
		if let (Some(op), false) = (&case.op, follow) {
			let port = VPort::new(cx);
			let mut c = client(&port, 64, 64);
			port.reply_bytes(case.good[..cut].to_vec());
			let got = run_take(&mut c, op, 1);
			if op == &Op::Scan {
				vassert!(got.items.is_empty(), "{} cut to {cut} bytes: {got:02X?}", case.name);
			} else {
				vassert!(got.one() == Err(Er::Io(VErr::Timeout)), "{} cut to {cut} bytes: {got:02X?}", case.name);
			}
		}
	});
	r.note("error_patterns_not_detectable_by_the_checksum", UNDETECTABLE.load(std::sync::atomic::Ordering::Relaxed).to_string());
	r.finish();
}

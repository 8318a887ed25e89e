//! C22: register values encode and decode exactly.
use dynamixel2::bus::Data;
use dynamixel2::InvalidMessage;
use mc::*;

/// Encode and decode one value, given by its little-endian bytes, with a buffer of every length around its size.
fn value<T: Lit>(name: &str, v: &[u8], slack: usize) {
	let size = v.len();
	vassert!(T::ENCODED_SIZE as usize == size, "{name}: ENCODED_SIZE {} instead of {size}", T::ENCODED_SIZE);
	let x = T::lit_from(v);
	let mut buf = [0u8; 2048];
	for len in size.saturating_sub(slack)..=size + slack {
		for sentinel in [0x00u8, 0xA7] {
			let b = &mut buf[..len + 16];
			b.fill(sentinel);
			let (mine, rest) = b.split_at_mut(len);
			let r = x.encode(mine);
			vassert!(rest.iter().all(|x| *x == sentinel), "{name}: wrote outside of the buffer");
			if len < size {
				match r {
					Err(e) => vassert!(e.required_size > e.total_size, "{name}: {v:02X?} into {len} bytes: {e:?}"),
					Ok(()) => vfail!("{name}: {v:02X?} encoded into {len} bytes"),
				}
			} else {
				vassert!(r.is_ok(), "{name}: {v:02X?} into {len} bytes: {r:?}");
				vassert!(mine[..size] == *v, "{name}: {v:02X?} was encoded as {:02X?}", &mine[..size]);
				vassert!(mine[size..].iter().all(|x| *x == sentinel), "{name}: encoding touched other bytes");
			}
		}
		// Decoding from a buffer of every length.
		let b = &mut buf[..len];
		b.fill(0x39);
		let n = len.min(size);
		b[..n].copy_from_slice(&v[..n]);
		match T::decode(b) {
			Ok(y) => {
				vassert!(len == size, "{name}: decoded from {len} bytes");
				vassert!(y.lit_bytes() == v, "{name}: {v:02X?} was decoded as {:02X?}", y.lit_bytes());
			},
			Err(InvalidMessage::InvalidParameterCount(_)) => vassert!(len != size, "{name}: {v:02X?} was refused"),
			Err(e) => vfail!("{name}: {v:02X?} from {len} bytes: {e:?}"),
		}
	}
}

type Case = (&'static str, usize, fn(&'static str, &[u8], usize));
macro_rules! cases {
	($($t:ty)*) => { vec![$((stringify!($t), std::mem::size_of::<$t>(), (|n, v, s| value::<$t>(n, v, s)) as fn(&'static str, &[u8], usize))),*] };
}

fn main() {
	let mut r = Runner::new("C22");
	let cases: Vec<Case> = cases![
		u8 u16 u32 u64 u128 i8 i16 i32 i64 i128
		[u8; 0] [u8; 1] [u8; 2] [u8; 3] [u8; 4] [u8; 5] [u8; 7] [u8; 8] [u8; 16] [u8; 33]
		[i8; 1] [i8; 4] [i8; 6]
		[u16; 0] [u16; 1] [u16; 2] [u16; 3] [u16; 4] [u16; 9] [i16; 1] [i16; 2] [i16; 5]
		[u32; 1] [u32; 2] [u32; 3] [u32; 7] [i32; 1] [i32; 2] [i32; 5]
		[u64; 1] [u64; 2] [u64; 3] [i64; 2] [i64; 4]
		[u128; 1] [u128; 2] [i128; 1] [i128; 3]
		[[u8; 1]; 1] [[u8; 2]; 2] [[u8; 3]; 2] [[u8; 2]; 3] [[u8; 0]; 3] [[u8; 3]; 0]
		[[i16; 3]; 1] [[i16; 1]; 3] [[i16; 2]; 2] [[u16; 4]; 3] [[u32; 2]; 2] [[i32; 3]; 2] [[u64; 2]; 3] [[i128; 2]; 2]
		[[[u8; 2]; 2]; 2] [[[i8; 3]; 2]; 1] [[[u16; 1]; 2]; 3] [[[i32; 2]; 3]; 2] [[[[u8; 2]; 2]; 2]; 2] [[[[i16; 1]; 2]; 1]; 2]
	];
	r.note("types", cases.len().to_string());
	r.sweep("every byte of every type on every background", cases.len() as u64 * 96 * 256 * 5, |i, cx| {
		let mut ix = Ix(i);
		let b = ix.take(256) as u8;
		let at = ix.take(96);
		let (name, size, f) = *ix.of(&cases);
		let back = ix.take(5);
		if at >= size.max(1) {
			return;
		}
		let mut v: Vec<u8> = (0..size).map(|k| [0, 0xFF, 0x80, 0x7F, (k * 0x1D + 3) as u8][back]).collect();
		if size > 0 {
			v[at] = b;
		}
		cx.trail(|| format!("{name} {v:02X?}"));
		f(name, &v, if back == 4 { 12 } else { 2 });
	});
	r.sweep("every buffer length", cases.len() as u64, |i, cx| {
		let (name, size, f) = cases[i as usize];
		let v: Vec<u8> = (0..size).map(|k| (k * 0x35 + 1) as u8).collect();
		cx.trail(|| format!("{name} {v:02X?}"));
		f(name, &v, 300);
	});
	// The small types completely.
	let two: Vec<Case> = cases.iter().filter(|c| c.1 <= 2 && c.1 > 0).cloned().collect();
	r.sweep("every value of types of up to two bytes", two.len() as u64 * 65536, |i, cx| {
		let mut ix = Ix(i);
		let x = ix.take(65536);
		let (name, size, f) = *ix.of(&two);
		if size == 1 && x > 255 {
			return;
		}
		f(name, &[x as u8, (x >> 8) as u8][..size], 3);
	});
	let pairs: Vec<Case> = cases.iter().filter(|c| c.1 > 2).cloned().collect();
	r.sweep("every pair of adjacent bytes", pairs.len() as u64 * 65536 * 8, |i, cx| {
		let mut ix = Ix(i);
		let x = ix.take(65536);
		let (name, size, f) = *ix.of(&pairs);
		let at = ix.take(8) * (size - 1) / 8;
		let mut v: Vec<u8> = (0..size).map(|k| 0xF0usize.wrapping_sub(k * 7) as u8).collect();
		v[at] = x as u8;
		v[at + 1] = (x >> 8) as u8;
		cx.trail(|| format!("{name} {v:02X?}"));
		f(name, &v, 0);
	});
	// Four bytes completely.
	let block = 1u64 << 16;
	let step = r.by_tier(4u64, 1);
	r.sweep("32-bit values", (1 << 32) / block, |i, cx| {
		for k in (i % step..block).step_by(step as usize) {
			let x = (i * block + k) as u32;
			let le = [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8];
			let mut b = [0x99u8; 6];
			vassert!(x.encode(&mut b[1..5]).is_ok() && b == [0x99, le[0], le[1], le[2], le[3], 0x99], "u32 {x:08X}: {b:02X?}");
			vassert!(u32::decode(&le).ok() == Some(x), "u32 {x:08X} is not decoded");
			let s = x as i32;
			let mut b = [0x99u8; 6];
			vassert!(s.encode(&mut b[1..]).is_ok() && b == [0x99, le[0], le[1], le[2], le[3], 0x99], "i32 {x:08X}: {b:02X?}");
			vassert!(i32::decode(&le).ok() == Some(s), "i32 {x:08X} is not decoded");
			vassert!(<[[i8; 2]; 2]>::decode(&le).ok() == Some([[le[0] as i8, le[1] as i8], [le[2] as i8, le[3] as i8]]), "[[i8; 2]; 2] {x:08X}");
		}
	});
	// Large arrays up to the largest declarable size.
	r.sweep("large arrays", 7, |i, cx| {
		fn big<const N: usize>(cut: usize) {
			let v: Vec<u8> = (0..N).map(|k| (k * 31 + k / 256) as u8).collect();
			vassert!(<[u8; N]>::ENCODED_SIZE as usize == N, "[u8; {N}]: size {}", <[u8; N]>::ENCODED_SIZE);
			let x: Box<[u8; N]> = v.clone().try_into().unwrap();
			let mut b = vec![0x42; N + 3];
			vassert!(x.encode(&mut b).is_ok() && b[..N] == v[..] && b[N..] == [0x42; 3], "[u8; {N}] is not encoded");
			vassert!(x.encode(&mut b[..N - cut]).is_err(), "[u8; {N}] encoded into {cut} bytes less");
			vassert!(<[u8; N]>::decode(&v).is_ok_and(|y| y[..] == v[..]), "[u8; {N}] is not decoded");
			vassert!(<[u8; N]>::decode(&v[cut..]).is_err(), "[u8; {N}] is decoded from {cut} bytes less");
		}
		match i {
			0 => big::<255>(1),
			1 => big::<256>(1),
			2 => big::<257>(256),
			3 => big::<4096>(4096),
			4 => big::<32768>(1),
			5 => big::<65534>(1),
			_ => big::<65535>(65535),
		}
	});
	// Through the wire.
	r.sweep("through a client and a device", 18 * 256 * 3, |i, cx| {
		let mut ix = Ix(i);
		let b = ix.take(256) as u8;
		let t = *ix.of(&Ty::ALL);
		let k = ix.take(3);
		let v: Vec<u8> = (0..t.size()).map(|j| if j % 3 == k { b } else { [0xFF, 0xFD, 0x80][j % 3] }).collect();
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 96);
		port.reply_bytes(status(3, 0, &v));
		let got = run(&mut c, &Op::Read(3, 9, t));
		vassert!(got.one() == Ok(item(3, false, &v)), "reading {t:?} {v:02X?}: {got:02X?}");
		port.take_log();
		port.reply_bytes(status(3, 0, &[]));
		run(&mut c, &Op::Write(3, 9, t, v.clone()));
		let w = port.written();
		let f = Op::Write(3, 9, t, v.clone()).tx_frame();
		vassert!(w == f, "writing {t:?} {v:02X?}: {}", hex(&w));
	});
	r.finish();
}

//! C03: the checksum is the Protocol 2.0 CRC-16 and can be computed piecewise.
use dynamixel2::checksum::calculate_checksum;
use mc::*;

fn main() {
	let mut r = Runner::new("C03");
	r.assume("the checksum function is a deterministic function of its arguments");

	// Product of the implementation with the bit-level automaton: all 65536 states x 256 input bytes.
	r.sweep("transition-relation", 65536, |i, cx| {
		let s = i as u16;
		vassert!(calculate_checksum(s, &[]) == s, "checksum of nothing with initial value {s:04X} is {:04X}", calculate_checksum(s, &[]));
		for b in 0..=255u8 {
			let got = calculate_checksum(s, &[b]);
			let want = crc_step(s, b);
			if got != want {
				fail(format!("initial {s:04X}, byte {b:02X}: got {got:04X}, expected {want:04X}"));
			}
			cx.step();
		}
		cx.obs(&s);
		cx.outcome(&calculate_checksum(s, &[0]));
		cx.sample(|| format!("state {s:04X}: all 256 successor states agree with the bitwise automaton"));
	});

	// Two-byte strings from every initial value of a class: catches any dependence on position or length parity.
	let inits: Vec<u16> = (0..16).map(|b| 1u16 << b).chain([0, 0xFFFF, 0x8005, 0xA5A5]).collect();
	r.sweep("two-bytes-all", 65536, |i, cx| {
		let d = [i as u8, (i >> 8) as u8];
		for &s in &inits {
			let got = calculate_checksum(s, &d);
			let want = crc_step(crc_step(s, d[0]), d[1]);
			vassert!(got == want, "initial {s:04X}, data {d:02X?}: got {got:04X}, expected {want:04X}");
			let split = calculate_checksum(calculate_checksum(s, &d[..1]), &d[1..]);
			vassert!(split == got, "initial {s:04X}, data {d:02X?}: piecewise {split:04X}, whole {got:04X}");
			cx.step();
		}
		cx.obs(&d);
	});

	// All strings up to a length over a small alphabet, with every composition into pieces.
	let alpha = [0x00u8, 0x01, 0x80, 0xFD, 0xFF];
	let maxlen = r.by_tier(8usize, 10);
	r.tree("strings-and-splits", None, |cx| {
		let len = cx.choose(maxlen + 1);
		let data: Vec<u8> = (0..len).map(|_| *cx.pick(&alpha)).collect();
		let init = *cx.pick(&[0u16, 1, 0x8000, 0xFFFF, 0x1234]);
		let whole = calculate_checksum(init, &data);
		let want = data.iter().fold(init, |c, &b| crc_step(c, b));
		vassert!(whole == want, "initial {init:04X}, data {data:02X?}: got {whole:04X}, expected {want:04X}");
		for mask in 0..(1u32 << len.saturating_sub(1)) {
			let mut c = init;
			let mut from = 0;
			for k in 1..=len {
				if k == len || mask >> (k - 1) & 1 == 1 {
					c = calculate_checksum(c, &data[from..k]);
					from = k;
				}
			}
			vassert!(c == want, "initial {init:04X}, data {data:02X?}, cuts {mask:b}: piecewise {c:04X}, whole {want:04X}");
			cx.step();
		}
		cx.outcome(&whole);
		cx.sample(|| format!("init {init:04X} data {} -> {whole:04X}", hex(&data)));
	});

	// Every length up to the maximum frame size, three contents, every power-of-two split.
	let top = r.by_tier(24_000u64, 140_000);
	r.sweep("lengths", top * 3, |i, cx| {
		let len = (i / 3) as usize;
		let data: Vec<u8> = match i % 3 {
			0 => vec![0xFF; len],
			1 => vec![0x00; len],
			_ => (0..len).map(|k| (k * 7 + k / 256) as u8).collect(),
		};
		let init = 0xBEEF;
		let whole = calculate_checksum(init, &data);
		vassert!(whole == crc(init, &data), "length {len}, content {}: got {whole:04X}, expected {:04X}", i % 3, crc(init, &data));
		let mut k = 1;
		while k < len {
			let c = calculate_checksum(calculate_checksum(init, &data[..k]), &data[k..]);
			vassert!(c == whole, "length {len}, content {}, cut at {k}: {c:04X}, whole {whole:04X}", i % 3);
			k *= 2;
			cx.step();
		}
		cx.obs(&len);
		cx.outcome(&whole);
	});
	// More data than any frame has: around the multiples of 65536, and far above.
	let near: Vec<usize> = (1..=r.by_tier(9usize, 40)).flat_map(|k| (0..9).map(move |d| k * 65536 + d - 4)).chain([100_000, 1_000_003]).collect();
	r.sweep("long strings", near.len() as u64 * 2, |i, cx| {
		let len = near[i as usize / 2];
		let data: Vec<u8> = if i % 2 == 0 { vec![0xFF; len] } else { (0..len).map(|k| (k * 7 + k / 256 + k / 65536) as u8).collect() };
		let init = 0x1234;
		let want = crc(init, &data);
		let whole = calculate_checksum(init, &data);
		vassert!(whole == want, "length {len}, content {}: got {whole:04X}, expected {want:04X}", i % 2);
		for k in [1, 255, 256, 4095, 32767, 32768, 65534, 65535, 65536, 65537, 131_071, 131_072, len - 1] {
			if k < len {
				let c = calculate_checksum(calculate_checksum(init, &data[..k]), &data[k..]);
				vassert!(c == want, "length {len}, content {}, cut at {k}: {c:04X}, whole {want:04X}", i % 2);
				cx.step();
			}
		}
		cx.outcome(&whole);
	});
	r.finish();
}

//! C02: byte stuffing is lossless and keeps the header pattern out of packets.
use mc::*;

const T: Duration = Duration::from_millis(5);

/// Transmit as instruction and as status, check the stuffing, and receive again.
fn round_trip(cx: &Cx, head: u8, p: &[u8], buf: usize) {
	let port = VPort::new(cx);
	let mut c = client(&port, buf, buf);
	// Client to device.
	let r = c.write_instruction(7, head, p.len(), |b| {
		b.copy_from_slice(p);
		Ok(())
	});
	vassert!(r.is_ok(), "instruction {head:02X} {p:02X?}: {r:?}");
	let tx = port.written();
	let body = [&[head], p].concat();
	check_tx(&tx, &body);
	if head != STATUS {
		let dport = VPort::new(cx);
		let mut d = device(&dport, buf, buf);
		dport.feed(&tx);
		let got = dev_raw(&mut d, T);
		vassert!(got == Ok((7, head, p.to_vec())), "sent instruction {head:02X} {p:02X?}, device received {got:02X?} (on the wire {})", hex(&tx));
		cx.step();
	}
	// Reception of the reference frame (another implementation).
	let dport = VPort::new(cx);
	let mut d = device(&dport, buf, buf);
	dport.feed(&frame(7, if head == STATUS { 3 } else { head }, p));
	let got = dev_raw(&mut d, T);
	vassert!(got == Ok((7, if head == STATUS { 3 } else { head }, p.to_vec())), "reference frame for {p:02X?} was received by the device as {got:02X?}");
	// Device to client; the error byte only keeps its alert bit.
	let err = if head & 0x7F == 0 { head } else { 0 };
	let port = VPort::new(cx);
	let mut d = device(&port, buf, buf);
	let r = d.write_status(7, err, p.len(), |b| {
		b.copy_from_slice(p);
		Ok(())
	});
	vassert!(r.is_ok(), "status {p:02X?}: {r:?}");
	let tx = port.written();
	check_tx(&tx, &[&[STATUS, err], p].concat());
	for bytes in [tx, status(7, err, p)] {
		let cport = VPort::new(cx);
		let mut c = client(&cport, buf, buf);
		cport.feed(&bytes);
		let got = cl_status(&mut c, T);
		vassert!(got == Ok((7, err, p.to_vec())), "status with {p:02X?} was received by the client as {got:02X?}");
		cx.step();
	}
}

fn check_tx(tx: &[u8], body: &[u8]) {
	vassert!(tx.len() >= 10, "transmitted only {}", hex(tx));
	let wire = &tx[7..tx.len() - 2];
	for i in 0..wire.len() {
		if wire[i..].starts_with(&[0xFF, 0xFF, 0xFD]) {
			vassert!(wire.get(i + 3) == Some(&0xFD), "body {} was sent as {}: FF FF FD at {i} not followed by FD", hex(body), hex(wire));
		}
	}
	vassert!(!contains(wire, &HEADER), "body {} was sent as {}, which contains the header prefix", hex(body), hex(wire));
	vassert!(wire == stuff(body), "body {} was sent as {}, expected {}", hex(body), hex(wire), hex(&stuff(body)));
	vassert!(unstuff(wire) == body, "removing the stuffing from {} does not give {}", hex(wire), hex(body));
}

fn main() {
	let mut r = Runner::new("C02");
	let alpha = [0xFFu8, 0xFD, 0x00, 0x01];
	let max = r.by_tier(10usize, 12);
	r.tree("all strings over FF FD 00 01", None, |cx| {
		let n = cx.choose(max + 1);
		let p: Vec<u8> = (0..n).map(|_| *cx.pick(&alpha)).collect();
		round_trip(cx, 0x03, &p, 64);
		cx.outcome(&stuff(&p).len());
		cx.sample(|| format!("{} -> {}", hex(&p), hex(&stuff(&p))));
	});
	let max = r.by_tier(17usize, 22);
	r.tree("all strings over FF FD", None, |cx| {
		let n = cx.choose(max + 1);
		let p: Vec<u8> = (0..n).map(|_| if cx.flag() { 0xFD } else { 0xFF }).collect();
		round_trip(cx, 0x03, &p, 64);
		cx.outcome(&stuff(&p).len());
	});
	// Instruction ID and error byte take part in the stuffing.
	let max = r.by_tier(7usize, 9);
	r.tree("instruction ID and error byte", None, |cx| {
		let head = *cx.pick(&[0xFFu8, 0xFD, 0x80, 0x55]);
		let n = cx.choose(max + 1);
		let p: Vec<u8> = (0..n).map(|_| *cx.pick(&alpha)).collect();
		round_trip(cx, head, &p, 64);
	});
	// Error byte FF directly before FF FD (the client reports it as a motor error, so only transmission is checked).
	r.tree("error byte FF", None, |cx| {
		let err = *cx.pick(&[0xFFu8, 0xFD]);
		let n = cx.choose(6);
		let p: Vec<u8> = (0..n).map(|_| *cx.pick(&alpha)).collect();
		let port = VPort::new(cx);
		let mut d = device(&port, 64, 64);
		let w = d.write_status(7, err, p.len(), |b| {
			b.copy_from_slice(&p);
			Ok(())
		});
		vassert!(w.is_ok(), "status {p:02X?}: {w:?}");
		check_tx(&port.written(), &[&[STATUS, err], &p[..]].concat());
	});
	// Every byte value around a pattern.
	r.sweep("bytes around a pattern", 65536 * 3, |i, cx| {
		let mut ix = Ix(i);
		let (a, b, k) = (ix.take(256) as u8, ix.take(256) as u8, ix.take(3));
		let p = match k {
			0 => vec![a, 0xFF, 0xFF, 0xFD, b],
			1 => vec![0xFF, 0xFF, a, 0xFD, b],
			_ => vec![0xFF, a, b, 0xFF, 0xFF, 0xFD],
		};
		round_trip(cx, 0x03, &p, 64);
	});
	// Up to three patterns anywhere in a longer payload of neutral, FF or FD bytes.
	let len = r.by_tier(30usize, 60);
	r.tree("patterns at all positions", None, |cx| {
		let fill = *cx.pick(&[0x11u8, 0xFF, 0xFD]);
		let mut p = vec![fill; len];
		let mut at = 0;
		for _ in 0..3 {
			let k = at + cx.choose(len - 2 - at.min(len - 3));
			if k + 3 > len {
				break;
			}
			p[k..k + 3].copy_from_slice(&[0xFF, 0xFF, 0xFD]);
			at = (k + 1).min(len - 3);
		}
		round_trip(cx, 0x03, &p, 96);
	});
	// Long runs: every length, densest stuffing.
	let top = r.by_tier(8000u64, 40_000);
	r.sweep("long payloads", top * 4, |i, cx| {
		let mut ix = Ix(i);
		let k = ix.take(4);
		let n = ix.take(top as usize);
		let pat: &[u8] = [&[0xFF, 0xFF, 0xFD][..], &[0xFF, 0xFF, 0xFD, 0xFD], &[0xFF, 0xFF, 0xFF, 0xFD], &[0xFD, 0xFF, 0xFF]][k];
		let p: Vec<u8> = pat.iter().cycle().take(n).copied().collect();
		round_trip(cx, 0x03, &p, 16 + n + n / 3 + 4);
	});
	// More frames than a small counter can count, by one reader.
	let pieces: Vec<Vec<u8>> = vec![
		status(3, 0, &[]),
		status(3, 0x80, &[1, 2, 3]),
		status(3, 0, &[0xFF, 0xFF, 0xFD, 0, 1, 0x30, 0]),
		frame(3, PING, &[]),
		frame(BROADCAST, SYNC_WRITE, &[0xFF, 0xFF, 0xFD, 0, 1]),
		frame(3, READ, &[1, 2, 3, 4]),
	];
	r.sweep("long sessions of a reader", r.by_tier(18u64, 60), |i, cx| {
		let mut ix = Ix(i);
		let dev = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(7), Frag::Max(1)][ix.take(3)];
		let stride = [1usize, 3, 7, 11, 13][ix.0 as usize];
		if dev {
			device_session(cx, &pieces, MANY, stride, frag);
		} else {
			client_session(cx, &pieces, MANY, stride, frag);
		}
	});
	r.finish();
}

//! C24: a device decodes every instruction exactly as it was sent.
use mc::*;

const T: Duration = Duration::from_millis(3);

/// Feed the frame to a device through all forms of reading, and compare with the reference.
fn check(cx: &Cx, d: &mut D, port: &VPort, id: u8, inst: u8, p: &[u8]) {
	check_as(cx, d, port, &frame(id, inst, p), id, inst, p, Ins::decode(inst, p))
}
#[allow(clippy::too_many_arguments)]
fn check_as(cx: &Cx, d: &mut D, port: &VPort, f: &[u8], id: u8, inst: u8, p: &[u8], want: Option<Ins>) {
	let ctx = || format!("instruction {inst:02X} for {id} with parameters {}", hex(p));
	port.feed(f);
	let r = d.read(T).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(Er::from);
	port.feed(f);
	let o = d.read_owned(T).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(Er::from);
	// Conversions of the packet by the user.
	port.feed(f);
	let packet = d.read_raw_instruction_timeout(T);
	let conv = |e: dynamixel2::InvalidParameterCount| Er::from(dynamixel2::InvalidMessage::from(e));
	let (cb, co) = match packet {
		Ok(p) => (
			dynamixel2::Instruction::<&[u8]>::try_from(p).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(conv),
			dynamixel2::Instruction::<Vec<u8>>::try_from(p).map(|i| (i.id, Ins::from_real(&i.instruction))).map_err(conv),
		),
		Err(e) => vfail!("{}: the packet cannot be read: {e:?}", ctx()),
	};
	for (how, got) in [("borrowed", &r), ("owned", &o), ("converted borrowed", &cb), ("converted owned", &co)] {
		match (&want, got) {
			(Some(w), Ok((i, g))) => {
				vassert!(*i == id, "{}: {how} form reports packet ID {i}", ctx());
				vassert!(g == w, "{}: {how} form is {g:02X?}, expected {w:02X?}", ctx());
			},
			(Some(w), Err(e)) => vfail!("{}: {how} form gives {e:?}, expected {w:02X?}", ctx()),
			(None, Err(Er::Count { actual, .. })) => vassert!(*actual == p.len(), "{}: {how} form claims {actual} parameters", ctx()),
			(None, g) => vfail!("{}: {how} form gives {g:02X?}, expected an invalid parameter count", ctx()),
		}
	}
	port.feed(f);
	let raw = dev_raw(d, T);
	vassert!(raw == Ok((id, inst, p.to_vec())), "{}: raw form gives {raw:02X?}", ctx());
	vassert!(port.waiting().is_empty(), "{}: input left over", ctx());
	cx.outcome(&(inst, want.is_some()));
}

const KNOWN: [u8; 12] = [PING, READ, WRITE, REG_WRITE, ACTION, FACTORY_RESET, REBOOT, CLEAR, SYNC_READ, SYNC_WRITE, BULK_READ, BULK_WRITE];

fn main() {
	let mut r = Runner::new("C24");
	r.assume("ping, action and reboot with superfluous parameters are still decoded as such; clear needs at least its kind");
	let port_of = |cx: &Cx, n: usize| {
		let port = VPort::new(cx);
		let d = device(&port, n, 32);
		(port, d)
	};
	let counts = r.by_tier(300usize, 2000);
	r.sweep("every instruction ID with every number of parameters", 256 * counts as u64 * 6, |i, cx| {
		let mut ix = Ix(i);
		let inst = ix.take(256) as u8;
		if inst == STATUS {
			return;
		}
		let n = ix.take(counts);
		let id = [0u8, 1, 0xFC, 0xFE, 0xFF, 0x55][ix.take(6)];
		let (port, mut d) = port_of(cx, 512);
		let p: Vec<u8> = (0..n).map(|k| (k * 41 + id as usize) as u8).collect();
		check(cx, &mut d, &port, id, inst, &p);
		check(cx, &mut d, &port, id, inst, &vec![0xFF; n]);
		check(cx, &mut d, &port, id, inst, &vec![0x00; n]);
	});
	r.sweep("every packet ID", 256 * 13, |i, cx| {
		let mut ix = Ix(i);
		let id = ix.take(256) as u8;
		let inst = *ix.of(&[&KNOWN[..], &[0x77]].concat());
		let (port, mut d) = port_of(cx, 64);
		for n in [0, 1, 2, 4, 5, 7] {
			check(cx, &mut d, &port, id, inst, &(0..n).map(|k| id.wrapping_add(k)).collect::<Vec<u8>>());
		}
	});
	r.sweep("every address", 65536 * 5, |i, cx| {
		let mut ix = Ix(i);
		let a = (ix.take(65536) as u16).to_le_bytes();
		let inst = *ix.of(&[READ, WRITE, REG_WRITE, SYNC_READ, SYNC_WRITE]);
		let (port, mut d) = port_of(cx, 64);
		check(cx, &mut d, &port, 1, inst, &[a[0], a[1], 0x34, 0x12]);
		if inst != READ {
			check(cx, &mut d, &port, 1, inst, &[a[0], a[1], 0x34, 0x12, 1, 2, 3]);
		}
	});
	r.sweep("every length", 65536 * 3, |i, cx| {
		let mut ix = Ix(i);
		let a = (ix.take(65536) as u16).to_le_bytes();
		let inst = *ix.of(&[READ, SYNC_READ, SYNC_WRITE]);
		let (port, mut d) = port_of(cx, 64);
		check(cx, &mut d, &port, 1, inst, &[0x34, 0x12, a[0], a[1]]);
		if inst != READ {
			check(cx, &mut d, &port, 1, inst, &[0xCD, 0xAB, a[0], a[1], 1, 2, 3]);
		}
	});
	r.sweep("every kind of reset and clear", 256 * 2 * 10 * 4, |i, cx| {
		let mut ix = Ix(i);
		let k = ix.take(256) as u8;
		let inst = [FACTORY_RESET, CLEAR][ix.take(2)];
		let n = ix.take(10);
		let (port, mut d) = port_of(cx, 64);
		let tail = [[0x44u8, 0x58, 0x4C, 0x22], [0x45, 0x52, 0x43, 0x4C], [0; 4], [0xFF; 4]][ix.take(4)];
		let mut p = vec![k];
		p.extend((0..8).map(|j| tail[j % 4]));
		p.truncate(n);
		check(cx, &mut d, &port, 5, inst, &p);
	});
	// All parameters over the critical alphabet.
	let al = [0xFFu8, 0xFD, 0x00, 0x55];
	let k = r.by_tier(8usize, 10);
	r.sweep("contents over the critical alphabet", 13 * (0..=k as u32).map(|n| 4u64.pow(n)).sum::<u64>(), |i, cx| {
		let mut ix = Ix(i);
		let inst = *ix.of(&[&KNOWN[..], &[0xFD]].concat());
		let mut n = 0;
		while ix.0 >= 4u64.pow(n) {
			ix.0 -= 4u64.pow(n);
			n += 1;
		}
		let p: Vec<u8> = (0..n).map(|_| *ix.of(&al)).collect();
		let (port, mut d) = port_of(cx, 64);
		check(cx, &mut d, &port, 0xFD, inst, &p);
	});
	r.sweep("every two parameters", 65536 * 13, |i, cx| {
		let mut ix = Ix(i);
		let b = (ix.take(65536) as u16).to_le_bytes();
		let inst = *ix.of(&[&KNOWN[..], &[0x11]].concat());
		let (port, mut d) = port_of(cx, 64);
		check(cx, &mut d, &port, 2, inst, &b);
		check(cx, &mut d, &port, 2, inst, &[1, 2, 3, 4, b[0], b[1]]);
	});
	r.sweep("large instructions", 13 * 128 * 2, |i, cx| {
		let mut ix = Ix(i);
		let inst = *ix.of(&[&KNOWN[..], &[0xEE]].concat());
		let n = ix.take(128) * 509 + 7;
		let fill = ix.take(2);
		let p: Vec<u8> = (0..n.min(65532)).map(|k| if fill == 0 { (k + k / 250) as u8 & 0x7F } else { 0x2A }).collect();
		let (port, mut d) = port_of(cx, 65535 + 7);
		check(cx, &mut d, &port, 3, inst, &p);
	});
	// What the client of this library sends.
	let mut ops = representative_ops();
	ops.extend(silent_ops());
	r.sweep("every client operation at every address", ops.len() as u64 * 65536, |i, cx| {
		let mut ix = Ix(i);
		let a = ix.take(65536) as u16;
		let id = [3u8, 0, 252, 0x55][a as usize % 4];
		let op = match ix.of(&ops).clone() {
			Op::Read(_, _, t) => Op::Read(id, a, t),
			Op::ReadVec(_, _, _) => Op::ReadVec(id, !a, a),
			Op::ReadSlice(_, _, n) => Op::ReadSlice(id, a, n),
			Op::Write(_, _, t, v) => Op::Write(id, a, t, v),
			Op::WriteBytes(_, _, v) => Op::WriteBytes(id, a, v),
			Op::RegWrite(_, _, t, v) => Op::RegWrite(id, a, t, v),
			Op::RegWriteBytes(_, _, v) => Op::RegWriteBytes(id, a, v),
			Op::SyncRead(v, _, t, w) => Op::SyncRead(v, a, t, w),
			Op::SyncReadBytes(v, _, _, w) => Op::SyncReadBytes(v, !a, a, w),
			Op::BulkRead(_, w) => Op::BulkRead(vec![(id, a, 2), (9, 0x0304, !a)], w),
			Op::SyncWrite(_, t, v) => Op::SyncWrite(a, t, v),
			Op::SyncWriteBytes(_, n, v) => Op::SyncWriteBytes(a, n, v),
			Op::BulkWrite(_) => Op::BulkWrite(vec![(id, a, vec![1, 2]), (9, !a, vec![5])]),
			o if a < 4 => o,
			_ => return,
		};
		let cp = VPort::new(cx);
		let mut c = client(&cp, 32, 64);
		run(&mut c, &op);
		let (id, inst, p) = op.tx();
		let f = cp.written();
		let port = VPort::new(cx);
		let mut d = device(&port, 64, 32);
		// The operation that was called, in the terms of the device.
		let want = match &op {
			Op::Ping(_) | Op::Scan => Ins::Ping,
			Op::Read(_, a, t) => Ins::Read(*a, t.size() as u16),
			Op::ReadVec(_, a, n) | Op::ReadSlice(_, a, n) => Ins::Read(*a, *n),
			Op::Write(_, a, _, v) | Op::WriteBytes(_, a, v) => Ins::Write(*a, v.clone()),
			Op::RegWrite(_, a, _, v) | Op::RegWriteBytes(_, a, v) => Ins::RegWrite(*a, v.clone()),
			Op::Action(_) | Op::BcAction => Ins::Action,
			Op::Reboot(_) | Op::BcReboot => Ins::Reboot,
			Op::FactoryReset(_, k) | Op::BcFactoryReset(k) => Ins::Reset(*k as u16),
			Op::ClearRev(_) | Op::BcClearRev => Ins::Clear(1),
			Op::ClearErr(_) | Op::BcClearErr => Ins::Clear(2),
			Op::SyncRead(v, a, t, _) => Ins::SyncRead(*a, t.size() as u16, v.clone()),
			Op::SyncReadBytes(v, a, n, _) => Ins::SyncRead(*a, *n, v.clone()),
			Op::SyncWrite(a, t, v) => Ins::SyncWrite(*a, t.size() as u16, v.iter().flat_map(|(i, d)| [&[*i], &d[..]].concat()).collect()),
			Op::SyncWriteBytes(a, n, v) => Ins::SyncWrite(*a, *n, v.iter().flat_map(|(i, d)| [&[*i], &d[..]].concat()).collect()),
			_ => Ins::decode(inst, &p).unwrap(),
		};
		check_as(cx, &mut d, &port, &f, id, inst, &p, Some(want));
	});
	// Histories of instructions, valid and invalid, in one device.
	let depth = r.by_tier(5usize, 6);
	r.tree("histories", None, |cx| {
		let (port, mut d) = port_of(cx, 32);
		for _ in 0..depth {
			let inst = *cx.pick(&[READ, WRITE, CLEAR, SYNC_READ, PING, 0x99]);
			let n = *cx.pick(&[0usize, 1, 3, 4, 6]);
			check(cx, &mut d, &port, 1, inst, &[7, 0xFF, 0xFF, 0xFD, 0xFF, 0xFF][..n]);
		}
	});
	r.tree("fragmentation", Some(r.by_tier(4, 5)), |cx| {
		let port = VPort::new(cx).frag(Frag::Choose);
		let mut d = device(&port, 32, 32);
		let inst = *cx.pick(&KNOWN);
		let n = *cx.pick(&[0usize, 1, 4, 5]);
		check(cx, &mut d, &port, 1, inst, &[0xFF, 0xFF, 0xFD, 0xFF, 0xFF][..n]);
	});
	// More instructions than a small counter can count.
	r.sweep("long sessions", 6, |i, cx| {
		let port = VPort::new(cx).frag([Frag::All, Frag::Max(6)][i as usize % 2]);
		let mut d = device(&port, 32, 32);
		let p = [7, 0xFF, 0xFF, 0xFD, 0, 0xFF, 0xFF];
		for k in 0..MANY / 2 {
			port.fresh();
			let inst = KNOWN[k * [1, 5, 7][i as usize / 2] % KNOWN.len()];
			check(cx, &mut d, &port, k as u8, inst, &p[..k / 12 % 8]);
		}
	});
	r.finish();
}

//! C16: each command puts the instruction it promises on the wire, and nothing else.
use mc::*;

fn check(cx: &Cx, op: &Op) {
	check_buf(cx, op, 96)
}
fn check_buf(cx: &Cx, op: &Op, wbuf: usize) {
	let port = VPort::new(cx);
	let mut c = client(&port, 32, wbuf);
	port.take_log();
	let got = run(&mut c, op);
	vassert!(got.write.is_ok(), "{op:?}: {got:02X?}");
	let writes: Vec<Vec<u8>> = port
		.log()
		.into_iter()
		.filter_map(|e| match e {
			Ev::Write(b, _) => Some(b),
			_ => None,
		})
		.collect();
	let want = op.tx_frame();
	vassert!(
		writes.concat() == want && !writes.is_empty(),
		"{op:02X?} transmitted {} instead of {}",
		writes.iter().map(|w| hex(w)).collect::<Vec<_>>().join(" | "),
		hex(&want)
	);
	cx.outcome(&want.len());
}

/// Every kind of operation that takes a motor ID.
const N_ID: usize = 15;
fn by_id(k: usize, id: u8) -> Op {
	match k {
		0 => Op::Ping(id),
		1 => Op::Read(id, 0x0102, Ty::U32),
		2 => Op::ReadVec(id, 0x0102, 0x0304),
		3 => Op::ReadSlice(id, 0x0102, 0x0304),
		4 => Op::Write(id, 0x0102, Ty::U16, vec![0x34, 0x12]),
		5 => Op::WriteBytes(id, 0x0102, vec![9, 8, 7]),
		6 => Op::RegWrite(id, 0x0102, Ty::U32, vec![4, 3, 2, 1]),
		7 => Op::RegWriteBytes(id, 0x0102, vec![9, 8, 7]),
		8 => Op::Action(id),
		9 => Op::Reboot(id),
		10 => Op::FactoryReset(id, 0xFF),
		11 => Op::FactoryReset(id, 1),
		12 => Op::FactoryReset(id, 2),
		13 => Op::ClearRev(id),
		_ => Op::ClearErr(id),
	}
}
/// Every kind of operation that takes an address.
const N_ADDR: usize = 21;
fn by_addr(k: usize, id: u8, a: u16) -> Op {
	match k {
		0 => Op::Read(id, a, Ty::U8),
		1 => Op::Read(id, a, Ty::A5),
		2 => Op::ReadVec(id, a, 2),
		3 => Op::ReadSlice(id, a, 2),
		4 => Op::Write(id, a, Ty::U32, vec![1, 2, 3, 4]),
		5 => Op::WriteBytes(id, a, vec![1, 2, 3]),
		6 => Op::RegWrite(id, a, Ty::U16, vec![1, 2]),
		7 => Op::RegWriteBytes(id, a, vec![1, 2, 3]),
		8 => Op::SyncRead(vec![id, 2], a, Ty::U16, Via::Next),
		9 => Op::SyncReadBytes(vec![id, 2], a, 3, Via::Next),
		10 => Op::SyncReadBytes(vec![id, 2], a, 3, Via::BorrowCtor),
		11 => Op::BulkRead(vec![(id, a, 2), (201, 5, 1)], Via::Next),
		12 => Op::BulkRead(vec![(201, 5, 1), (id, a, 2)], Via::BorrowCtor),
		13 => Op::SyncWrite(a, Ty::U16, vec![(id, vec![1, 2]), (2, vec![3, 4])]),
		14 => Op::SyncWriteBytes(a, 1, vec![(id, vec![1]), (2, vec![3])]),
		15 => Op::BulkWrite(vec![(id, a, vec![1, 2]), (201, 5, vec![1])]),
		16 => Op::BulkWrite(vec![(201, 5, vec![1]), (id, a, vec![])]),
		17 => Op::Write(id, a, Ty::A0, vec![]),
		18 => Op::WriteBytes(id, a, vec![]),
		19 => Op::RegWriteBytes(id, a, vec![]),
		_ => Op::RegWrite(id, a, Ty::A13, vec![1, 2, 3, 4, 5, 6]),
	}
}

fn main() {
	let mut r = Runner::new("C16");
	let all_addr = r.by_tier(64usize, 256);
	r.sweep("every ID", (N_ID * 256) as u64, |i, cx| {
		let mut ix = Ix(i);
		let id = ix.take(256) as u8;
		check(cx, &by_id(ix.take(N_ID), id));
	});
	let bc = [
		Op::Scan,
		Op::BcAction,
		Op::BcReboot,
		Op::BcFactoryReset(0xFF),
		Op::BcFactoryReset(1),
		Op::BcFactoryReset(2),
		Op::BcClearRev,
		Op::BcClearErr,
	];
	r.sweep("broadcasts", bc.len() as u64, |i, cx| check(cx, &bc[i as usize]));
	r.sweep("every address", (N_ADDR * 65536) as u64, |i, cx| {
		let mut ix = Ix(i);
		let a = ix.take(65536) as u16;
		check(cx, &by_addr(ix.take(N_ADDR), 7, a));
	});
	r.sweep("every ID with some addresses", (N_ADDR * 256 * all_addr) as u64, |i, cx| {
		let mut ix = Ix(i);
		let id = ix.take(256) as u8;
		let k = ix.take(N_ADDR);
		let a = (ix.take(all_addr) as u32 * 40503 % 65536) as u16;
		if id == 201 && (11..=16).contains(&k) {
			return;
		}
		check(cx, &by_addr(k, id, a));
	});
	// Counts at full width.
	r.sweep("every count", 65536 * 7, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(65536) as u16;
		let op = match ix.take(7) {
			0 => Op::ReadVec(3, 0x0102, n),
			1 => Op::ReadSlice(3, 0x0102, n),
			2 => Op::SyncReadBytes(vec![3], 0x0102, n, Via::Next),
			3 => Op::SyncReadBytes(vec![3, 200], 0x0102, n, Via::BorrowCtor),
			4 => Op::BulkRead(vec![(3, 0x0102, n)], Via::Next),
			5 => Op::BulkRead(vec![(3, 0x0102, 0x0304), (4, 0x0506, n)], Via::BorrowCtor),
			_ => Op::SyncWriteBytes(0x0102, n, vec![]),
		};
		check(cx, &op);
	});
	// Values: every single byte at every position on several backgrounds.
	r.sweep("every byte of every type", (18 * 20 * 256 * 4 * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = ix.take(256) as u8;
		let at = ix.take(20);
		let t = *ix.of(&Ty::ALL);
		let back = [0u8, 0xFF, 0x80, 0x5A][ix.take(4)];
		let w = ix.take(3);
		if at >= t.size() {
			return;
		}
		let mut v: Vec<u8> = (0..t.size()).map(|k| if back == 0x5A { (0x11 * k) as u8 } else { back }).collect();
		v[at] = b;
		let op = match w {
			0 => Op::Write(3, 0x0102, t, v),
			1 => Op::RegWrite(3, 0x0102, t, v),
			_ => Op::SyncWrite(0x0102, t, vec![(1, v.clone()), (2, v.iter().map(|x| !x).collect()), (3, v)]),
		};
		check(cx, &op);
	});
	r.sweep("every 16-bit value", 65536 * 2 * 3, |i, cx| {
		let mut ix = Ix(i);
		let v = ix.take(65536);
		let t = *ix.of(&[Ty::U16, Ty::I16]);
		let v = vec![v as u8, (v >> 8) as u8];
		let op = match ix.take(3) {
			0 => Op::Write(3, 0x0102, t, v),
			1 => Op::RegWrite(3, 0x0102, t, v),
			_ => Op::SyncWrite(0x0102, t, vec![(1, v)]),
		};
		check(cx, &op);
	});
	r.sweep("every type of value in every typed operation", 18 * 5 * 3, |i, cx| {
		let mut ix = Ix(i);
		let t = *ix.of(&Ty::ALL);
		let k = ix.take(5);
		let n = ix.take(3);
		let v: Vec<u8> = (0..t.size()).map(|k| 0xF1u8.wrapping_sub(k as u8 * 13)).collect();
		let op = match k {
			0 => Op::Read(3, 0x0102, t),
			1 => Op::Write(3, 0x0102, t, v),
			2 => Op::RegWrite(3, 0x0102, t, v),
			3 => Op::SyncRead((0..n as u8).collect(), 0x0102, t, Via::Iter),
			_ => Op::SyncWrite(0x0102, t, (0..n as u8).map(|m| (m, v.iter().map(|x| x ^ m).collect())).collect()),
		};
		check(cx, &op);
	});
	// Data sizes and contents of raw writes.
	let sizes = r.by_tier(5000usize, 65_000);
	r.sweep("every data size", (sizes * 6) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(sizes);
		let v: Vec<u8> = (0..n).map(|k| (k * 7 + k / 256) as u8).collect();
		let op = match ix.take(6) {
			0 => Op::WriteBytes(3, 0x0102, v),
			1 => Op::RegWriteBytes(3, 0x0102, v),
			2 => Op::SyncWriteBytes(0x0102, n as u16, vec![(4, v.clone()), (5, v)]),
			3 => Op::BulkWrite(vec![(4, 0x0102, v.clone()), (5, 0x0304, v)]),
			4 => Op::RawWrite(3, 0x77, v),
			_ => Op::Transfer(3, 0x77, v, 0),
		};
		check_buf(cx, &op, 3 * n + 64);
	});
	r.sweep("the largest data sizes", 65536 / 64 * 6 + 60 * 6, |i, cx| {
		let mut ix = Ix(i);
		let w = ix.take(6);
		let k = i / 6;
		let n = if k < 1024 { k as usize * 64 } else { 65535 - (k as usize - 1024) };
		let v: Vec<u8> = (0..n).map(|k| (k * 7 + k / 256) as u8 & 0x7F).collect();
		let op = match w {
			0 => Op::WriteBytes(3, 0x0102, v),
			1 => Op::RegWriteBytes(3, 0x0102, v),
			2 => Op::SyncWriteBytes(0x0102, n as u16, vec![(4, v)]),
			3 => Op::BulkWrite(vec![(4, 0x0102, v)]),
			4 => Op::RawWrite(3, 0x77, v),
			_ => Op::Transfer(3, 0x77, v, 0),
		};
		// What does not fit the length field is the subject of C01.
		if op.tx().2.len() + 3 <= 65535 {
			check_buf(cx, &op, 66000);
		}
	});
	r.sweep("every number of motors", (254 * 6) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(254);
		let rev = |k: usize| 252 - k.min(252) as u8;
		let op = match ix.take(6) {
			0 => Op::SyncRead((0..n).map(rev).collect(), 0x0102, Ty::I32, Via::Next),
			1 => Op::SyncReadBytes((0..n).map(rev).collect(), 0x0102, 9, Via::Next),
			2 => Op::BulkRead((0..n.min(253)).map(|k| (rev(k), k as u16 * 257, k as u16 * 251)).collect(), Via::Next),
			3 => Op::SyncWrite(0x0102, Ty::U16, (0..n).map(|k| (rev(k), vec![k as u8, 0x21])).collect()),
			4 => Op::SyncWriteBytes(0x0102, 1, (0..n).map(|k| (rev(k), vec![k as u8])).collect()),
			_ => Op::BulkWrite((0..n.min(253)).map(|k| (rev(k), k as u16 * 257, vec![k as u8; k % 5])).collect()),
		};
		check_buf(cx, &op, 3000);
	});
	r.sweep("every instruction ID of raw writes", 256 * 256 * 2, |i, cx| {
		let mut ix = Ix(i);
		let (id, inst) = (ix.take(256) as u8, ix.take(256) as u8);
		let op = if ix.take(2) == 0 { Op::RawWrite(id, inst, vec![1, inst, id]) } else { Op::Transfer(id, inst, vec![id], 3) };
		check(cx, &op);
	});
	// Critical contents: everything over {FF, FD, 00, 44} in raw data, addresses, counts and IDs.
	let al = [0xFFu8, 0xFD, 0x00, 0x44];
	let k = r.by_tier(8usize, 10);
	r.tree("contents that need stuffing", None, |cx| {
		let a = u16::from_le_bytes([*cx.pick(&al), *cx.pick(&al)]);
		let n = cx.choose(k - 1);
		let v: Vec<u8> = (0..n).map(|_| *cx.pick(&al)).collect();
		let op = match cx.choose(5) {
			0 => Op::WriteBytes(0xFD, a, v),
			1 => Op::RegWriteBytes(0xFD, a, v),
			2 => Op::SyncWriteBytes(a, 1, v.iter().map(|x| (*x, vec![x ^ 2])).collect()),
			3 => Op::SyncReadBytes(v, a, a, Via::Next),
			_ => Op::BulkWrite(vec![(0xFD, a, v.clone()), (0xFF, a, v)]),
		};
		check(cx, &op);
	});
	// Nothing else is transmitted, whatever is received.
	let mut all: Vec<Op> = (0..N_ID).map(|k| by_id(k, 3)).chain((0..N_ADDR).map(|k| by_addr(k, 9, 0xFFFD))).collect();
	all.extend(bc.clone());
	r.sweep("whatever is received", (all.len() * ODD_ANSWERS * ODD_ANSWERS) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&all);
		let (a, b) = (ix.take(ODD_ANSWERS), ix.take(ODD_ANSWERS));
		let port = VPort::new(cx);
		port.replies(vec![odd_answer(op, a), odd_answer(op, b), odd_answer(op, 1)]);
		let mut c = client(&port, 32, 96);
		port.take_log();
		run(&mut c, op);
		let got = port.written();
		let want = op.tx_frame();
		vassert!(got == want, "{op:02X?}, answered with kind {a}: transmitted {} instead of {}", hex(&got), hex(&want));
		cx.outcome(&want.len());
	});
	// The instruction does not depend on what was sent before.
	let mut ops: Vec<Op> = (0..N_ID).map(|k| by_id(k, 3)).chain((0..N_ADDR).map(|k| by_addr(k, 9, 0xFFFD))).collect();
	ops.extend(bc);
	let depth = r.by_tier(3usize, 4);
	r.tree("sequences of commands", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 900, 96);
		for _ in 0..=depth {
			let op = cx.pick(&ops);
			port.take_log();
			port.reply_bytes(op.good_replies().concat());
			let got = run(&mut c, op);
			vassert!(got.all_ok(&op.good_items()), "{op:?}: {got:02X?}");
			vassert!(port.written() == op.tx_frame(), "{op:02X?} transmitted {} instead of {}", hex(&port.written()), hex(&op.tx_frame()));
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], TX);
	});
	r.finish();
}

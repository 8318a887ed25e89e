//! C17: broadcast commands never wait for a reply; the same commands to one motor read exactly one.
use mc::*;

const N_KIND: usize = 12;
fn by_id(k: usize, id: u8, n: usize) -> Op {
	let v: Vec<u8> = (0..n).map(|k| 0xC0 + k as u8).collect();
	match k {
		0 => Op::Write(id, 0x0102, Ty::ALL[n % 18], vec![0x34; Ty::ALL[n % 18].size()]),
		1 => Op::WriteBytes(id, 0x0102, v),
		2 => Op::RegWrite(id, 0x0102, Ty::ALL[n % 18], vec![0x43; Ty::ALL[n % 18].size()]),
		3 => Op::RegWriteBytes(id, 0x0102, v),
		4 => Op::Action(id),
		5 => Op::Reboot(id),
		6 => Op::FactoryReset(id, 0xFF),
		7 => Op::FactoryReset(id, 1),
		8 => Op::FactoryReset(id, 2),
		9 => Op::ClearRev(id),
		10 => Op::ClearErr(id),
		_ => Op::FactoryReset(id, [0xFF, 1, 2][n % 3]),
	}
}
const BC: [Op; 7] = [
	Op::BcAction,
	Op::BcReboot,
	Op::BcFactoryReset(0xFF),
	Op::BcFactoryReset(1),
	Op::BcFactoryReset(2),
	Op::BcClearRev,
	Op::BcClearErr,
];

/// What is on the line: before the command (in the port), and in answer to it.
const N_LINE: usize = 10;
fn line(k: usize, id: u8) -> (Vec<In>, Vec<In>) {
	let ok = status(id, 0, &[]);
	let other = status(id.wrapping_add(1), 0, &[]);
	match k {
		0 => (vec![], vec![]),
		1 => (vec![], vec![In::Bytes(ok)]),
		2 => (vec![], vec![In::Bytes(ok.clone()), In::Bytes(other)]),
		3 => (vec![In::Bytes(ok)], vec![]),
		4 => (vec![], vec![In::Err(VErr::Fault(7)), In::Bytes(ok)]),
		5 => (vec![], vec![In::Bytes(status(id, 0x85, &[]))]),
		6 => (vec![In::Bytes(vec![0xFF, 0xFF, 0xFD])], vec![In::Bytes(ok[..5].to_vec())]),
		7 => (vec![], vec![In::Bytes(other)]),
		8 => (vec![], vec![In::Bytes(status(id, 0x80, &[]))]),
		_ => (vec![], vec![In::Bytes(vec![0x00; 70]), In::Bytes(ok)]),
	}
}

fn one(cx: &Cx, port: &VPort, c: &mut C, op: &Op, lk: usize) {
	let (id, _, _) = op.tx();
	let (before, after) = line(lk, id);
	for b in before {
		port.push(b);
	}
	port.take_log();
	port.replies(vec![after.clone()]);
	let got = run(c, op);
	let log = port.take_log();
	let ctx = || format!("{op:?}, line {lk}: {got:02X?}, port {log:02X?}");
	vassert!(got.write.is_ok(), "failed to transmit; {}", ctx());
	let writes: Vec<Vec<u8>> = log.iter().filter_map(|e| if let Ev::Write(b, _) = e { Some(b.clone()) } else { None }).collect();
	vassert!(writes.concat() == op.tx_frame(), "not transmitted as promised; {}", ctx());
	let reads = log.iter().filter(|e| matches!(e, Ev::Read { .. })).count();
	if id == BROADCAST {
		vassert!(reads == 0, "a broadcast command reads from the port; {}", ctx());
		if op.replies() == Replies::None && !matches!(op, Op::BcAction | Op::BcReboot | Op::BcFactoryReset(_) | Op::BcClearRev | Op::BcClearErr) {
			vassert!(got.items == vec![Ok(item(BROADCAST, false, &[]))], "a broadcast command does not report the broadcast ID without alert; {}", ctx());
		} else {
			vassert!(got.items.is_empty(), "{}", ctx());
		}
		// Nothing of what is waiting was consumed after the write.
		let waiting: Vec<In> = after;
		let left = port.waiting().len();
		let bytes = |v: &[In]| -> usize { v.iter().map(|i| if let In::Bytes(b) = i { b.len() } else { 0 }).sum() };
		vassert!(left == bytes(&waiting), "a broadcast command consumed input; {}", ctx());
	} else {
		vassert!(got.items.len() == 1 && reads >= 1, "a command to one motor does not wait for its reply; {}", ctx());
		// Exactly one reply: compare with the reference receiver over what arrives up to the first error of the port.
		let mut stream = vec![];
		let mut err = VErr::Timeout;
		for i in &after {
			match i {
				In::Bytes(b) => stream.extend_from_slice(b),
				In::Err(e) => {
					err = *e;
					break;
				},
				In::Zero => {},
			}
		}
		let rx = RefRx::over(64, &stream).next();
		match (&rx, &got.items[0]) {
			(Rx::Nothing, g) => vassert!(*g == Err(Er::Io(err)), "expected {err:?}; {}", ctx()),
			(rx, g) => {
				if let Err(e) = judge(Some(id), Some(0), rx, g) {
					vfail!("{e}; {}", ctx())
				}
			},
		}
	}
	cx.outcome(&got);
}

fn main() {
	let mut r = Runner::new("C17");
	let frags = [Frag::All, Frag::Max(1), Frag::Items];
	r.sweep("every ID", (N_KIND * 256 * 21 * N_LINE * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let id = ix.take(256) as u8;
		let op = by_id(ix.take(N_KIND), id, ix.take(21));
		let lk = ix.take(N_LINE);
		let frag = *ix.of(&frags);
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, 64, 64);
		one(cx, &port, &mut c, &op, lk);
	});
	let mut ops: Vec<Op> = BC.to_vec();
	for k in 0..N_KIND - 1 {
		ops.push(by_id(k, BROADCAST, 3));
	}
	r.sweep("broadcasts", (ops.len() * N_LINE * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&ops);
		let lk = ix.take(N_LINE);
		let frag = *ix.of(&frags);
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, 64, 64);
		one(cx, &port, &mut c, op, lk);
	});
	// The same at every address and data size.
	r.sweep("broadcast at every address", 65536 * 4, |i, cx| {
		let mut ix = Ix(i);
		let a = ix.take(65536) as u16;
		let op = match ix.take(4) {
			0 => Op::Write(BROADCAST, a, Ty::I64, vec![1; 8]),
			1 => Op::WriteBytes(BROADCAST, a, vec![a as u8; (a % 9) as usize]),
			2 => Op::RegWrite(BROADCAST, a, Ty::U8, vec![1]),
			_ => Op::RegWriteBytes(BROADCAST, a, vec![a as u8; (a % 9) as usize]),
		};
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		one(cx, &port, &mut c, &op, 1);
	});
	r.sweep("broadcast of every data size", 900 * 4 * 2, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(900);
		let id = [BROADCAST, 9][ix.take(2)];
		let op = match ix.take(4) {
			0 => Op::WriteBytes(id, 5, vec![3; n]),
			1 => Op::RegWriteBytes(id, 5, vec![3; n]),
			2 => Op::WriteBytes(id, 5, vec![0xFF; n]),
			_ => Op::RegWriteBytes(id, 0xFDFF, vec![0xFD; n]),
		};
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 1300);
		one(cx, &port, &mut c, &op, 1);
	});
	// Histories: what a broadcast left unread does not disturb, and is not disturbed by, the next commands.
	let mut all = ops.clone();
	for k in 0..N_KIND - 1 {
		all.push(by_id(k, 3, 2));
	}
	let depth = r.by_tier(3usize, 3);
	let nl = N_LINE;
	r.tree("histories of broadcasts and commands", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		for _ in 0..depth {
			let op = cx.pick(&all);
			let lk = cx.choose(nl);
			one(cx, &port, &mut c, op, lk);
		}
		// Afterwards a motor still gets its own reply.
		port.replies(vec![vec![In::Bytes(status(3, 0x80, &[1, 2]))]]);
		let got = run(&mut c, &Op::ReadVec(3, 0, 2));
		vassert!(got.one() == Ok(item(3, true, &[1, 2])), "a read after broadcasts: {got:02X?}");
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = silent_ops();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], TX | RESULT | TIME);
	});
	r.finish();
}

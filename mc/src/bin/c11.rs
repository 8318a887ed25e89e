//! C11: leftover input is never taken for the reply to a new command.
use mc::*;

const T: Duration = Duration::from_millis(5);

/// Results of the operation on a fresh client.
fn reference(cx: &Cx, op: &Op, reply: bool) -> Ran {
	let port = VPort::new(cx);
	let mut c = client(&port, 64, 64);
	if reply {
		port.reply_bytes(op.good_replies().concat());
	}
	run(&mut c, op)
}

fn leftovers(op: &Op) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = vec![
		vec![],
		vec![0xFF],
		vec![0xFF, 0xFF, 0xFD],
		vec![0xFF, 0xFF, 0xFD, 0x00],
		vec![0x00, 0x13, 0x37],
		frame_with_len(3, 7, &[STATUS]),
		frame_with_len(3, 50, &[STATUS, 0]),
		frame_with_len(3, 0x1000, &[]),
		short_frame(3, 0),
		status(3, 0, &[]),
		status(3, 0, &[0x77, 0x77]),
		status(3, 0x05, &[]),
		status(9, 0, &[1, 2, 3]),
		bad_crc(status(3, 0, &[1, 2])),
		frame(3, READ, &[1, 2, 3, 4]),
	];
	// Late or duplicate replies to the very same command, with other data, whole and in part.
	let (ids, n) = match op.replies() {
		Replies::Each(w) => (vec![w[0].0], w[0].1),
		Replies::Scan => (vec![7, 8], 3),
		Replies::None => (vec![3], 0),
	};
	let late: Vec<u8> = ids.iter().flat_map(|id| status(*id, 0x80, &vec![0xEE; n])).collect();
	v.push(late.clone());
	v.push([&late[..], &late[..]].concat());
	v.push(status(ids[0], 0x01, &vec![0xEE; n]));
	for cut in [1, 4, 5, 7, 8, 9, late.len() - 2, late.len() - 1] {
		v.push(late[..cut].to_vec());
		v.push([&late[..], &late[..cut]].concat());
	}
	v
}

const N_PRIOR: usize = 15;

/// Bring the client into a state in which `left` is (possibly) still in its read buffer.
fn prior(c: &mut C, port: &VPort, kind: usize, left: &[u8]) {
	match kind {
		0 => {
			// The leftovers were only read after a timeout.
			port.feed(left);
			let _ = cl_status(c, T);
		},
		1 => {
			// Received together with the reply to a ping.
			port.reply_bytes([&status(3, 0, &[1, 2, 3])[..], left].concat());
			let got = run(c, &Op::Ping(3));
			vassert!(got.all_ok(&[item(3, false, &[1, 2, 3])]), "ping: {got:02X?}");
		},
		2 => {
			port.feed(&[&status(3, 0, &[5])[..], left].concat());
			let _ = cl_status(c, T);
		},
		3 => {
			port.feed(&[&bad_crc(status(3, 0, &[5]))[..], left].concat());
			let _ = cl_status(c, T);
		},
		4 => {
			port.feed(&[&status(3, 0, &[0x11; 60])[..], left].concat());
			let _ = cl_status(c, T);
		},
		5 => {
			// Second reply of a sync read missing.
			port.reply_bytes([&status(3, 0, &[1])[..], left].concat());
			let _ = run_take(c, &Op::SyncRead(vec![3, 1], 0, Ty::U8, Via::Next), 1);
		},
		6 => {
			port.reply_bytes([&status(3, 0, &[1])[..], &status(1, 0, &[1]), left].concat());
			let _ = run_take(c, &Op::SyncReadBytes(vec![3, 1], 0, 1, Via::Next), 0);
		},
		7 => {
			port.reply_bytes([&status(3, 0, &[1])[..], left].concat());
			let _ = run_take(c, &Op::BulkRead(vec![(3, 0, 1)], Via::Next), 1);
		},
		8 => {
			port.reply_bytes([&status(4, 0, &[1, 2, 3])[..], left].concat());
			let _ = run_take(c, &Op::Scan, 1);
		},
		9 => {
			// The port failed in the middle.
			port.feed(left);
			port.push(In::Err(VErr::Fault(3)));
			let _ = cl_status(c, T);
			let _ = cl_status(c, T);
		},
		10 => {
			// The client refused a packet in between.
			port.reply_bytes([&status(3, 0, &[1, 2, 3])[..], left].concat());
			let _ = run(c, &Op::Ping(3));
			let got = run(c, &Op::WriteBytes(3, 0, vec![0; 200]));
			vassert!(matches!(got.write, Err(Er::TooSmall { .. })), "{got:?}");
		},
		12 | 13 => {
			// The command before could not be sent.
			port.feed(left);
			let _ = cl_status(c, T);
			port.feed(left);
			port.fault_in(kind as u32 - 12, VErr::Fault(4));
			let got = run(c, &Op::Ping(3));
			vassert!(got.write.is_err(), "{got:?}");
			port.0.borrow_mut().fault_at = None;
			port.feed(left);
		},
		14 => {
			// The port failed while a reply was awaited.
			port.replies(vec![vec![In::Bytes([&[0xFF, 0xFF][..], left].concat()), In::Err(VErr::Fault(4))]]);
			let _ = run(c, &Op::ReadVec(3, 0, 40));
		},
		_ => {
			// The reply of a wrong motor.
			port.reply_bytes([&status(3, 0, &[1, 2])[..], left].concat());
			let _ = run(c, &Op::ReadVec(4, 0, 2));
		},
	}
	port.0.borrow_mut().on_frame = None;
}

fn check(cx: &Cx, op: &Op, kind: usize, inner: &[u8], outer: &[u8], reply: bool, frag: Frag) {
	let want = reference(cx, op, reply);
	let port = VPort::new(cx).frag(frag);
	let mut c = client(&port, 64, 64);
	prior(&mut c, &port, kind, inner);
	port.feed(outer);
	if reply {
		port.reply_bytes(op.good_replies().concat());
	}
	port.take_log();
	let got = run(&mut c, op);
	vassert!(got == want, "{op:?} after leftovers {} (inside, history {kind}) and {} (in the port): {got:02X?}, without leftovers {want:02X?}", hex(inner), hex(outer));
	check_order(op, &port.take_log());
	cx.outcome(&got);
}

fn check_order(op: &Op, log: &[Ev]) {
	let io: Vec<&Ev> = log.iter().filter(|e| !matches!(e, Ev::Deadline(_) | Ev::Baud(_))).collect();
	vassert!(matches!(io.first(), Some(Ev::Discard(Ok(())))), "{op:?}: the input was not discarded first: {io:02X?}");
	vassert!(matches!(io.get(1), Some(Ev::Write(_, Ok(())))), "{op:?}: the instruction was not written after discarding: {io:02X?}");
	vassert!(io[2..].iter().all(|e| matches!(e, Ev::Read { .. })), "{op:?}: something other than reading after the instruction: {io:02X?}");
}

fn main() {
	let mut r = Runner::new("C11");
	let mut ops = representative_ops();
	ops.push(Op::SyncReadBytes(vec![3, 1], 0, 3, Via::Iter));
	ops.push(Op::SyncReadBytes(vec![3], 0, 1, Via::Borrow));
	ops.push(Op::BulkRead(vec![(3, 0, 2), (1, 0, 2)], Via::BorrowCtor));
	ops.push(Op::SyncRead(vec![3, 1], 0, Ty::U8, Via::Iter));
	ops.extend(silent_ops());
	let lefts: Vec<Vec<Vec<u8>>> = ops.iter().map(leftovers).collect();
	let m = lefts.iter().map(|x| x.len()).max().unwrap();

	r.sweep("one history, then leftovers everywhere", (ops.len() * N_PRIOR * m * m * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let o = ix.take(ops.len());
		let kind = ix.take(N_PRIOR);
		let (a, b) = (ix.take(m), ix.take(m));
		let reply = ix.take(2) == 1;
		if a >= lefts[o].len() || b >= lefts[o].len() {
			return;
		}
		let frag = [Frag::All, Frag::Max(20), Frag::Max(3)][(i % 3) as usize];
		check(cx, &ops[o], kind, &lefts[o][a], &lefts[o][b], reply, frag);
	});
	// Leftovers of every length: cut-off replies whose remainder would be completed by the next reply.
	let few: Vec<Op> = vec![Op::Ping(3), Op::ReadVec(3, 0, 5), Op::WriteBytes(3, 0, vec![1]), Op::SyncRead(vec![3, 1], 0, Ty::U16, Via::Next), Op::Scan, Op::BulkRead(vec![(3, 0, 2)], Via::Next)];
	r.sweep("leftovers cut at every byte", (few.len() * N_PRIOR * 64 * 2 * 2 * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&few);
		let kind = ix.take(N_PRIOR);
		let cut = ix.take(64);
		let inside = ix.take(2) == 1;
		let reply = ix.take(2) == 1;
		let frag = [Frag::All, Frag::Max(1), Frag::Max(11)][ix.take(3)];
		let good = op.good_replies().concat();
		if cut > good.len() {
			return;
		}
		let (a, b) = if inside { (&good[..cut], &[][..]) } else { (&[][..], &good[..cut]) };
		check(cx, op, kind, a, b, reply, frag);
	});
	// Leftovers of every length, up to and beyond what fills the read buffer exactly.
	r.sweep("leftovers that fill the read buffer", (few.len() * N_PRIOR * 140 * 7 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let op = ix.of(&few);
		let kind = ix.take(N_PRIOR);
		let len = ix.take(140);
		let filler = ix.take(7);
		let inside = ix.take(2) == 1;
		let left: Vec<u8> = match filler {
			0 => vec![0x11; len],
			1 => vec![0xFF; len],
			// A frame that claims to just fit the buffer, and one that does not.
			2 => frame_with_len(3, 57, &[STATUS, 0]).into_iter().chain(vec![0x22; 140]).take(len).collect(),
			3 => frame_with_len(3, 58, &[STATUS, 0]).into_iter().chain(vec![0x22; 140]).take(len).collect(),
			// Whole replies, and part of one.
			4 => status(3, 0, &[0xEE; 3]).into_iter().cycle().take(len).collect(),
			5 => status(3, 0, &[0xEE; 2]).into_iter().cycle().skip(5).take(len).collect(),
			_ => [0xFF, 0xFF, 0xFD, 0x00].into_iter().cycle().take(len).collect(),
		};
		let frag = [Frag::All, Frag::Max(7), Frag::Max(64)][(len + filler) % 3];
		let (a, b) = if inside { (&left[..], &[][..]) } else { (&[][..], &left[..]) };
		check(cx, op, kind, a, b, true, frag);
	});
	// Histories of commands that each leave something behind.
	let kinds: Vec<(usize, Vec<u8>)> = vec![
		(0, vec![0xFF, 0xFF, 0xFD, 0x00]),
		(1, status(3, 0, &[9, 9, 9])),
		(2, status(3, 0, &[9, 9, 9])[..9].to_vec()),
		(3, status(3, 0, &[9])),
		(4, vec![0xFF, 0xFF]),
		(5, status(3, 0, &[9, 9, 9])[..5].to_vec()),
		(8, vec![0xFF]),
		(9, status(3, 0, &[9, 9, 9])[..8].to_vec()),
		(10, status(3, 0, &[])),
		(11, status(4, 0, &[])),
		(13, status(3, 0, &[9, 9, 9])),
	];
	let k = r.by_tier(4usize, 5);
	r.tree("histories of leftovers", None, |cx| {
		let op = cx.pick(&few);
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		for _ in 0..k {
			let (kind, left) = cx.pick(&kinds);
			prior(&mut c, &port, *kind, left);
		}
		let tail = *cx.pick(&[&[0xFFu8, 0xFF][..], &[][..]]);
		port.feed(tail);
		port.reply_bytes(op.good_replies().concat());
		port.take_log();
		let got = run(&mut c, op);
		let want = reference(cx, op, true);
		vassert!(got == want, "{op:?} after a history of leftovers: {got:02X?}, without {want:02X?}");
		check_order(op, &port.take_log());
		cx.sample(|| format!("{op:?}"));
	});
	// Leftovers that arrive in the port between two commands, under every fragmentation of everything.
	r.tree("late reply before the next command, fragmented", Some(r.by_tier(4, 6)), |cx| {
		let op = cx.pick(&few);
		let port = VPort::new(cx).frag(Frag::Choose);
		let mut c = client(&port, 64, 64);
		// First attempt: the motor answers too late, with part of the answer arriving in time.
		let good = op.good_replies().concat();
		let cut = cx.choose(good.len());
		let (now, late) = (good[..cut].to_vec(), good[cut..].to_vec());
		if now.is_empty() {
			port.replies(vec![]);
		} else {
			port.replies(vec![vec![In::Bytes(now)]]);
		}
		let first = run(&mut c, op);
		vassert!(*op == Op::Scan || op.is_multi() || first.one() == Err(Er::Io(VErr::Timeout)), "{op:?}: {first:02X?}");
		port.set_frag(Frag::Choose);
		port.feed(&late);
		let other = match op {
			Op::Ping(_) => Op::ReadVec(3, 0, 3),
			Op::ReadVec(..) => Op::SyncReadBytes(vec![3, 4], 0, 5, Via::Next),
			_ => Op::Ping(3),
		};
		port.reply_bytes(other.good_replies().concat());
		port.take_log();
		let got = run(&mut c, &other);
		vassert!(got.all_ok(&other.good_items()), "{other:?} after a late reply to {op:?}: {got:02X?}");
		check_order(&other, &port.take_log());
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], TX | RESULT);
	});
	r.finish();
}

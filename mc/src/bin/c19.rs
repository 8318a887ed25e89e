//! C19: dropping a multi-reply read early leaves the bus usable.
use mc::*;

const T: Duration = Duration::from_millis(3);
const N_FL: usize = 11;
fn op_of(fl: usize, ids: &[u8]) -> Op {
	let v = ids.to_vec();
	let bulk = || ids.iter().enumerate().map(|(k, i)| (*i, 0x0102 + k as u16, [2u16, 5, 0, 1][k % 4])).collect::<Vec<_>>();
	match fl {
		0 => Op::SyncReadBytes(v, 1, 2, Via::Next),
		1 => Op::SyncReadBytes(v, 1, 3, Via::Iter),
		2 => Op::SyncReadBytes(v, 1, 4, Via::Borrow),
		3 => Op::SyncReadBytes(v, 1, 1, Via::BorrowCtor),
		4 => Op::SyncRead(v, 1, Ty::U16, Via::Next),
		5 => Op::SyncRead(v, 1, Ty::A3, Via::Iter),
		6 => Op::BulkRead(bulk(), Via::Next),
		7 => Op::BulkRead(bulk(), Via::Iter),
		8 => Op::BulkRead(bulk(), Via::Borrow),
		9 => Op::BulkRead(bulk(), Via::BorrowCtor),
		_ => Op::Scan,
	}
}
/// (ID, parameters) of the motors that answer.
fn wanted(op: &Op, ids: &[u8]) -> Vec<(u8, usize)> {
	match op.replies() {
		Replies::Each(w) => w,
		_ => ids.iter().map(|i| (*i, 3)).collect(),
	}
}

/// Run with `take` results, and compare what is left with the reference.
fn drop_after(c: &mut C, port: &VPort, op: &Op, ids: &[u8], input: &[In], take: usize, rbuf: usize, sentinel: bool) {
	let want = wanted(op, ids);
	let mut all = input.to_vec();
	let last = status(0x62, 0, &[0x42, 0x43]);
	if *op == Op::Scan {
		// The end of the scan.
		all.push(In::Err(VErr::Timeout));
	}
	all.push(In::Bytes(last.clone()));
	port.replies(vec![all.clone()]);
	let got = run_take(c, op, take);
	let ctx = || format!("{op:?} dropped after {take} results, input {input:02X?}, got {got:02X?}");
	vassert!(got.write.is_ok(), "{}", ctx());
	// The reference: one attempt per motor, or up to the first timeout.
	let mut p = RefPort::new(rbuf, &all);
	if *op == Op::Scan {
		let mut n = 0;
		loop {
			if p.next() == Got::Io(VErr::Timeout) {
				break;
			}
			n += 1;
		}
		// Going on after the end of the scan is not early; the end may then be looked for once more.
		if take > n || n >= 253 {
			return;
		}
	} else {
		for _ in 0..want.len() {
			p.next();
		}
	}
	if !sentinel {
		return;
	}
	// The next thing received is the next thing in the reference: nothing is left over and nothing was taken too much.
	for k in 0..2 {
		let w = p.next();
		let r = cl_status(c, T);
		let ok = match (&w, &r) {
			(Got::Io(e), r) => *r == Err(Er::Io(*e)),
			(Got::Rx(rx), r) => judge_status(rx, r).is_ok(),
		};
		vassert!(ok, "reception {k} after the drop gives {r:02X?}, expected {w:02X?}; {}", ctx());
	}
}
/// A following command gets its own reply.
fn follow(c: &mut C, port: &VPort, next: &Op) {
	port.reply_bytes(next.good_replies().concat());
	port.take_log();
	let got = run(c, next);
	vassert!(got.all_ok(&next.good_items()), "{next:?} after a drop: {got:02X?}");
	vassert!(port.written() == next.tx_frame(), "{next:?} after a drop transmitted {}", hex(&port.written()));
}

fn main() {
	let mut r = Runner::new("C19");
	r.assume("a scan that was read to its end may look for more once when it is dropped");
	r.assume("more than 253 replies to a scan are not considered");
	let lists: [&[u8]; 3] = [&[3, 1, 7], &[0, 252, 0x55], &[5, 4, 3]];
	let frags = [Frag::All, Frag::Max(1), Frag::Items];
	let nexts = [Op::Ping(9), Op::ReadVec(3, 0, 2), Op::SyncReadBytes(vec![1, 2], 0, 2, Via::Next), Op::WriteBytes(1, 2, vec![3])];
	let nb = BEHS.len();
	r.sweep("three motors, every behaviour, every number of results", (nb * nb * nb * N_FL * 5 * 3) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = [*ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS)];
		let fl = ix.take(N_FL);
		let take = ix.take(5);
		let ids = lists[ix.take(3)];
		let frag = frags[(i % 3) as usize];
		let op = op_of(fl, ids);
		let want = wanted(&op, ids);
		let input: Vec<In> = (0..3).flat_map(|k| act(b[k], k, &want)).collect();
		let port = VPort::new(cx).frag(frag).horizon(5000);
		let mut c = client(&port, 64, 64);
		drop_after(&mut c, &port, &op, ids, &input, take, 64, true);
		follow(&mut c, &port, &nexts[i as usize % 4]);
		cx.outcome(&port.n_reads());
	});
	r.sweep("without anything on the line afterwards", (nb * nb * N_FL * 4 * 4) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = [*ix.of(&BEHS), *ix.of(&BEHS)];
		let op = op_of(ix.take(N_FL), &[3, 1]);
		let take = ix.take(4);
		let next = ix.of(&nexts);
		let want = wanted(&op, &[3, 1]);
		let input: Vec<In> = (0..2).flat_map(|k| act(b[k], k, &want)).collect();
		let port = VPort::new(cx).horizon(5000);
		let mut c = client(&port, 64, 64);
		port.replies(vec![input]);
		run_take(&mut c, &op, take);
		follow(&mut c, &port, next);
	});
	// Number of motors.
	r.sweep("every number of motors", 254 * N_FL as u64 * 6 * 2, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(254);
		let ids: Vec<u8> = (0..n).map(|k| (k * 5 % 253) as u8).collect();
		let op = op_of(ix.take(N_FL), &ids);
		let take = [0, 1, n / 2, n.saturating_sub(1), n, n + 1][ix.take(6)];
		let want = wanted(&op, &ids);
		let silent = ix.take(2) == 1;
		if silent && op == Op::Scan {
			return;
		}
		let input: Vec<In> = (0..n).flat_map(|k| act(if silent { Beh::Silent } else { Beh::Good }, k, &want)).collect();
		let port = VPort::new(cx).horizon(5000);
		let mut c = client(&port, 64, 1400);
		drop_after(&mut c, &port, &op, &ids, &input, take, 64, true);
		follow(&mut c, &port, &Op::Ping(9));
	});
	// Ports that keep failing, and read buffers that are too small for anything.
	r.sweep("persistent failures", N_FL as u64 * 9 * 3 * 30 * 8, |i, cx| {
		let mut ix = Ix(i);
		let fl = ix.take(N_FL);
		let take = ix.take(9);
		let err = [Some(VErr::Fault(3)), Some(VErr::Timeout), None][ix.take(3)];
		let rbuf = ix.take(30);
		let n = ix.take(8);
		if err.is_none() && rbuf >= 14 {
			return;
		}
		let ids: Vec<u8> = (1..=n as u8).collect();
		let op = op_of(fl, &ids);
		let port = VPort::new(cx).horizon(3000);
		let mut c = client(&port, rbuf, 64);
		port.0.borrow_mut().fail_reads = err;
		port.reply_bytes(vec![0xFF, 0xFF, 0xFD, 0x00, 1, 40, 0, 0x55, 0, 1, 2, 3, 4, 5, 6]);
		port.take_log();
		let got = run_take(&mut c, &op, take);
		vassert!(got.write.is_ok(), "{got:?}");
		let reads = port.n_reads();
		if err.is_some() && op != Op::Scan {
			// One attempt per motor; none at all when the buffer can not hold any frame.
			let want = if rbuf < 10 { 0 } else { n };
			vassert!(reads == want || (rbuf < 10 && reads <= n), "{op:?} dropped after {take}: {reads} reads for {n} motors");
		}
		port.0.borrow_mut().fail_reads = None;
		if rbuf >= 14 {
			follow(&mut c, &port, &Op::Ping(9));
		}
		cx.outcome(&reads);
	});
	// The replies are waited for as long as they take.
	let counts = [0u16, 1, 7, 50, 63, 64, 65, 127, 128, 200, 255, 256, 257, 1000, 4095, 4096, 30_000, 65_535];
	let bauds = [300u32, 9600, 57_600, 1_000_000, 4_500_000];
	r.sweep("time for the outstanding replies", (counts.len() * counts.len() * bauds.len() * 4 * 5) as u64, |i, cx| {
		let mut ix = Ix(i);
		let n = [*ix.of(&counts), *ix.of(&counts)];
		let baud = *ix.of(&bauds);
		let take = ix.take(4);
		let op = match ix.take(5) {
			0 => Op::BulkRead(vec![(3, 0, n[0]), (1, 2, n[1]), (9, 2, n[0])], Via::Next),
			1 => Op::BulkRead(vec![(3, 0, n[0]), (1, 2, n[1])], Via::BorrowCtor),
			2 => Op::SyncReadBytes(vec![3, 4, 5], 0, n[0], Via::Next),
			3 => Op::SyncReadBytes(vec![3, 4], 0, n[1], Via::BorrowCtor),
			_ => Op::SyncRead(vec![3, 4, 5], 0, Ty::ALL[i as usize % 18], Via::Next),
		};
		let Replies::Each(want) = op.replies() else { unreachable!() };
		let port = VPort::new(cx).baud(baud);
		let mut c = client(&port, 64, 64);
		let got = run_take(&mut c, &op, take);
		vassert!(got.write.is_ok(), "{op:?}: {got:?}");
		let waited: Vec<u128> = port.log().iter().filter_map(|e| if let Ev::Deadline(d) = e { Some(d.timeout.as_nanos()) } else { None }).collect();
		vassert!(waited.len() == want.len(), "{op:?} dropped after {take} results: {} replies are awaited", waited.len());
		for (t, (id, n)) in waited.iter().zip(&want) {
			// 10 bits per byte.
			let need = (11 + *n as u128) * 10_000_000_000 / baud as u128;
			vassert!(*t >= need, "{op:?} at {baud} baud, dropped after {take} results: the reply of motor {id} takes {need} ns, but is awaited for {t} ns");
		}
		cx.outcome(&waited.len());
	});
	// One fault at every position.
	r.sweep("one fault", N_FL as u64 * 5 * 40 * 2 * 2, |i, cx| {
		let mut ix = Ix(i);
		let op = op_of(ix.take(N_FL), &[3, 1, 7]);
		let take = ix.take(5);
		let at = ix.take(40) as u32;
		let err = [VErr::Fault(3), VErr::Timeout][ix.take(2)];
		let frag = [Frag::Max(4), Frag::Items][ix.take(2)];
		let port = VPort::new(cx).frag(frag).horizon(3000);
		let mut c = client(&port, 64, 64);
		let want = wanted(&op, &[3, 1, 7]);
		port.replies(vec![(0..3).flat_map(|k| act(Beh::Good, k, &want)).collect()]);
		port.fault_in(at, err);
		run_take(&mut c, &op, take);
		port.0.borrow_mut().fault_at = None;
		follow(&mut c, &port, &Op::Ping(9));
	});
	// All ways of dividing the replies over reads.
	let cuts = r.by_tier(3usize, 4);
	let few = [Beh::Good, Beh::Silent, Beh::Slow, Beh::Missing, Beh::Error, Beh::BadCrc, Beh::Short, Beh::Fault, Beh::Half];
	r.tree("fragmentation", Some(cuts), |cx| {
		let op = op_of(cx.choose(N_FL), &[3, 1]);
		let want = wanted(&op, &[3, 1]);
		let take = cx.choose(3);
		let input: Vec<In> = (0..2).flat_map(|k| act(*cx.pick(&few), k, &want)).collect();
		let port = VPort::new(cx).frag(Frag::Choose);
		let mut c = client(&port, 40, 64);
		drop_after(&mut c, &port, &op, &[3, 1], &input, take, 40, true);
		port.set_frag(Frag::All);
		follow(&mut c, &port, &Op::Ping(9));
	});
	let k = r.by_tier(2usize, 3);
	let few = if k == 3 { &few[..4] } else { &few[..] };
	r.tree("histories of dropped reads", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 48, 64);
		for _ in 0..k {
			let op = op_of(*cx.pick(if k == 3 { &[0usize, 4, 10][..] } else { &[0, 4, 8, 10] }), &[3, 1]);
			let want = wanted(&op, &[3, 1]);
			let take = cx.choose(3);
			let input: Vec<In> = (0..2).flat_map(|p| act(*cx.pick(few), p, &want)).collect();
			let sentinel = cx.flag();
			drop_after(&mut c, &port, &op, &[3, 1], &input, take, 48, sentinel);
		}
		follow(&mut c, &port, &Op::Ping(9));
	});
	// Sync reads of more motors than there are IDs.
	let sizes = [254usize, 255, 256, 257, 258, 300, 512, 513, 1000, 32_768, 65_528];
	r.sweep("very many motors", sizes.len() as u64 * 6 * 8 * 3, |i, cx| {
		let mut ix = Ix(i);
		let n = *ix.of(&sizes);
		let fl = ix.take(6);
		let take = [0usize, 1, 2, 253, 255, 256, n - 1, n][ix.take(8)];
		let ids: Vec<u8> = (0..n).map(|k| (k * 3 % 253) as u8).collect();
		let op = op_of(fl, &ids);
		let want = wanted(&op, &ids);
		// All answer, some are missing, or all fail.
		let how = ix.take(3);
		let input: Vec<In> = (0..n)
			.filter(|k| how != 1 || k % 9 != 4)
			.flat_map(|k| if how == 2 { vec![In::Err(VErr::Fault(k as u32))] } else { act(Beh::Good, k, &want) })
			.collect();
		let port = VPort::new(cx).horizon(4_000_000).frag(Frag::Items);
		let mut c = client(&port, 48, 66_000);
		drop_after(&mut c, &port, &op, &ids, &input, take, 48, true);
		follow(&mut c, &port, &nexts[i as usize % 4]);
	});
	r.finish();
}

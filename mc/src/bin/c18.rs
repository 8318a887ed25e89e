//! C18: sync and bulk reads attribute every reply to the right motor.
use mc::*;

/// Flavours of multi-motor reads over a list of motors.
const N_FL: usize = 13;
fn op_of(fl: usize, ids: &[u8], n: usize) -> Op {
	let v = ids.to_vec();
	let n16 = n as u16;
	let bulk = || ids.iter().enumerate().map(|(k, i)| (*i, 0x0102 + k as u16, [n16, 1, 4, 0, 2][k % 5])).collect::<Vec<_>>();
	let ty = match n {
		0 => Ty::A0,
		1 => Ty::U8,
		2 => Ty::I16,
		4 => Ty::U32,
		6 => Ty::A3,
		_ => Ty::A22,
	};
	match fl {
		0 => Op::SyncReadBytes(v, 0x0102, n16, Via::Next),
		1 => Op::SyncReadBytes(v, 0x0102, n16, Via::Iter),
		2 => Op::SyncReadBytes(v, 0x0102, n16, Via::Borrow),
		3 => Op::SyncReadBytes(v, 0x0102, n16, Via::BorrowCtor),
		4 => Op::SyncRead(v, 0x0102, ty, Via::Next),
		5 => Op::SyncRead(v, 0x0102, ty, Via::Iter),
		6 => Op::BulkRead(bulk(), Via::Next),
		7 => Op::BulkRead(bulk(), Via::Iter),
		8 => Op::BulkRead(bulk(), Via::Borrow),
		9 => Op::BulkRead(bulk(), Via::BorrowCtor),
		10 => Op::SyncRead(v, 0x0102, Ty::A22, Via::Next),
		11 => Op::SyncRead(v, 0x0102, Ty::A13, Via::Iter),
		_ => Op::SyncRead(v, 0x0102, Ty::P5, Via::Iter),
	}
}
fn wanted(op: &Op) -> Vec<(u8, usize)> {
	match op.replies() {
		Replies::Each(w) => w,
		_ => unreachable!(),
	}
}

fn check(cx: &Cx, op: &Op, input: Vec<In>, frag: Frag, rbuf: usize) -> Ran {
	let want = wanted(op);
	let port = VPort::new(cx).frag(frag);
	let mut c = client(&port, rbuf, 64 + 5 * want.len());
	let got = drive(&mut c, &port, op, &input, rbuf);
	cx.outcome(&got.items.iter().map(|x| x.is_ok()).collect::<Vec<_>>());
	got
}

fn drive(c: &mut C, port: &VPort, op: &Op, input: &[In], rbuf: usize) -> Ran {
	let want = wanted(op);
	port.replies(vec![input.to_vec()]);
	let got = run(c, op);
	let ctx = || format!("{op:?}, input {input:02X?}: got {got:02X?}");
	vassert!(got.write.is_ok(), "not transmitted; {}", ctx());
	vassert!(got.items.len() == want.len(), "{} results for {} motors; {}", got.items.len(), want.len(), ctx());
	let rem: Vec<usize> = (0..got.remaining.len()).map(|k| want.len().saturating_sub(k)).collect();
	vassert!(got.remaining == rem && rem.len() > want.len(), "remaining() says {:?} instead of {rem:?}; {}", got.remaining, ctx());
	if let Some(h) = &got.hint {
		vfail!("{h}; {}", ctx());
	}
	// All valid status packets in the input: each justifies at most one success.
	let mut frames: Vec<(u8, bool, Vec<u8>)> = vec![];
	{
		let mut p = RefPort::new(rbuf, input);
		let mut quiet = 0;
		while quiet < 2 {
			match p.next() {
				Got::Rx(Rx::Packet { id, inst: STATUS, params }) if params[0] & 0x7F == 0 => {
					frames.push((id, params[0] & 0x80 != 0, params[1..].to_vec()))
				},
				Got::Io(VErr::Timeout) if p.input.is_empty() => quiet += 1,
				_ => {},
			}
		}
	}
	let mut seq = Some(RefPort::new(rbuf, input));
	for (k, (res, &(id, n))) in got.items.iter().zip(&want).enumerate() {
		if let Ok(i) = res {
			vassert!(i.id == id, "result {k} of motor {id} carries ID {}; {}", i.id, ctx());
			vassert!(i.data.len() == n, "result {k} has {} bytes instead of {n}; {}", i.data.len(), ctx());
			let pos = frames.iter().position(|f| *f == (i.id, i.alert, i.data.clone()));
			vassert!(pos.is_some(), "result {k} of motor {id} is not justified by a reply of that motor (or that reply was used before); {}", ctx());
			frames.remove(pos.unwrap());
		}
		if let Some(s) = &mut seq {
			let g = s.next();
			if let Err(e) = judge_got(Some(id), Some(n), &g, res) {
				// A frame that carries the ID of another requested motor may be kept for that motor.
				let other = matches!(&g, Got::Rx(Rx::Packet { id: from, inst: STATUS, .. }) if *from != id && want.iter().any(|w| w.0 == *from));
				if other && res.is_err() {
					seq = None;
				} else {
					vfail!("result {k} (motor {id}): {e}; {}", ctx());
				}
			}
		}
	}
	got
}

fn main() {
	let mut r = Runner::new("C18");
	r.assume("a reply that carries the ID of another requested motor may be rejected or kept for that motor");
	let lists: [&[u8]; 5] = [&[3, 1, 7], &[0, 252, 251], &[5, 0x55, 0xFD], &[1, 2, 3], &[4, 4, 5]];
	let frags = [Frag::All, Frag::Max(1), Frag::Items, Frag::Max(7)];
	let nb = BEHS.len();
	r.sweep("three motors, every behaviour", (nb * nb * nb * N_FL * 5 * 4 * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = [*ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS)];
		let fl = ix.take(N_FL);
		let ids = *ix.of(&lists);
		let frag = *ix.of(&frags);
		let n = [2, 4][ix.take(2)];
		if ids[0] == ids[1] && (6..10).contains(&fl) {
			return;
		}
		let op = op_of(fl, ids, n);
		let want = wanted(&op);
		let input: Vec<In> = (0..3).flat_map(|k| act(b[k], k, &want)).collect();
		check(cx, &op, input, frag, 64);
	});
	let nf4 = r.by_tier(N_FL, N_FL);
	r.sweep("four motors, every behaviour", (nb * nb * nb * nb * nf4) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = [*ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS)];
		let k = ix.take(nf4);
		let fl = if nf4 == 4 { [0, 4, 6, 9][k] } else { k };
		let op = op_of(fl, &[9, 2, 30, 31], 2);
		let want = wanted(&op);
		let input: Vec<In> = (0..4).flat_map(|k| act(b[k], k, &want)).collect();
		check(cx, &op, input, frags[i as usize % 4], 64);
	});
	{
		r.sweep("five motors, every behaviour", (nb * nb * nb * nb * nb * 3) as u64, |i, cx| {
			let mut ix = Ix(i);
			let b = [*ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS), *ix.of(&BEHS)];
			let fl = [1, 5, 8][ix.take(3)];
			let op = op_of(fl, &[9, 2, 30, 31, 200], 2);
			let want = wanted(&op);
			let input: Vec<In> = (0..5).flat_map(|k| act(b[k], k, &want)).collect();
			check(cx, &op, input, frags[i as usize % 4], 64);
		});
	}
	// Every ID against every other ID.
	r.sweep("every pair of requested and replying ID", (256 * 256 * N_FL) as u64, |i, cx| {
		let mut ix = Ix(i);
		let (a, b) = (ix.take(256) as u8, ix.take(256) as u8);
		let op = op_of(ix.take(N_FL), &[a], 2);
		let want = wanted(&op);
		check(cx, &op, vec![In::Bytes(status(b, 0, &data_of(0, b, want[0].1)))], Frag::All, 64);
	});
	r.sweep("replies in another order", (6 * N_FL * 60) as u64, |i, cx| {
		let mut ix = Ix(i);
		let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ix.take(6)];
		let op = op_of(ix.take(N_FL), &[3, 1, 7], 2);
		let want = wanted(&op);
		let cut = ix.take(60);
		let all: Vec<u8> = p.iter().map(|&k| status(want[k].0, 0, &data_of(k, want[k].0, want[k].1))).collect::<Vec<_>>().concat();
		let cut = cut.min(all.len());
		check(cx, &op, vec![In::Bytes(all[..cut].to_vec()), In::Bytes(all[cut..].to_vec())], Frag::Items, 64);
	});
	// Numbers of parameters.
	r.sweep("every number of parameters", 40 * 40 * 8, |i, cx| {
		let mut ix = Ix(i);
		let (n, m) = (ix.take(40), ix.take(40));
		let v = ix.take(8);
		let via = [Via::Next, Via::Iter, Via::Borrow, Via::BorrowCtor][v % 4];
		let op = if v < 4 { Op::SyncReadBytes(vec![8, 9], 3, n as u16, via) } else { Op::BulkRead(vec![(8, 3, n as u16), (9, 3, m as u16)], via) };
		let input = status(8, 0, &data_of(0, 8, m));
		check(cx, &op, vec![In::Bytes(input), In::Bytes(status(9, 0, &data_of(1, 9, n)))], Frag::All, 64);
	});
	r.sweep("every number of parameters of typed reads", 18 * 44, |i, cx| {
		let mut ix = Ix(i);
		let t = *ix.of(&Ty::ALL);
		let m = ix.take(44);
		let op = Op::SyncRead(vec![8, 9], 3, t, Via::Next);
		let input = status(8, 0, &data_of(0, 8, m));
		check(cx, &op, vec![In::Bytes(input), In::Bytes(status(9, 0, &data_of(1, 9, t.size())))], Frag::All, 64);
	});
	let asked_for = [0usize, 1, 2, 4, 100, 128, 255, 256, 257, 300, 400, 511, 512, 513, 520, 1024];
	let most = r.by_tier(1100u64, 2600);
	r.sweep("every number of parameters for every number requested", asked_for.len() as u64 * most * 9 * 2, |i, cx| {
		let mut ix = Ix(i);
		let v = ix.take(9);
		let pos = ix.take(2);
		let n = *ix.of(&asked_for);
		let m = ix.take(most as usize);
		let via = [Via::Next, Via::Iter, Via::Borrow, Via::BorrowCtor][v % 4];
		let op = match v {
			0..=3 => Op::SyncReadBytes(vec![8, 9], 3, n as u16, via),
			4..=7 => Op::BulkRead(vec![(8, 3, n as u16), (9, 3, n as u16)], via),
			_ => match Ty::ALL.iter().chain(&Ty::LARGE).find(|t| t.size() == n) {
				Some(t) => Op::SyncRead(vec![8, 9], 3, *t, Via::Iter),
				None => return,
			},
		};
		let d = [if pos == 0 { m } else { n }, if pos == 1 { m } else { n }];
		let input: Vec<In> = (0..2).map(|k| In::Bytes(status(8 + k as u8, 0, &data_of(k, 8 + k as u8, d[k])))).collect();
		let got = check(cx, &op, input, Frag::All, 5400);
		for k in 0..2 {
			vassert!(got.items[k].is_ok() == (d[k] == n), "{n} bytes from 8 and 9, replies of {d:?} bytes: result {k} is {:02X?}", got.items[k]);
		}
	});
	// Many motors, each with its own amount of data.
	r.sweep("every number of motors", 254 * 6 * 4, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(254);
		let ids: Vec<u8> = (0..n).map(|k| (k * 3 % 253) as u8).collect();
		// 3 and 253 are coprime: all different.
		let fl = [0, 3, 5, 6, 7, 9][ix.take(6)];
		let op = op_of(fl, &ids, 4);
		let want = wanted(&op);
		let bad = ix.take(4);
		let mut input = vec![];
		for k in 0..n {
			let b = match bad {
				1 if k % 5 == 2 => Beh::Silent,
				2 if k == n / 2 => Beh::Missing,
				3 if k % 7 == 3 => Beh::Error,
				_ => Beh::Good,
			};
			input.extend(act(b, k, &want));
		}
		let got = check(cx, &op, input, frags[i as usize % 4], 64);
		if bad == 0 {
			let all: Vec<Item> = want.iter().enumerate().map(|(k, w)| item(w.0, false, &data_of(k, w.0, w.1))).collect();
			vassert!(got.all_ok(&all), "{op:?}: {got:02X?}");
		}
	});
	r.sweep("large bulk reads", 300 * 3, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(300) as u16;
		let via = [Via::Next, Via::Borrow, Via::BorrowCtor][ix.take(3)];
		let op = Op::BulkRead(vec![(1, 0, n), (2, 0xFFFF, 300 - n), (3, 9, n / 2)], via);
		let want = wanted(&op);
		let input: Vec<In> = (0..3).flat_map(|k| act(Beh::Good, k, &want)).collect();
		let got = check(cx, &op, input, Frag::Max(64), 600);
		vassert!(got.items.iter().all(|x| x.is_ok()), "{op:?}: {got:02X?}");
	});
	// All ways of dividing the replies over reads.
	let cuts = r.by_tier(3usize, 4);
	let short: Vec<Beh> = BEHS.iter().copied().filter(|b| !matches!(b, Beh::TooBig | Beh::Stuffed | Beh::Noise)).collect();
	r.tree("fragmentation", Some(cuts), |cx| {
		let fl = cx.choose(N_FL);
		let op = op_of(fl, &[3, 1], 2);
		let want = wanted(&op);
		let b = [*cx.pick(&short), *cx.pick(&short)];
		let input: Vec<In> = (0..2).flat_map(|k| act(b[k], k, &want)).collect();
		check(cx, &op, input, Frag::Choose, 40);
	});
	// Several reads in a row by one client.
	let k = r.by_tier(3usize, 3);
	let few = [Beh::Good, Beh::Silent, Beh::Missing, Beh::Twice, Beh::NextId, Beh::Half, Beh::Error, Beh::TooBig];
	let few = if k == 3 { &few[..6] } else { &few[..] };
	r.tree("histories of reads", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 48, 64);
		for j in 0..k {
			let fl = *cx.pick(if k == 3 { &[0usize, 6][..] } else { &[0, 4, 6, 9] });
			let op = op_of(fl, [&[3u8, 1][..], &[1, 3], &[7, 3, 1]][j % 3], 2);
			let want = wanted(&op);
			let input: Vec<In> = (0..want.len()).flat_map(|p| act(*cx.pick(few), p + want.len() * j, &[want.clone(), want.clone(), want.clone(), want.clone()].concat())).collect();
			drive(&mut c, &port, &op, &input, 48);
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().filter(|o| o.is_multi() && *o != Op::Scan).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], RESULT);
	});
	// Sync reads of more motors than there are IDs.
	let sizes = [254usize, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 32_767, 32_768, 65_528];
	r.sweep("very many motors", sizes.len() as u64 * 6 * 2, |i, cx| {
		let mut ix = Ix(i);
		let n = *ix.of(&sizes);
		let op = op_of(ix.take(6), &(0..n).map(|k| (k * 3 % 253) as u8).collect::<Vec<_>>(), 4);
		let want = wanted(&op);
		let frag = [Frag::All, Frag::Max(17)][ix.take(2)];
		let port = VPort::new(cx).frag(frag).horizon(4_000_000);
		let mut c = client(&port, 48, 66_000);
		let all: Vec<Item> = want.iter().enumerate().map(|(k, w)| item(w.0, k % 3 == 0, &data_of(k, w.0, w.1))).collect();
		port.replies(vec![vec![In::Bytes(all.iter().flat_map(|x| status(x.id, if x.alert { 0x80 } else { 0 }, &x.data)).collect())]]);
		let got = run(&mut c, &op);
		for (k, (a, b)) in got.items.iter().zip(&all).enumerate() {
			vassert!(a.as_ref() == Ok(b), "sync read of {n} motors: result {k} is {a:02X?} instead of {b:02X?}");
		}
		vassert!(got.write.is_ok() && got.items.len() == n, "sync read of {n} motors: {:?}, {} results", got.write, got.items.len());
		vassert!(
			got.remaining.len() > n && got.remaining.iter().enumerate().all(|(k, r)| *r == n.saturating_sub(k)),
			"sync read of {n} motors: remaining() is {:?}...", got.remaining.iter().enumerate().find(|(k, r)| **r != n.saturating_sub(*k))
		);
		if let Some(h) = got.hint {
			vfail!("sync read of {n} motors: {h}");
		}
	});
	r.finish();
}

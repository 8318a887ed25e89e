//! C27: sync and bulk writes carry each motor's own data.
use dynamixel2::instructions::{BulkReadData, BulkWriteData, SyncWriteData};
use mc::*;

fn le(a: u16) -> [u8; 2] {
	[a as u8, (a >> 8) as u8]
}

/// After a call: exactly this broadcast frame went out, or it did not fit and nothing happened.
fn check_tx(cx: &Cx, what: &str, port: &VPort, wbuf: usize, inst: u8, p: &[u8], res: Result<(), Er>) {
	let log = port.take_log();
	let body = stuff(&[&[inst], p].concat());
	let size = body.len() + 9;
	cx.outcome(&res.is_ok());
	if size <= wbuf && size <= 65535 + 7 {
		vassert!(res == Ok(()), "{what}: {res:?} although the frame of {size} bytes fits {wbuf}");
		let w = written(&log);
		let f = frame_raw(BROADCAST, &body);
		vassert!(w == f, "{what}: transmitted {}, expected {}", hex(&w), hex(&f));
		vassert!(log.iter().filter(|e| matches!(e, Ev::Write(..))).count() == 1, "{what}: written in pieces");
		vassert!(log.iter().all(|e| matches!(e, Ev::Write(..) | Ev::Discard(_))), "{what}: {log:?}");
	} else {
		vassert!(matches!(res, Err(Er::TooSmall { required, total }) if required > total), "{what}: {res:?} although the frame of {size} bytes does not fit {wbuf}");
		vassert!(log.is_empty(), "{what}: refused, but caused I/O");
	}
}
fn start(cx: &Cx, wbuf: usize) -> (VPort, C) {
	let port = VPort::new(cx);
	let c = client(&port, 64, wbuf);
	port.take_log();
	(port, c)
}

/// Different ways to hand over the same writes.
fn sync_raw(c: &mut C, how: usize, a: u16, n: u16, w: &[(u8, Vec<u8>)]) -> Result<(), Er> {
	let v: Vec<SyncWriteData<Vec<u8>>> = w.iter().map(|(i, d)| SyncWriteData { motor_id: *i, data: d.clone() }).collect();
	let b: Vec<SyncWriteData<&[u8]>> = w.iter().map(|(i, d)| SyncWriteData { motor_id: *i, data: d.as_slice() }).collect();
	match how {
		0 => c.sync_write_bytes(a, n, &v),
		1 => c.sync_write_bytes(a, n, v),
		2 => c.sync_write_bytes(a, n, b),
		3 => c.sync_write_bytes(a, n, b.iter().rev().rev()),
		4 => c.sync_write_bytes(a, n, v.into_iter().collect::<std::collections::VecDeque<_>>()),
		_ => c.sync_write_bytes(a, n, b.as_slice()),
	}
	.map_err(Er::from)
}
fn bulk(c: &mut C, how: usize, w: &[(u8, u16, Vec<u8>)]) -> Result<(), Er> {
	let v: Vec<BulkWriteData<Vec<u8>>> = w.iter().map(|(i, a, d)| BulkWriteData { motor_id: *i, address: *a, data: d.clone() }).collect();
	let b: Vec<BulkWriteData<&[u8]>> = w.iter().map(|(i, a, d)| BulkWriteData { motor_id: *i, address: *a, data: d.as_slice() }).collect();
	match how {
		0 => c.bulk_write(&v),
		1 => c.bulk_write(&b),
		2 => c.bulk_write(&v.into_iter().collect::<std::collections::VecDeque<_>>()),
		_ => c.bulk_write(&b.into_boxed_slice()),
	}
	.map_err(Er::from)
}
fn sync_params(a: u16, n: u16, w: &[(u8, Vec<u8>)]) -> Vec<u8> {
	let mut p = [le(a), le(n)].concat();
	for (i, d) in w {
		p.push(*i);
		p.extend(d);
	}
	p
}
fn bulk_params(w: &[(u8, u16, Vec<u8>)]) -> Vec<u8> {
	let mut p = vec![];
	for (i, a, d) in w {
		p.push(*i);
		p.extend(le(*a));
		p.extend(le(d.len() as u16));
		p.extend(d);
	}
	p
}
/// A call that must panic before any I/O, and leave the client usable.
fn must_panic(cx: &Cx, what: &str, port: &VPort, c: &mut C, f: impl FnOnce(&mut C) -> Result<(), Er>) {
	port.take_log();
	if let Ok(r) = cx.catch(|| f(c)) {
		vfail!("{what}: returned {r:?} instead of panicking")
	}
	vassert!(port.log().is_empty(), "{what}: panicked, but after {:?}", port.log());
	port.reply_bytes(status(5, 0, &[]));
	let r = run(c, &Op::WriteBytes(5, 7, vec![1, 0xFF, 0xFF, 0xFD, 2]));
	vassert!(r.all_ok(&[item(5, false, &[])]), "{what}: the next command gives {r:?}");
	vassert!(port.written() == frame(5, WRITE, &[7, 0, 1, 0xFF, 0xFF, 0xFD, 2]), "{what}: the next command transmits {}", hex(&port.written()));
	port.0.borrow_mut().on_frame = None;
	port.take_log();
	cx.outcome(&"panic");
}

fn val(m: usize, k: usize, style: usize) -> u8 {
	match style {
		0 => (m * 89 + k * 7 + 3) as u8,
		1 => [0xFF, 0xFF, 0xFD, 0x00, 0xFD][(m + k) % 5],
		_ => 0xFF,
	}
}

fn main() {
	let mut r = Runner::new("C27");
	r.assume("iterators report their true length");
	let (mm, nn) = r.by_tier((40usize, 40usize), (100, 80));
	r.sweep("sync write: number of motors x count", (mm * nn * 3 * 6) as u64 * 3, |i, cx| {
		let mut ix = Ix(i);
		let (m, n, style, how) = (ix.take(mm), ix.take(nn), ix.take(3), ix.take(6));
		let a = [0u16, 0x0102, 0xFDFF][ix.take(3)];
		let w: Vec<(u8, Vec<u8>)> = (0..m).map(|j| ([(j + 1) as u8, (255 - j) as u8, 0xFF][style], (0..n).map(|k| val(j, k, style)).collect())).collect();
		let p = sync_params(a, n as u16, &w);
		let full = stuff(&[&[SYNC_WRITE], &p[..]].concat()).len() + 9;
		for wbuf in [full - 1, full, full + 1, full + 40] {
			let (port, mut c) = start(cx, wbuf.max(10));
			let res = sync_raw(&mut c, how, a, n as u16, &w);
			check_tx(cx, &format!("sync_write_bytes({a:#x}, {n}, {w:02X?})"), &port, wbuf.max(10), SYNC_WRITE, &p, res);
		}
	});
	r.sweep("sync write: every motor ID and data byte", 65536, |i, cx| {
		let (id, b) = (i as u8, (i >> 8) as u8);
		let w = vec![(id, vec![b, id]), (0xFF, vec![0xFF, b]), (id, vec![!b, 0xFF])];
		let (port, mut c) = start(cx, 64);
		let res = sync_raw(&mut c, (i % 6) as usize, 0x1234, 2, &w);
		check_tx(cx, &format!("sync_write_bytes {w:02X?}"), &port, 64, SYNC_WRITE, &sync_params(0x1234, 2, &w), res);
	});
	r.sweep("every address", 65536 * 3, |i, cx| {
		let mut ix = Ix(i);
		let a = ix.take(65536) as u16;
		let (port, mut c) = start(cx, 64);
		match ix.take(3) {
			0 => {
				let w = vec![(1, vec![1, 2]), (2, vec![3, 4])];
				let res = sync_raw(&mut c, 0, a, 2, &w);
				check_tx(cx, &format!("sync_write_bytes({a:#x})"), &port, 64, SYNC_WRITE, &sync_params(a, 2, &w), res);
			},
			1 => {
				let res = c.sync_write(a, &[SyncWriteData { motor_id: 9, data: 0x1234u16 }, SyncWriteData { motor_id: 1, data: 0x5678 }]).map_err(Er::from);
				check_tx(cx, &format!("sync_write({a:#x})"), &port, 64, SYNC_WRITE, &[a as u8, (a >> 8) as u8, 2, 0, 9, 0x34, 0x12, 1, 0x78, 0x56], res);
			},
			_ => {
				let w = vec![(1, a, vec![1, 2]), (2, !a, vec![3])];
				let res = bulk(&mut c, 0, &w);
				check_tx(cx, &format!("bulk_write({a:#x})"), &port, 64, BULK_WRITE, &bulk_params(&w), res);
			},
		}
	});
	// Typed sync writes: every type, number of motors, values.
	r.sweep("typed sync write", 18 * 8 * 6 * 300, |i, cx| {
		let mut ix = Ix(i);
		let ty = Ty::ALL[ix.take(18)];
		let m = ix.take(8);
		let a = [0u16, 0xFFFF, 0x0102, 0xFFFD, 0x00FF, 0x55][ix.take(6)];
		let v = ix.take(300);
		let w: Vec<(u8, Vec<u8>)> = (0..m)
			.map(|j| {
				let d = (0..ty.size()).map(|k| if v < 256 { (v + k * (j + 1)) as u8 } else { val(j, k, v % 3) }).collect();
				((j * 50 + 1) as u8, d)
			})
			.collect();
		let op = Op::SyncWrite(a, ty, w);
		let (_, inst, p) = op.tx();
		let wbuf = [512, 40][v % 2];
		let (port, mut c) = start(cx, wbuf);
		let res = run(&mut c, &op).write;
		check_tx(cx, &format!("{op:02X?}"), &port, wbuf, inst, &p, res);
	});
	// Bulk writes: all combinations of sizes.
	let top = r.by_tier(8u64, 9);
	let sizes = [0usize, 1, 2, 3, 7, 40];
	r.sweep("bulk write: every combination of sizes", (0..=top).map(|m| 6u64.pow(m as u32)).sum::<u64>() * 2, |i, cx| {
		let mut ix = Ix(i);
		let style = ix.take(2);
		let mut m = 0u32;
		while ix.0 >= 6u64.pow(m) {
			ix.0 -= 6u64.pow(m);
			m += 1;
		}
		let w: Vec<(u8, u16, Vec<u8>)> = (0..m as usize)
			.map(|j| {
				let n = *ix.of(&sizes);
				([j as u8, 255 - j as u8][style], [0x0100 * j as u16 + 7, 0xFDFF][style], (0..n).map(|k| val(j, k, style)).collect())
			})
			.collect();
		let p = bulk_params(&w);
		let full = stuff(&[&[BULK_WRITE], &p[..]].concat()).len() + 9;
		for (how, wbuf) in [(0, full), (1, full - 1), (2, full + 1), (3, 400)] {
			let (port, mut c) = start(cx, wbuf.max(10));
			let res = bulk(&mut c, how, &w);
			check_tx(cx, &format!("bulk_write({w:02X?})"), &port, wbuf.max(10), BULK_WRITE, &p, res);
		}
	});
	r.sweep("bulk write: number of motors", 256 * 4, |i, cx| {
		let mut ix = Ix(i);
		let m = ix.take(256) + 1;
		let how = ix.take(4);
		let w: Vec<(u8, u16, Vec<u8>)> = (0..m).map(|j| ((j * 7 + 3) as u8, j as u16 * 3, vec![j as u8; j % 9])).collect();
		let (port, mut c) = start(cx, 4000);
		let res = bulk(&mut c, how, &w);
		check_tx(cx, &format!("bulk_write to {m} motors"), &port, 4000, BULK_WRITE, &bulk_params(&w), res);
	});
	r.sweep("sync write: large numbers of motors", 600 * 2, |i, cx| {
		let mut ix = Ix(i);
		let m = ix.take(600);
		let n = [1u16, 4][ix.take(2)];
		let w: Vec<(u8, Vec<u8>)> = (0..m).map(|j| (j as u8, vec![(j / 3) as u8; n as usize])).collect();
		let (port, mut c) = start(cx, 4000);
		let res = sync_raw(&mut c, 0, 9, n, &w);
		check_tx(cx, &format!("sync_write_bytes to {m} motors"), &port, 4000, SYNC_WRITE, &sync_params(9, n, &w), res);
	});
	// The largest ones.
	r.sweep("large data", 40 * 6, |i, cx| {
		let mut ix = Ix(i);
		let d = ix.take(40);
		let (port, mut c) = start(cx, 70_000);
		match ix.take(6) {
			0 => {
				// One motor: 4 + 1 + n parameters, n + 8 <= 65535.
				let n = (65527 - 20 + d).min(65535);
				let w = vec![(7, vec![3; n])];
				let res = sync_raw(&mut c, 0, 1, n as u16, &w);
				check_tx(cx, &format!("sync_write_bytes of {n}"), &port, 70_000, SYNC_WRITE, &sync_params(1, n as u16, &w), res);
			},
			1 => {
				let n = (65527 - 20 + d).min(65535);
				let w = vec![(7, 3, vec![3; n])];
				let res = bulk(&mut c, 0, &w);
				check_tx(cx, &format!("bulk_write of {n}"), &port, 70_000, BULK_WRITE, &bulk_params(&w), res);
			},
			2 => {
				let n = 32760 - 20 + d;
				let w = vec![(7, vec![3; n]), (8, vec![4; n])];
				let res = sync_raw(&mut c, 1, 1, n as u16, &w);
				check_tx(cx, &format!("sync_write_bytes of 2 x {n}"), &port, 70_000, SYNC_WRITE, &sync_params(1, n as u16, &w), res);
			},
			3 => {
				let n = 32760 - 20 + d;
				let w = vec![(7, 3, vec![3; n]), (8, 4, vec![5; n - 2])];
				let res = bulk(&mut c, 1, &w);
				check_tx(cx, &format!("bulk_write of 2 x {n}"), &port, 70_000, BULK_WRITE, &bulk_params(&w), res);
			},
			4 => {
				// Data longer than 65535 bytes, in any place.
				let n = 65536 + d / 4 * 3001;
				let w: Vec<_> = (0..4).map(|j| (j as u8, j as u16, vec![1; if j == d % 4 { n } else { j }])).collect();
				must_panic(cx, &format!("bulk_write of {n} bytes at {}", d % 4), &port, &mut c, |c| bulk(c, d % 3, &w));
			},
			_ => {
				// ... also where it would fit the buffer, and where a cut-off count would fit a frame.
				let n = 65536 + d;
				let (port, mut c) = start(cx, 300_000);
				must_panic(cx, &format!("bulk_write of {n} bytes"), &port, &mut c, |c| bulk(c, 0, &[(1, 2, vec![1; n])]));
			},
		}
	});
	// Wrong lengths in sync writes.
	let kinds = r.by_tier(12usize, 12);
	r.sweep("sync write: data of the wrong length", (kinds * kinds) as u64 * 8 * 9 * 6, |i, cx| {
		let mut ix = Ix(i);
		let (n, bad) = (ix.take(kinds), ix.take(kinds));
		let m = ix.take(8) + 1;
		let at = ix.take(9);
		let how = ix.take(6);
		if at >= m || n == bad {
			return;
		}
		let w: Vec<(u8, Vec<u8>)> = (0..m).map(|j| (j as u8, vec![j as u8; if j == at { bad } else { n }])).collect();
		let (port, mut c) = start(cx, 256);
		must_panic(cx, &format!("sync_write_bytes(.., {n}, {w:02X?})"), &port, &mut c, |c| sync_raw(c, how, 1, n as u16, &w));
	});
	r.sweep("sync write: lengths that agree with the count only in part", 4 * 65536, |i, cx| {
		// Data lengths that differ from the count by a multiple of 256 (or any other amount).
		let mut ix = Ix(i);
		let n = [0u16, 1, 4, 255][ix.take(4)];
		let len = ix.take(65536);
		if len % 256 != n as usize && len > 300 && len % 251 != 0 || len == n as usize {
			return;
		}
		let (port, mut c) = start(cx, 600);
		must_panic(cx, &format!("sync_write_bytes(.., {n}, one motor with {len} bytes)"), &port, &mut c, |c| sync_raw(c, 0, 1, n, &[(1, vec![0; len])]));
	});
	r.sweep("sync write: data of 65536 + count bytes", 300, |i, cx| {
		let n = i as usize;
		let (port, mut c) = start(cx, 600);
		must_panic(cx, &format!("sync_write_bytes(.., {n}, one motor with 65536 + {n} bytes)"), &port, &mut c, |c| sync_raw(c, 0, 1, n as u16, &[(1, vec![0; 65536 + n])]));
	});
	// Duplicates in bulk operations: every pair of positions.
	let m = r.by_tier(48usize, 64);
	r.sweep("duplicate motor IDs", (m * m * m) as u64 * 3, |i, cx| {
		let mut ix = Ix(i);
		let (n, a, b) = (ix.take(m) + 2, ix.take(m), ix.take(m));
		let kind = ix.take(3);
		if a >= b || b >= n {
			return;
		}
		let mut ids: Vec<u8> = (0..n).map(|j| (j * 5 + 1) as u8).collect();
		ids[b] = ids[a];
		let (port, mut c) = start(cx, 1024);
		duplicate(cx, &port, &mut c, &ids, kind);
	});
	r.sweep("every duplicate motor ID", 256 * 3 * 3, |i, cx| {
		let mut ix = Ix(i);
		let id = ix.take(256) as u8;
		let kind = ix.take(3);
		let ids = [vec![id, id], vec![id, id.wrapping_add(1), id], vec![id.wrapping_add(100), id, id]][ix.take(3)].clone();
		let (port, mut c) = start(cx, 1024);
		duplicate(cx, &port, &mut c, &ids, kind);
	});
	r.sweep("duplicates among 257 motors and more", 40 * 3, |i, cx| {
		let mut ix = Ix(i);
		let n = 257 + ix.take(40);
		let kind = ix.take(3);
		let ids: Vec<u8> = (0..n).map(|j| j as u8).collect();
		let (port, mut c) = start(cx, 4096);
		duplicate(cx, &port, &mut c, &ids, kind);
	});
	// All lists of IDs over a small set: exactly those with a duplicate panic.
	let len = r.by_tier(7u32, 8);
	r.sweep("lists of motor IDs", (0..=len).map(|n| 6u64.pow(n)).sum::<u64>() * 3, |i, cx| {
		let mut ix = Ix(i);
		let kind = ix.take(3);
		let mut n = 0;
		while ix.0 >= 6u64.pow(n) {
			ix.0 -= 6u64.pow(n);
			n += 1;
		}
		let ids: Vec<u8> = (0..n).map(|_| *ix.of(&[0u8, 1, 2, 0x80, 0xFE, 0xFF])).collect();
		let mut u = ids.clone();
		u.sort();
		u.dedup();
		let (port, mut c) = start(cx, 128);
		if u.len() < ids.len() {
			return duplicate(cx, &port, &mut c, &ids, kind);
		}
		let w: Vec<(u8, u16, Vec<u8>)> = ids.iter().map(|j| (*j, *j as u16 * 3, vec![*j; (*j % 3) as usize])).collect();
		if kind == 0 {
			let res = bulk(&mut c, 0, &w);
			check_tx(cx, &format!("bulk_write to {ids:?}"), &port, 128, BULK_WRITE, &bulk_params(&w), res);
		} else {
			let op = bulk_read_of(&ids, kind);
			let res = run(&mut c, &op).write;
			vassert!(res == Ok(()), "{op:?}: {res:?}");
			vassert!(port.written() == op.tx_frame(), "{op:?} transmits {}", hex(&port.written()));
		}
	});
	// Histories: an operation never leaves anything behind for the next.
	let depth = r.by_tier(6usize, 7);
	r.tree("histories", None, |cx| {
		let (port, mut c) = start(cx, 40);
		for _ in 0..depth {
			match cx.choose(10) {
				0 => {
					let w = vec![(1u8, vec![0xFF, 0xFF]), (0xFD, vec![0xFF, 0xFF]), (0xFD, vec![1, 2])];
					let res = sync_raw(&mut c, 0, 3, 2, &w);
					check_tx(cx, "sync", &port, 40, SYNC_WRITE, &sync_params(3, 2, &w), res);
				},
				1 => {
					let w = vec![(9u8, vec![]), (8, vec![])];
					let res = sync_raw(&mut c, 1, 3, 0, &w);
					check_tx(cx, "empty sync", &port, 40, SYNC_WRITE, &sync_params(3, 0, &w), res);
				},
				2 => {
					let res = sync_raw(&mut c, 2, 3, 7, &[]);
					check_tx(cx, "sync to nobody", &port, 40, SYNC_WRITE, &sync_params(3, 7, &[]), res);
				},
				3 => {
					let w = vec![(9u8, vec![1; 30]), (8, vec![2; 30])];
					let res = sync_raw(&mut c, 2, 3, 30, &w);
					check_tx(cx, "long sync", &port, 40, SYNC_WRITE, &sync_params(3, 30, &w), res);
				},
				4 => {
					let w = vec![(9u8, 0xFFFF, vec![0xFD, 1, 2]), (8, 0x55, vec![])];
					let res = bulk(&mut c, 0, &w);
					check_tx(cx, "bulk", &port, 40, BULK_WRITE, &bulk_params(&w), res);
				},
				5 => {
					let w = vec![(9u8, 0xFFFF, vec![0xFD; 50])];
					let res = bulk(&mut c, 0, &w);
					check_tx(cx, "long bulk", &port, 40, BULK_WRITE, &bulk_params(&w), res);
				},
				6 => must_panic(cx, "wrong length", &port, &mut c, |c| sync_raw(c, 0, 1, 2, &[(1, vec![1, 2]), (2, vec![1])])),
				7 => duplicate(cx, &port, &mut c, &[4, 3, 4], 0),
				8 => duplicate(cx, &port, &mut c, &[4, 3, 4], 1),
				_ => {
					let res = c.sync_write(0xFFFF, vec![SyncWriteData { motor_id: 0xFD, data: [-1i16, 5] }]).map_err(Er::from);
					check_tx(cx, "typed", &port, 40, SYNC_WRITE, &[0xFF, 0xFF, 4, 0, 0xFD, 0xFF, 0xFF, 5, 0], res);
				},
			}
		}
	});
	// More writes than a small counter can count.
	r.sweep("long sessions", 6, |i, cx| {
		let (port, mut c) = start(cx, 64);
		for k in 0..MANY / 2 {
			port.fresh();
			let w: Vec<(u8, Vec<u8>)> = (0..k * [1, 3, 5][i as usize % 3] % 6).map(|m| ((m as u8).wrapping_add(k as u8), [0xFF, 0xFF, 0xFD, k as u8][..k % 5].to_vec())).take(if k % 5 == 0 { 3 } else { 6 }).collect();
			if k % 2 == i as usize / 3 {
				let n = (k % 5) as u16;
				let res = sync_raw(&mut c, 2, k as u16, n, &w);
				check_tx(cx, "sync write", &port, 64, SYNC_WRITE, &sync_params(k as u16, n, &w), res);
			} else {
				let w: Vec<(u8, u16, Vec<u8>)> = w.into_iter().map(|x| (x.0, k as u16, x.1)).collect();
				let res = bulk(&mut c, 1, &w);
				check_tx(cx, "bulk write", &port, 64, BULK_WRITE, &bulk_params(&w), res);
			}
		}
	});
	r.finish();
}

fn bulk_read_of(ids: &[u8], kind: usize) -> Op {
	Op::BulkRead(ids.iter().map(|i| (*i, *i as u16 * 9, 1)).collect(), if kind == 1 { Via::Next } else { Via::BorrowCtor })
}
fn duplicate(cx: &Cx, port: &VPort, c: &mut C, ids: &[u8], kind: usize) {
	match kind {
		0 => {
			let w: Vec<(u8, u16, Vec<u8>)> = ids.iter().enumerate().map(|(k, i)| (*i, k as u16, vec![*i; k % 3])).collect();
			must_panic(cx, &format!("bulk_write to {ids:?}"), port, c, |c| bulk(c, ids.len() % 4, &w))
		},
		k => {
			let rd: Vec<BulkReadData> = ids.iter().enumerate().map(|(k, i)| BulkReadData { motor_id: *i, address: k as u16, count: 1 }).collect();
			must_panic(cx, &format!("bulk_read of {ids:?}"), port, c, |c| match k {
				1 => c.bulk_read_bytes::<Vec<u8>>(&rd).map(|_| ()).map_err(Er::from),
				_ => c.bulk_read_bytes_borrow::<mc::MyBytes>(&rd).map(|_| ()).map_err(Er::from),
			})
		},
	}
}

//! C20: a scan reports every reply once and ends when the bus goes quiet.
use mc::*;

/// Scan, and compare with the reference.
fn scan(c: &mut C, port: &VPort, input: &[In], rbuf: usize, iter: bool) -> Vec<Res> {
	port.replies(vec![input.to_vec()]);
	port.take_log();
	let mut items: Vec<Res> = vec![];
	let conv = |r: Result<dynamixel2::Response<dynamixel2::instructions::Ping>, dynamixel2::ReadError<VErr>>| -> Res {
		r.map(|p| Item { id: p.motor_id, alert: p.alert, data: vec![p.data.model as u8, (p.data.model >> 8) as u8, p.data.firmware] }).map_err(Er::from)
	};
	match c.scan() {
		Err(e) => vfail!("scan not transmitted: {e:?}"),
		Ok(s) => {
			let mut s = s;
			loop {
				let n = if iter { Iterator::next(&mut s) } else { s.scan_next() };
				match n {
					None => break,
					Some(x) => items.push(conv(x)),
				}
				if items.len() > 2000 {
					vfail!("the scan does not end; input {input:02X?}");
				}
			}
			// What was on the line when the scan ended by itself.
			let mut p = RefPort::new(rbuf, input);
			let mut k = 0;
			let log = port.log();
			let ctx = || format!("input {input:02X?}: got {items:02X?}");
			loop {
				let g = p.next();
				if g == Got::Io(VErr::Timeout) {
					break;
				}
				let Some(i) = items.get(k) else { vfail!("the scan ended after {k} items, but {g:02X?} follows; {}", ctx()) };
				if let Err(e) = judge_got(None, Some(3), &g, i) {
					vfail!("item {k}: {e}; {}", ctx());
				}
				k += 1;
			}
			vassert!(items.len() == k, "{} items instead of {k}; {}", items.len(), ctx());
			let w: Vec<&Ev> = log.iter().filter(|e| matches!(e, Ev::Write(..))).collect();
			vassert!(
				w.len() == 1 && *w[0] == Ev::Write(frame(BROADCAST, PING, &[]), Ok(())),
				"a scan does not transmit exactly one broadcast ping: {w:02X?}"
			);
			// It ended at the first timeout of the port, not later.
			let timeouts = log.iter().filter(|e| matches!(e, Ev::Read { res: Err(VErr::Timeout), .. })).count();
			vassert!(timeouts == 1, "{timeouts} timeouts of the port before the scan ended; {}", ctx());
			drop(s);
		},
	}
	vassert!(port.written() == frame(BROADCAST, PING, &[]), "dropping a scan transmits something");
	items
}

fn main() {
	let mut r = Runner::new("C20");
	let frags = [Frag::All, Frag::Max(1), Frag::Items, Frag::Max(5)];
	let nb = BEHS.len();
	let k = 4usize;
	r.sweep("sequences of four replies", (nb.pow(4) * k * 2) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b: Vec<Beh> = (0..4).map(|_| *ix.of(&BEHS)).collect();
		let frag = *ix.of(&frags);
		let iter = ix.take(2) == 1;
		let want = [(3, 3), (1, 3), (252, 3), (1, 3)];
		let input: Vec<In> = (0..4).flat_map(|k| act(b[k], k, &want)).collect();
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, 64, 32);
		let items = scan(&mut c, &port, &input, 64, iter);
		cx.outcome(&items.len());
	});
	let n5 = r.by_tier(nb, nb);
	r.sweep("sequences of five replies", n5.pow(5) as u64, |i, cx| {
		let mut ix = Ix(i);
		let sel = [Beh::Good, Beh::Error, Beh::Fault, Beh::BadCrc, Beh::Short, Beh::TooBig, Beh::More, Beh::Instruction, Beh::Noise, Beh::Slow];
		let b: Vec<Beh> = (0..5).map(|_| if n5 == 10 { *ix.of(&sel) } else { *ix.of(&BEHS) }).collect();
		let want = [(3, 3), (1, 3), (252, 3), (1, 3), (0, 3)];
		let input: Vec<In> = (0..5).flat_map(|k| act(b[k], k, &want)).collect();
		let port = VPort::new(cx).frag(frags[i as usize % 4]);
		let mut c = client(&port, 32, 32);
		scan(&mut c, &port, &input, 32, i % 2 == 0);
	});
	r.sweep("every ID with every error byte", 65536, |i, cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 32, 32);
		scan(&mut c, &port, &[In::Bytes(status(i as u8, (i >> 8) as u8, &[1, 2, 3]))], 32, true);
	});
	r.sweep("every model", 65536 * 3, |i, cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 32, 32);
		let fw = [0u8, 0x42, 0xFF][(i >> 16) as usize];
		let a = status(5, 0x80, &[i as u8, (i >> 8) as u8, fw]);
		let b = status(6, 0, &[fw, i as u8, (i >> 8) as u8]);
		scan(&mut c, &port, &[In::Bytes(a), In::Bytes(b)], 32, false);
	});
	r.sweep("every instruction ID and number of parameters", 256 * 24 * 2, |i, cx| {
		let mut ix = Ix(i);
		let inst = ix.take(256) as u8;
		let n = ix.take(24);
		let port = VPort::new(cx).frag(frags[ix.take(2)]);
		let mut c = client(&port, 40, 32);
		scan(&mut c, &port, &[In::Bytes(frame(9, inst, &vec![0; n])), In::Bytes(status(3, 0, &[1, 2, 3]))], 40, false);
	});
	r.sweep("every number of motors", 254 * 8 * 4, |i, cx| {
		let mut ix = Ix(i);
		let n = ix.take(254);
		let rbuf = [14, 15, 16, 28, 31, 64, 128, 1000][ix.take(8)];
		let frag = *ix.of(&frags);
		let input: Vec<In> = (0..n).map(|k| In::Bytes(status((k * 7 % 253) as u8, if k % 3 == 0 { 0x80 } else { 0 }, &[k as u8, !k as u8, 7]))).collect();
		let port = VPort::new(cx).frag(frag);
		let mut c = client(&port, rbuf, 32);
		let got = scan(&mut c, &port, &input, rbuf, true);
		vassert!(got.len() == n && got.iter().all(|x| x.is_ok()), "{n} motors, read buffer {rbuf}: {got:02X?}");
	});
	r.sweep("many items of one kind", (nb * 300) as u64, |i, cx| {
		let mut ix = Ix(i);
		let b = *ix.of(&BEHS);
		let n = ix.take(300);
		let want = [(3, 3), (4, 3)];
		let input: Vec<In> = (0..n).flat_map(|k| act(b, k % 2, &want)).collect();
		let port = VPort::new(cx).frag(frags[i as usize % 4]);
		let mut c = client(&port, 40, 32);
		scan(&mut c, &port, &input, 40, true);
	});
	let cuts = r.by_tier(3usize, 4);
	let few: Vec<Beh> = BEHS.iter().copied().filter(|b| !matches!(b, Beh::TooBig | Beh::Missing | Beh::NextId | Beh::Twice)).collect();
	r.tree("fragmentation", Some(cuts), |cx| {
		let want = [(3, 3), (1, 3), (252, 3)];
		let input: Vec<In> = (0..3).flat_map(|k| act(*cx.pick(&few), k, &want)).collect();
		let port = VPort::new(cx).frag(Frag::Choose);
		let mut c = client(&port, 24, 32);
		scan(&mut c, &port, &input, 24, false);
	});
	// Scans after scans and other commands: nothing is carried over.
	let few = [Beh::Slow, Beh::Half, Beh::Twice, Beh::Good, Beh::Fault, Beh::TooBig];
	let depth = 2;
	let few = &few[..r.by_tier(4usize, 6)];
	r.tree("histories of scans", None, |cx| {
		let port = VPort::new(cx);
		let mut c = client(&port, 32, 32);
		let want = [(3, 3), (1, 3)];
		for _ in 0..depth {
			if cx.flag() {
				let input: Vec<In> = (0..2).flat_map(|k| act(*cx.pick(few), k, &want)).collect();
				port.replies(vec![input]);
				run(&mut c, &cx.pick(&[Op::Ping(3), Op::ReadVec(3, 0, 3), Op::SyncReadBytes(vec![3, 1], 0, 3, Via::Next)]).clone());
			}
			let input: Vec<In> = (0..2).flat_map(|k| act(*cx.pick(few), k, &want)).collect();
			scan(&mut c, &port, &input, 32, cx.flag());
		}
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = vec![Op::Scan, Op::Ping(3), Op::Scan];
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], RESULT);
	});
	r.finish();
}

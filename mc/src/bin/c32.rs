//! C32: the baud rate known to the library always matches the serial port.
use mc::*;

const RATES: [u32; 4] = [9_600, 57_600, 4_000_000, 1];

/// What the library should report, and what the port has.
fn check(cx: &Cx, what: &str, port: &VPort, reported: u32, want: u32) {
	vassert!(reported == want, "{what}: reports {reported}, expected {want}");
	vassert!(port.0.borrow().baud == want, "{what}: the port has {}, expected {want}", port.0.borrow().baud);
	cx.outcome(&want);
}
/// Timeout requested for the reply to a ping (14 bytes).
fn check_timeout(what: &str, port: &VPort, c: &mut C, want: u32) {
	port.take_log();
	port.reply_bytes(status(1, 0, &[1, 2, 3]));
	let r = run(c, &Op::Ping(1));
	vassert!(r.all_ok(&[item(1, false, &[1, 2, 3])]), "{what}: a ping gives {r:?}");
	let log = port.take_log();
	let t: Vec<Duration> = log.iter().filter_map(|e| if let Ev::Deadline(d) = e { Some(d.timeout) } else { None }).collect();
	let ns = reply_timeout_ns(14, want, 1);
	vassert!(t.len() == 1 && t[0].as_nanos() >= ns && t[0].as_nanos() <= ns + 1000, "{what}: timeouts {t:?}, expected {ns} ns for {want} baud");
}
fn no_other_io(what: &str, log: &[Ev], want: &[Ev]) {
	// Asking the port for its rate is harmless at any time.
	let other = |l: &[Ev]| l.iter().filter(|e| !matches!(e, Ev::Baud(_))).cloned().collect::<Vec<_>>();
	vassert!(other(log) == other(want), "{what}: port calls {log:?}, expected {want:?}");
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
	Client,
	Device,
}

fn main() {
	let mut r = Runner::new("C32");
	r.assume("a baud rate of 0 is not considered");
	// Histories of changes, refusals, changes behind the back of nobody, and use.
	let depth = r.by_tier(7usize, 8);
	r.tree("histories of a client", None, |cx| {
		let start = *cx.pick(&RATES[..2]);
		let port = VPort::new(cx).baud(start);
		let mut c = client(&port, 64, 64);
		no_other_io("construction", &port.take_log(), &[Ev::Baud(Ok(start))]);
		let mut want = start;
		check(cx, "construction", &port, c.baud_rate(), want);
		for _ in 0..depth {
			match cx.choose(7) {
				k @ 0..=3 => {
					let b = RATES[k];
					let res = c.set_baud_rate(b);
					vassert!(res == Ok(()), "set_baud_rate({b}): {res:?}");
					no_other_io("set_baud_rate", &port.take_log(), &[Ev::SetBaud(b, Ok(()))]);
					want = b;
				},
				k @ (4 | 5) => {
					let e = [VErr::Fault(7), VErr::Timeout][k - 4];
					port.0.borrow_mut().fail_set_baud = Some(e);
					let b = 115_200;
					let res = c.set_baud_rate(b);
					port.0.borrow_mut().fail_set_baud = None;
					vassert!(res == Err(e), "refused set_baud_rate({b}): {res:?}");
					no_other_io("refused set_baud_rate", &port.take_log(), &[Ev::SetBaud(b, Err(e))]);
				},
				_ => check_timeout("history", &port, &mut c, want),
			}
			check(cx, "history", &port, c.baud_rate(), want);
			no_other_io("asking for the rate", &port.take_log(), &[]);
		}
		check_timeout("end of history", &port, &mut c, want);
		check(cx, "end of history", &port, c.baud_rate(), want);
		let p = c.into_serial_port();
		check(cx, "after into_serial_port", &p, dynamixel2::SerialPort::baud_rate(&p).unwrap(), want);
	});
	r.tree("histories of a device", None, |cx| {
		let start = *cx.pick(&RATES[..2]);
		let port = VPort::new(cx).baud(start);
		let mut d = device(&port, 64, 64);
		no_other_io("construction", &port.take_log(), &[Ev::Baud(Ok(start))]);
		let mut want = start;
		check(cx, "construction", &port, d.baud_rate(), want);
		for _ in 0..depth {
			match cx.choose(7) {
				k @ 0..=3 => {
					let b = RATES[k];
					let res = d.set_baud_rate(b);
					vassert!(res == Ok(()), "set_baud_rate({b}): {res:?}");
					no_other_io("set_baud_rate", &port.take_log(), &[Ev::SetBaud(b, Ok(()))]);
					want = b;
				},
				k @ (4 | 5) => {
					let e = [VErr::Fault(7), VErr::Timeout][k - 4];
					port.0.borrow_mut().fail_set_baud = Some(e);
					let res = d.set_baud_rate(115_200);
					port.0.borrow_mut().fail_set_baud = None;
					vassert!(res == Err(e), "refused set_baud_rate: {res:?}");
					no_other_io("refused set_baud_rate", &port.take_log(), &[Ev::SetBaud(115_200, Err(e))]);
				},
				_ => {
					port.feed(&frame(1, PING, &[]));
					let got = dev_raw(&mut d, Duration::from_millis(1));
					vassert!(got == Ok((1, PING, vec![])), "{got:?}");
					vassert!(d.write_status_ok(1).is_ok(), "reply");
					port.take_log();
				},
			}
			check(cx, "history", &port, d.baud_rate(), want);
			no_other_io("asking for the rate", &port.take_log(), &[]);
		}
		let p = d.into_serial_port();
		check(cx, "after into_serial_port", &p, dynamixel2::SerialPort::baud_rate(&p).unwrap(), want);
	});
	// Every rate.
	let total = r.by_tier(1u64 << 22, 1 << 24);
	r.sweep("every rate", total * 2, |i, cx| {
		let mut ix = Ix(i);
		let who = [Who::Client, Who::Device][ix.take(2)];
		// Low rates, then rates spread over all of u32.
		let b = if ix.0 < total / 2 { ix.0 as u32 + 1 } else { (ix.0 as u32).wrapping_mul(2_654_435_761).max(1) };
		let port = VPort::new(cx).baud(b);
		match who {
			Who::Client => {
				let mut c = client(&port, 64, 64);
				check(cx, "construction", &port, c.baud_rate(), b);
				if i % 16 == 0 {
					check_timeout("construction", &port, &mut c, b);
				}
				let n = !b | 1;
				vassert!(c.set_baud_rate(n).is_ok(), "refused {n}");
				check(cx, "set", &port, c.baud_rate(), n);
				check_timeout("set", &port, &mut c, n);
			},
			Who::Device => {
				let mut d = device(&port, 64, 64);
				check(cx, "construction", &port, d.baud_rate(), b);
				let n = !b | 1;
				vassert!(d.set_baud_rate(n).is_ok(), "refused {n}");
				check(cx, "set", &port, d.baud_rate(), n);
			},
		}
	});
	// A change in the middle of other operations: what was received stays, and every timeout uses the new rate.
	let ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	r.tree("changes and refusals between operations", None, |cx| {
		let port = VPort::new(cx).baud(57_600);
		let mut c = client(&port, 64, 64);
		let mut want = 57_600;
		for _ in 0..3 {
			let op = cx.pick(&ops);
			port.reply_bytes(op.good_replies().concat());
			let r = run(&mut c, op);
			vassert!(r.all_ok(&op.good_items()) || op.is_multi() && r.items.iter().all(|x| x.is_ok()), "{op:?}: {r:?}");
			match cx.choose(3) {
				0 => {
					want = *cx.pick(&[9_600u32, 1_000_000]);
					vassert!(c.set_baud_rate(want).is_ok(), "refused");
				},
				1 => {
					port.0.borrow_mut().fail_set_baud = Some(VErr::Fault(3));
					vassert!(c.set_baud_rate(2).is_err(), "not refused");
					port.0.borrow_mut().fail_set_baud = None;
				},
				_ => {},
			}
			check(cx, "between operations", &port, c.baud_rate(), want);
		}
		check_timeout("at the end", &port, &mut c, want);
	});
	// A set that fails by any call, while reads and writes fail too.
	r.sweep("construction", 2 * 4 * 3, |i, cx| {
		let mut ix = Ix(i);
		let who = [Who::Client, Who::Device][ix.take(2)];
		let fail = [None, Some(VErr::Timeout), Some(VErr::Fault(0)), Some(VErr::Fault(99))][ix.take(4)];
		let form = ix.take(3);
		let port = VPort::new(cx).baud(1234);
		port.0.borrow_mut().fail_baud = fail;
		let built: Result<u32, VErr> = match (who, form) {
			(Who::Client, 0) => dynamixel2::Client::new(port.clone()).map(|c| c.baud_rate()),
			(Who::Client, 1) => dynamixel2::Client::with_buffers(port.clone(), vec![0; 20], vec![0; 20]).map(|c| c.baud_rate()),
			(Who::Client, _) => dynamixel2::Client::with_buffers(port.clone(), [0u8; 32], [0u8; 32]).map(|c| c.baud_rate()),
			(Who::Device, 0) => dynamixel2::Device::new(port.clone()).map(|c| c.baud_rate()),
			(Who::Device, 1) => dynamixel2::Device::with_buffers(port.clone(), vec![0; 20], vec![0; 20]).map(|c| c.baud_rate()),
			(Who::Device, _) => dynamixel2::Device::with_buffers(port.clone(), [0u8; 32], [0u8; 32]).map(|c| c.baud_rate()),
		};
		let want = fail.map_or(Ok(1234), Err);
		vassert!(built == want, "{who:?} form {form} with {fail:?}: {built:?} instead of {want:?}");
		let log = port.take_log();
		vassert!(log.iter().all(|e| matches!(e, Ev::Baud(_))), "construction causes {log:?}");
	});
	// More commands than a small counter can count, by one client.
	let session_ops: Vec<Op> = representative_ops().into_iter().chain(silent_ops()).collect();
	let strides = [1usize, 2, 3, 5, 7, 8];
	r.sweep("long sessions", r.by_tier(12u64, 40), |i, cx| {
		let mut ix = Ix(i);
		let stride = strides[(ix.take(2) + 2 * ix.0 as usize) % 6];
		session(cx, &session_ops, MANY, stride, [7, 100_000][(i % 2) as usize], TIME);
	});
	// More changes of the rate than a small counter can count.
	r.sweep("many changes", 4, |i, cx| {
		let port = VPort::new(cx).baud(RATES[0]);
		let mut c = client(&port, 64, 64);
		let mut d = device(&port, 64, 64);
		let mut want = RATES[0];
		for k in 0..MANY {
			port.fresh();
			let new = RATES[k * [1, 3][i as usize % 2] % 4];
			let fails = k % 5 == 4;
			port.0.borrow_mut().fail_set_baud = fails.then_some(VErr::Fault(3));
			let (res, told) = if i / 2 == 0 { (c.set_baud_rate(new), c.baud_rate()) } else { (d.set_baud_rate(new), d.baud_rate()) };
			if !fails {
				want = new;
			}
			vassert!(res.is_err() == fails && told == want, "change number {k}: {res:?}, the rate is said to be {told} instead of {want}");
			check(cx, "many changes", &port, told, want);
		}
		port.fresh();
		if i / 2 == 0 {
			check_timeout("after many changes", &port, &mut c, want);
		}
	});
	r.finish();
}

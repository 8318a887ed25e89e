//! C37: the log shows every packet sent and received.
use dynamixel2::Device;
use mc::party::*;
use mc::*;

const T: Duration = Duration::from_millis(3);

/// A packet that the log shows, or may show.
#[derive(Clone, Debug)]
struct Shown {
	raw: Vec<u8>,
	must: bool,
}
fn must(raw: Vec<u8>) -> Shown {
	Shown { raw, must: true }
}
fn may(raw: Vec<u8>) -> Shown {
	Shown { raw, must: false }
}

/// The lists of bytes in a message: each as read in hexadecimal and in decimal.
fn lists(s: &str) -> Vec<Vec<Vec<u8>>> {
	let mut all = vec![];
	for part in s.split('[').skip(1) {
		let Some(end) = part.find(']') else { continue };
		let items: Vec<&str> = part[..end].split([',', ' ', '\n', '\t']).filter(|x| !x.is_empty()).collect();
		let read = |radix| items.iter().map(|x| u8::from_str_radix(x.trim_start_matches("0x").trim_start_matches("0X"), radix).ok()).collect::<Option<Vec<u8>>>();
		let r: Vec<Vec<u8>> = [read(16), read(10)].into_iter().flatten().collect();
		if !r.is_empty() && !items.is_empty() {
			all.push(r);
		}
	}
	all
}
fn within(h: &[u8], n: &[u8]) -> Option<usize> {
	h.windows(n.len().max(1)).position(|w| w == n)
}
/// Whether `l` is the packet: at least from the ID to the last parameter, as on the wire or without stuffing.
fn shows(l: &[u8], raw: &[u8]) -> bool {
	let body = unstuff(&raw[7..raw.len() - 2]);
	let n = (body.len() + 2) as u16;
	let sum = &raw[raw.len() - 2..];
	let mut plain = vec![[&raw[..7], &body, sum].concat()];
	plain.push([&raw[..5], &n.to_le_bytes(), &body, sum].concat());
	plain.push(raw.to_vec());
	plain.iter().any(|f| match within(f, l) {
		Some(at) => at <= 4 && at + l.len() >= f.len() - 2,
		None => false,
	})
}

fn judge_log(what: &dyn Fn() -> String, records: &[String], expected: &[Shown], noise: &[Vec<u8>], other: &[&[u8]]) {
	let mut next = 0;
	for rec in records {
		let lower = rec.to_lowercase();
		let skipped = ["garbage", "skip", "noise", "junk", "discard", "drop", "ignor", "remov", "leading", "invalid"].iter().any(|w| lower.contains(w));
		for l in lists(rec) {
			let mut k = next;
			let mut found = None;
			while k < expected.len() && !skipped {
				if l.iter().any(|l| shows(l, &expected[k].raw)) {
					found = Some(k);
					break;
				}
				if expected[k].must {
					break;
				}
				k += 1;
			}
			if let Some(k) = found {
				next = k + 1;
				continue;
			}
			let in_any = |h: &[&[u8]]| h.iter().any(|h| l.iter().any(|l| within(h, l).is_some()));
			if skipped {
				// A damaged frame may be called that as well.
				vassert!(in_any(&expected.iter().filter(|e| !e.must).map(|e| &e.raw[..]).collect::<Vec<_>>()) || in_any(&noise.iter().map(|n| &n[..]).collect::<Vec<_>>()), "{}: the log says {rec:?}, but what was no packet is {}", what(), noise.iter().map(|n| hex(n)).collect::<Vec<_>>().join(" / "));
			} else {
				if let Some(e) = expected.iter().find(|e| l.iter().any(|l| shows(l, &e.raw))) {
					vfail!("{}: the log shows {} once more or too late: {:?}", what(), hex(&e.raw), records.iter().map(|r| r.chars().take(200).collect::<String>()).collect::<Vec<_>>());
				}
				vassert!(in_any(&expected.iter().map(|e| &e.raw[..]).collect::<Vec<_>>()) || in_any(other), "{}: the log says {rec:?}, which was neither sent nor received", what());
			}
		}
	}
	if let Some(e) = expected[next..].iter().find(|e| e.must) {
		vfail!("{}: the log does not show {} (or not in order): {:?}", what(), hex(&e.raw), records.iter().map(|r| r.chars().take(200).collect::<String>()).collect::<Vec<_>>());
	}
}

fn plain(device: bool) -> Task {
	Task { device, baud: 57_600, rbuf: 256, wbuf: 256, acts: vec![] }
}
/// What is sent and received when `op` is executed with this answer.
fn of_op(op: &Op, answer: u8, ran: &Ran) -> Vec<Shown> {
	let good = op.good_replies();
	let mut v = vec![must(op.tx_frame())];
	match answer {
		0 | 3 => {
			vassert!(ran.all_ok(&op.good_items()), "{op:02X?} returned {ran:02X?}");
			v.extend(good.into_iter().map(must));
		},
		1 => {
			let ok = |k: usize| ran.items.get(k).is_some_and(|i| i.is_ok());
			v.extend(good.into_iter().enumerate().map(|(k, f)| match k {
				0 => may(bad_crc(f)),
				k if ok(k) => must(f),
				_ => may(f),
			}));
		},
		_ => (),
	}
	v
}
fn execute(l: &mut Live, op: &Op, answer: u8) {
	l.lines.clear();
	let a = Act::Op(op.clone(), answer);
	let (_, records) = logged(|| l.act_uncaught(&a));
	let Some(Line::Ran(ran)) = l.lines.pop() else { engine_error("no result".into()) };
	judge_log(&|| format!("{op:02X?} with answer {answer}"), &records, &of_op(op, answer, &ran), &[], &[]);
}

fn main() {
	let mut r = Runner::new("C37");
	r.assume("a packet is shown by a list of bytes in a message, in hexadecimal or decimal, with or without stuffing, at least from the ID to the last parameter");
	let mut ops = representative_ops();
	ops.extend(silent_ops());
	ops.extend(vec![
		Op::WriteBytes(5, 0x7777, vec![0xFF, 0xFF, 0xFD, 9, 0xFF, 0xFF, 0xFD]),
		Op::Write(9, 0x0001, Ty::AP3, (1..16).collect()),
		Op::Read(9, 0x0003, Ty::B12),
		Op::SyncRead(vec![7, 8], 0x20, Ty::P5, Via::Iter),
		Op::Scan,
	]);
	let multi: Vec<Op> = ops.iter().filter(|o| o.is_multi() && !matches!(o.replies(), Replies::None)).cloned().collect();
	let answers = |op: &Op| if matches!(op.replies(), Replies::None) { 1 } else { 4 };
	let bound = r.by_tier(2, 3);
	let history = r.by_tier(2, 3);
	r.tree("histories of operations with every answer", None, |cx| {
		let mut l = Live::new(cx, &plain(false));
		for _ in 0..history {
			let op = cx.pick(&ops);
			execute(&mut l, op, cx.choose(answers(op)) as u8);
		}
	});
	r.tree("every operation under bounded fragmentation", Some(bound), |cx| {
		let op = cx.pick(&ops);
		let port = VPort::new(cx).frag(Frag::Choose);
		let mut c = client(&port, 256, 256);
		port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
		let (ran, records) = logged(|| run(&mut c, op));
		judge_log(&|| format!("{op:02X?}"), &records, &of_op(op, 0, &ran), &[], &[]);
	});
	r.tree("reads that are dropped", None, |cx| {
		let op = cx.pick(&multi);
		let take = cx.choose(4);
		let port = VPort::new(cx).frag(*cx.pick(&[Frag::All, Frag::Items, Frag::Max(1)]));
		let mut c = client(&port, 256, 256);
		port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
		let (ran, records) = logged(|| run_take(&mut c, op, take));
		let mut e = vec![must(op.tx_frame())];
		e.extend(op.good_replies().into_iter().enumerate().map(|(k, raw)| Shown { raw, must: k < ran.items.len() }));
		judge_log(&|| format!("{op:02X?}, {take} results"), &records, &e, &[], &[]);
		// What comes next is shown as ever.
		let op = cx.pick(&ops);
		port.fresh();
		port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
		let (ran, records) = logged(|| run(&mut c, op));
		judge_log(&|| format!("{op:02X?} after a dropped read"), &records, &of_op(op, 0, &ran), &[], &[]);
	});
	r.tree("every operation that fails in the middle", None, |cx| {
		// A motor that reports an error is a reply as well.
		let op = cx.pick(&ops);
		let error = *cx.pick(&[1u8, 0x80, 0x87, 0x7F]);
		let at = cx.choose(op.good_replies().len().max(1));
		let port = VPort::new(cx);
		let mut c = client(&port, 256, 256);
		let replies: Vec<Vec<u8>> = op.good_replies().into_iter().enumerate().map(|(k, f)| {
			let (id, _, p) = parse_exact(&f).unwrap_or_else(|e| engine_error(e));
			if k == at { status(id, error, &p[1..]) } else { f }
		}).collect();
		port.replies(vec![replies.iter().cloned().map(In::Bytes).collect()]);
		let (ran, records) = logged(|| run(&mut c, op));
		let mut e = vec![must(op.tx_frame())];
		e.extend(replies.into_iter().enumerate().map(|(k, raw)| Shown { raw, must: k < ran.items.len() }));
		judge_log(&|| format!("{op:02X?} with error {error:02X} in reply {at}"), &records, &e, &[], &[]);
	});
	r.tree("every operation at a port that fails to transmit", None, |cx| {
		let op = cx.pick(&ops);
		let port = VPort::new(cx);
		let mut c = client(&port, 256, 256);
		port.0.borrow_mut().fail_write = Some(VErr::Fault(1));
		let (_, records) = logged(|| run(&mut c, op));
		judge_log(&|| format!("{op:02X?}"), &records, &[may(op.tx_frame())], &[], &[]);
		port.0.borrow_mut().fail_write = None;
		port.replies(vec![op.good_replies().into_iter().map(In::Bytes).collect()]);
		let (ran, records) = logged(|| run(&mut c, op));
		judge_log(&|| format!("{op:02X?} after a failure"), &records, &of_op(op, 0, &ran), &[], &[]);
	});
	r.sweep("every ID with every error byte", 253 * 256, |i, cx| {
		let mut i = Ix(i);
		let (id, error) = (i.take(253) as u8, i.take(256) as u8);
		let port = VPort::new(cx);
		let mut c = client(&port, 64, 64);
		port.replies(vec![vec![In::Bytes(status(id, error, &[1, 2, 3]))]]);
		let op = Op::Ping(id);
		let (_, records) = logged(|| run(&mut c, &op));
		judge_log(&|| format!("{op:02X?} answered with error {error:02X}"), &records, &[must(op.tx_frame()), must(status(id, error, &[1, 2, 3]))], &[], &[]);
	});
	// Sizes and contents.
	let longest = r.by_tier(4000u64, 66_000);
	r.sweep("every length", longest, |i, cx| {
		let n = i as usize;
		let port = VPort::new(cx);
		let big = 66_000;
		let mut c = client(&port, big, big);
		let data: Vec<u8> = (0..n).map(|k| (k * 7 + n) as u8).collect();
		if n <= 60_000 {
			let w = Op::WriteBytes(3, 9, data.clone());
			port.replies(vec![vec![In::Bytes(status(3, 0, &[]))]]);
			let (ran, records) = logged(|| run(&mut c, &w));
			vassert!(ran.all_ok(&w.good_items()), "writing {n} bytes: {ran:02X?}");
			judge_log(&|| format!("writing {n} bytes"), &records, &[must(w.tx_frame()), must(status(3, 0, &[]))], &[], &[]);
		}
		let n = n.min(60_000);
		let f = status(3, 0, &data[..n]);
		port.feed(&f);
		let (got, records) = logged(|| cl_status(&mut c, T));
		vassert!(got.is_ok(), "reading {n} bytes: {got:02X?}");
		judge_log(&|| format!("reading {n} bytes"), &records, &[must(f)], &[], &[]);
	});
	let len = r.by_tier(7u32, 8);
	r.sweep("contents over the critical alphabet", (0..=len).map(|n| 4u64.pow(n)).sum(), |i, cx| {
		let (mut i, mut n) = (i, 0);
		while i >= 4u64.pow(n) {
			i -= 4u64.pow(n);
			n += 1;
		}
		let data: Vec<u8> = (0..n).map(|k| [0xFF, 0xFD, 0x00, 0x01][(i / 4u64.pow(k) % 4) as usize]).collect();
		let port = VPort::new(cx);
		let (mut c, mut d) = (client(&port, 64, 64), device(&port, 64, 64));
		let w = Op::RegWrite(2, 5, Ty::B12, [&data[..], &[7; 12]].concat()[..12].to_vec());
		let inst = w.tx_frame();
		let f = status(2, 0, &data);
		port.replies(vec![vec![In::Bytes(f.clone())]]);
		let (_, records) = logged(|| run(&mut c, &w));
		judge_log(&|| format!("writing and receiving {}", hex(&data)), &records, &[must(inst.clone()), must(f.clone())], &[], &[]);
		port.fresh();
		port.feed(&inst);
		let (r, records) = logged(|| {
			let r = dev_raw(&mut d, T);
			let s = d.write_status(2, 0, data.len(), |b| {
				b.copy_from_slice(&data);
				Ok(())
			});
			(r.is_ok(), s.is_ok())
		});
		vassert!(r == (true, true), "a device with {}: {r:?}", hex(&data));
		judge_log(&|| format!("a device with {}", hex(&data)), &records, &[must(inst.clone()), must(f.clone())], &[], &[]);
	});
	// Everything a reader meets, and what is skipped is shown as it was.
	let pieces: Vec<Vec<u8>> = vec![
		status(3, 0, &[1, 2]),
		status(4, 0x80, &[0xFF, 0xFF, 0xFD, 7]),
		frame(3, PING, &[]),
		frame(4, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD]),
		bad_crc(status(5, 0, &[9])),
		vec![0x33, 0xFF, 0xFF],
		vec![0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4A, 0x4B, 0x4C, 0x4D, 0x4E, 0x4F, 0x50],
		HEADER.to_vec(),
		frame_with_len(1, 900, &[1, 2, 3])[..9].to_vec(),
		short_frame(8, 2),
	];
	let parts = r.by_tier(5, 6);
	r.tree("streams", None, |cx| {
		let dev = cx.flag();
		let s: Vec<u8> = (0..parts).flat_map(|_| cx.pick(&pieces).clone()).collect();
		let port = VPort::new(cx).frag(*cx.pick(&[Frag::All, Frag::Max(1), Frag::Max(11)]));
		port.feed(&s);
		let (mut c, mut d) = (client(&port, 64, 64), device(&port, 64, 64));
		let mut rx = RefRx::over(64, &s);
		let (mut expected, mut noise, mut gap) = (vec![], vec![], 0);
		let (_, records) = logged(|| loop {
			let want = rx.next();
			// What the frame is, without what was skipped in front of it.
			let size = match &want {
				Rx::Nothing => 0,
				Rx::TooBig { .. } => 7,
				_ => {
					let mut n = 0;
					for at in (gap..rx.pos).rev() {
						if s[at..].starts_with(&HEADER) && s.len() >= at + 7 && at + 7 + (s[at + 5] as usize | (s[at + 6] as usize) << 8) == rx.pos {
							n = rx.pos - at;
						}
					}
					n
				},
			};
			noise.push(s[gap..rx.pos - if want == Rx::Nothing { 0 } else { size }].to_vec());
			let f = s[rx.pos - size..rx.pos].to_vec();
			gap = rx.pos;
			match &want {
				Rx::Packet { inst, .. } => expected.push(Shown { raw: f, must: !dev || *inst != STATUS }),
				Rx::TooBig { .. } | Rx::Nothing => (),
				_ if f.len() >= 10 => expected.push(may(f)),
				_ => (),
			}
			// A device passes over status packets.
			if dev && matches!(&want, Rx::Packet { inst, .. } if *inst == STATUS) {
				continue;
			}
			let got = if dev { dev_raw(&mut d, T) } else { cl_status(&mut c, T) };
			let r = if dev { judge_instruction(&want, &got) } else { judge_status(&want, &got) };
			if let Err(e) = r {
				vfail!("reading {}: {e}", hex(&s));
			}
			if want == Rx::Nothing {
				break;
			}
		});
		// Whatever is no frame at the end was skipped or is still there.
		noise.push(s[gap.min(s.len())..].to_vec());
		judge_log(&|| format!("reading {}", hex(&s)), &records, &expected, &noise, &[&s]);
		cx.outcome(&records.len());
	});
	// Devices.
	r.tree("a device that answers", None, |cx| {
		let mut l = Live::new(cx, &plain(true));
		let packets = [frame(3, PING, &[]), frame(4, WRITE, &[1, 2, 0xFF, 0xFF, 0xFD]), frame(0xFE, READ, &[7, 8, 9, 1]), frame(9, 0x77, &[0xFF; 9])];
		let mut e = vec![];
		let mut records = vec![];
		for _ in 0..3 {
			let p = cx.pick(&packets);
			let (id, inst, params) = parse_exact(p).unwrap_or_else(|e| engine_error(e));
			e.extend([must(p.clone()), must(status(id, inst, &params))]);
			records.extend(logged(|| l.act_uncaught(&Act::Serve(vec![p.clone()]))).1);
		}
		judge_log(&|| "a device that answers".into(), &records, &e, &[], &[]);
	});
	r.tree("helpers of a device", None, |cx| {
		let port = VPort::new(cx);
		let mut d: Device<VPort, Vec<u8>> = Device::with_buffers(port.clone(), vec![0; 64], vec![0; 64]).unwrap_or_else(|e| fail(format!("{e:?}")));
		let (id, e) = (*cx.pick(&[0u8, 3, 0xFD]), cx.choose(256) as u8);
		port.fresh();
		let (r, records) = logged(|| match cx.choose(3) {
			0 => d.write_status_ok(id),
			1 => d.write_status_error(id, e),
			_ => d.write_status(id, e, 2, |b| {
				b.copy_from_slice(&[e, 0xFD]);
				Ok(())
			}),
		});
		vassert!(r.is_ok(), "a status fails: {r:?}");
		judge_log(&|| format!("a status with error {e:02X}"), &records, &[must(port.written())], &[], &[]);
	});
	// Many in a row.
	let many = r.by_tier(70_000usize, 140_000);
	r.sweep("long sessions", 6, |i, cx| {
		let port = VPort::new(cx).horizon(u32::MAX);
		let mut l = Live { party: Party::Client(dynamixel2::Client::with_buffers(port.clone(), TellingBuffer(vec![0; 256]), TellingBuffer(vec![0; 256])).unwrap_or_else(|e| fail(format!("{e:?}")))), port, lines: vec![] };
		for k in 0..many {
			let op = &ops[(k * (2 * i as usize + 1) + k / 7) % ops.len()];
			execute(&mut l, op, ((k / 3) % answers(op)) as u8);
			l.port.fresh();
		}
	});
	r.finish();
}

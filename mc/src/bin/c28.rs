//! C28: client and devices agree on the registers over whole histories.
use mc::*;
use std::cell::RefCell;
use std::rc::Rc;

const IDS: [u8; 3] = [1, 2, 0xFC];
const N: usize = 8;
/// Writing to this register adds to it, so that executing a command twice shows.
const SUM: usize = 6;
const RANGE: u8 = 0x04;

/// The contents of a motor.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Mem {
	regs: [u8; N],
	registered: Option<(u16, Vec<u8>)>,
	reboots: u8,
	clears: u8,
}
impl Mem {
	fn alert(&self) -> u8 {
		(self.regs[7] & 1) << 7
	}
	fn write(&mut self, a: u16, v: &[u8]) -> u8 {
		if a as usize + v.len() > N {
			return RANGE;
		}
		for (k, b) in v.iter().enumerate() {
			let at = a as usize + k;
			self.regs[at] = if at == SUM { self.regs[at].wrapping_add(*b) } else { *b };
		}
		0
	}
	fn read(&self, a: u16, n: u16) -> Option<Vec<u8>> {
		self.regs.get(a as usize..a as usize + n as usize).map(|x| x.to_vec())
	}
	fn act(&mut self) -> u8 {
		match self.registered.take() {
			Some((a, v)) => self.write(a, &v),
			None => 0,
		}
	}
}

/// A motor: a device of this library, and what it does with the instructions it reads.
struct Motor {
	id: u8,
	d: D,
	port: VPort,
	mem: Mem,
}
impl Motor {
	/// Handle everything that was received; returns the position in a queue of replies, and the reply.
	fn serve(&mut self) -> Option<(usize, u8, Vec<u8>)> {
		let mut reply = None;
		loop {
			match self.d.read_owned(Duration::from_millis(1)) {
				Ok(i) => {
					let ins = Ins::from_real(&i.instruction);
					reply = self.exec(i.id, ins);
				},
				Err(e) => {
					if matches!(Er::from(e), Er::Io(_)) {
						return reply;
					}
				},
			}
		}
	}
	fn exec(&mut self, to: u8, i: Ins) -> Option<(usize, u8, Vec<u8>)> {
		let me = self.id;
		let all = to == BROADCAST;
		if to != me && !all {
			return None;
		}
		let m = &mut self.mem;
		let (mut err, mut data, mut pos) = (0, vec![], 0);
		let mut answers = !all;
		match i {
			Ins::Ping => {
				data = vec![me, 4, 42];
				answers = true;
				pos = me as usize;
			},
			Ins::Read(a, n) => match m.read(a, n) {
				Some(d) => data = d,
				None => err = RANGE,
			},
			Ins::Write(a, v) => err = m.write(a, &v),
			Ins::RegWrite(a, v) => m.registered = Some((a, v)),
			Ins::Action => err = m.act(),
			Ins::Reset(_) => *m = Mem { reboots: m.reboots, clears: m.clears, ..Mem::default() },
			Ins::Reboot => {
				m.reboots = m.reboots.wrapping_add(1);
				m.registered = None;
			},
			Ins::Clear(k) => m.clears = m.clears.wrapping_add(k as u8),
			Ins::SyncRead(a, n, ids) => {
				pos = ids.iter().position(|x| *x == me)?;
				answers = true;
				match m.read(a, n) {
					Some(d) => data = d,
					None => err = RANGE,
				}
			},
			Ins::BulkRead(p) => {
				let le = |c: &[u8]| u16::from_le_bytes([c[0], c[1]]);
				pos = p.chunks(5).position(|c| c[0] == me)?;
				answers = true;
				let c = &p[5 * pos..5 * pos + 5];
				match m.read(le(&c[1..]), le(&c[3..])) {
					Some(d) => data = d,
					None => err = RANGE,
				}
			},
			Ins::SyncWrite(a, n, p) => {
				if let Some(c) = p.chunks(n as usize + 1).find(|c| c[0] == me) {
					m.write(a, &c[1..]);
				}
			},
			Ins::BulkWrite(p) => {
				let mut k = 0;
				while k < p.len() {
					let (a, n) = (u16::from_le_bytes([p[k + 1], p[k + 2]]), u16::from_le_bytes([p[k + 3], p[k + 4]]));
					if p[k] == me {
						m.write(a, &p[k + 5..k + 5 + n as usize]);
					}
					k += 5 + n as usize;
				}
			},
			Ins::Unknown(..) => err = 2,
		}
		answers.then_some((pos, err, data))
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Fault {
	None,
	Lost,
	/// Arrives before the next command.
	Late,
	Corrupt,
	/// The first half arrives, the second half before the next command.
	Torn,
	/// The first half arrives, the rest is lost.
	Cut,
}
const FAULTS: [Fault; 6] = [Fault::None, Fault::Lost, Fault::Late, Fault::Corrupt, Fault::Torn, Fault::Cut];

struct Bus {
	cx: Cx,
	motors: Vec<Motor>,
	/// What arrives at the client before the next command.
	late: Vec<u8>,
	/// The faults of this command, by motor ID.
	faults: Vec<(u8, Fault)>,
	frames: usize,
}
impl Bus {
	/// An instruction of the client on the bus.
	fn instruction(&mut self, f: &[u8], to_client: &mut std::collections::VecDeque<In>) {
		self.frames += 1;
		let mut replies = vec![];
		for k in 0..self.motors.len() {
			self.motors[k].port.feed(f);
			if let Some((pos, err, data)) = self.motors[k].serve() {
				replies.push((pos, k, err, data));
			}
		}
		replies.sort();
		for (_, k, err, data) in replies {
			let m = &mut self.motors[k];
			let err = err | m.mem.alert();
			m.port.take_log();
			let res = if data.is_empty() && err == 0 {
				m.d.write_status_ok(m.id)
			} else if data.is_empty() {
				m.d.write_status_error(m.id, err)
			} else {
				m.d.write_status(m.id, err, data.len(), |b| {
					b.copy_from_slice(&data);
					Ok(())
				})
			};
			if let Err(e) = res {
				vfail!("a device cannot reply: {:?}", Er::from(e));
			}
			let w = m.port.written();
			let id = m.id;
			for (j, o) in self.motors.iter_mut().enumerate() {
				if j != k {
					o.port.feed(&w);
				}
			}
			let fault = FAULTS[self.cx.deviate(FAULTS.len())];
			self.cx.log(|| format!("motor {id} replies {} ({fault:?})", hex(&w)));
			let half = w.len() / 2;
			match fault {
				Fault::None => to_client.push_back(In::Bytes(w)),
				Fault::Lost => {},
				Fault::Late => self.late.extend(w),
				Fault::Corrupt => {
					let mut w = w;
					let at = w.len() - 3;
					w[at] ^= 0x10;
					to_client.push_back(In::Bytes(w))
				},
				Fault::Torn => {
					to_client.push_back(In::Bytes(w[..half].to_vec()));
					self.late.extend(&w[half..]);
				},
				Fault::Cut => to_client.push_back(In::Bytes(w[..half].to_vec())),
			}
			if fault != Fault::None {
				self.faults.push((id, fault));
			}
		}
	}
}

/// The reference: apply an operation directly to the contents. Per awaited reply: what it should be (`None`: nobody answers).
fn apply(op: &Op, mem: &mut [Mem; 3]) -> Vec<Option<(u8, u8, Vec<u8>)>> {
	let who = |id: u8| IDS.iter().position(|x| *x == id);
	// Do something to the addressed motors; returns the reply of a single one.
	fn each(mem: &mut [Mem; 3], id: u8, f: &dyn Fn(&mut Mem) -> u8) -> Vec<Option<(u8, u8, Vec<u8>)>> {
		if id == BROADCAST {
			for m in mem.iter_mut() {
				f(m);
			}
			return vec![];
		}
		vec![IDS.iter().position(|x| *x == id).map(|k| {
			let e = f(&mut mem[k]);
			(id, e | mem[k].alert(), vec![])
		})]
	}
	let read = |mem: &[Mem; 3], id: u8, a: u16, n: u16| {
		who(id).map(|k| match mem[k].read(a, n) {
			Some(d) => (id, mem[k].alert(), d),
			None => (id, RANGE | mem[k].alert(), vec![]),
		})
	};
	match op {
		Op::Ping(id) => vec![who(*id).map(|k| (*id, mem[k].alert(), vec![*id, 4, 42]))],
		Op::Scan => (0..3).map(|k| Some((IDS[k], mem[k].alert(), vec![IDS[k], 4, 42]))).collect(),
		Op::Read(id, a, t) => vec![read(mem, *id, *a, t.size() as u16)],
		Op::ReadVec(id, a, n) | Op::ReadSlice(id, a, n) => vec![read(mem, *id, *a, *n)],
		Op::Write(id, a, _, v) | Op::WriteBytes(id, a, v) => each(mem, *id, &|m| m.write(*a, v)),
		Op::RegWrite(id, a, _, v) | Op::RegWriteBytes(id, a, v) => each(mem, *id, &|m| {
			m.registered = Some((*a, v.clone()));
			0
		}),
		Op::Action(id) => each(mem, *id, &|m| m.act()),
		Op::BcAction => each(mem, BROADCAST, &|m| m.act()),
		Op::FactoryReset(id, _) => each(mem, *id, &|m| {
			*m = Mem { reboots: m.reboots, clears: m.clears, ..Mem::default() };
			0
		}),
		Op::Reboot(id) => each(mem, *id, &|m| {
			m.reboots = m.reboots.wrapping_add(1);
			m.registered = None;
			0
		}),
		Op::ClearRev(id) => each(mem, *id, &|m| {
			m.clears = m.clears.wrapping_add(1);
			0
		}),
		Op::ClearErr(id) => each(mem, *id, &|m| {
			m.clears = m.clears.wrapping_add(2);
			0
		}),
		Op::SyncRead(ids, a, t, _) => ids.iter().map(|i| read(mem, *i, *a, t.size() as u16)).collect(),
		Op::SyncReadBytes(ids, a, n, _) => ids.iter().map(|i| read(mem, *i, *a, *n)).collect(),
		Op::BulkRead(r, _) => r.iter().map(|(i, a, n)| read(mem, *i, *a, *n)).collect(),
		Op::SyncWrite(a, _, w) | Op::SyncWriteBytes(a, _, w) => {
			for (i, v) in w {
				who(*i).map(|k| mem[k].write(*a, v));
			}
			vec![]
		},
		Op::BulkWrite(w) => {
			for (i, a, v) in w {
				who(*i).map(|k| mem[k].write(*a, v));
			}
			vec![]
		},
		_ => engine_error(format!("no reference for {op:?}")),
	}
}

fn all_ops() -> Vec<Op> {
	vec![
		Op::Write(1, 0, Ty::U16, vec![0xFF, 0xFF]),
		Op::WriteBytes(1, 2, vec![0xFD, 0x00]),
		Op::Write(2, SUM as u16, Ty::U8, vec![3]),
		Op::WriteBytes(BROADCAST, SUM as u16, vec![1]),
		Op::WriteBytes(0xFC, 7, vec![0x01]),
		Op::WriteBytes(2, 6, vec![1, 2, 3]),
		Op::WriteBytes(9, 0, vec![1]),
		Op::RegWrite(1, 4, Ty::U32, vec![0xFF, 0xFF, 0x0D, 0x01]),
		Op::RegWriteBytes(BROADCAST, 5, vec![7, 7]),
		Op::Action(1),
		Op::BcAction,
		Op::Read(1, 0, Ty::U32),
		Op::ReadVec(2, 0, 8),
		Op::ReadSlice(0xFC, 4, 4),
		Op::ReadVec(1, 7, 2),
		Op::Read(9, 0, Ty::U8),
		Op::Ping(2),
		Op::Scan,
		Op::SyncRead(vec![2, 1], 0, Ty::U32, Via::Next),
		Op::SyncReadBytes(vec![1, 0xFC, 2], 3, 5, Via::Iter),
		Op::SyncReadBytes(vec![1, 9, 2], 6, 1, Via::Next),
		Op::BulkRead(vec![(0xFC, 6, 2), (1, 0, 4), (2, 6, 3)], Via::Next),
		Op::SyncWrite(SUM as u16, Ty::U16, vec![(2, vec![5, 0]), (0xFC, vec![6, 1])]),
		Op::SyncWriteBytes(0, 3, vec![(1, vec![0xFF, 0xFF, 0xFD]), (9, vec![0; 3]), (2, vec![0xFD, 0xFD, 0xFF])]),
		Op::BulkWrite(vec![(1, 6, vec![1]), (0xFC, 0, vec![0xFF, 0xFF, 0xFD, 0xFD, 0xFF, 0xFF, 0xFD, 0x00])]),
		Op::FactoryReset(1, 1),
		Op::Reboot(2),
		Op::Reboot(BROADCAST),
		Op::ClearRev(0xFC),
		Op::ClearErr(1),
	]
}

struct World {
	cx: Cx,
	bus: Rc<RefCell<Bus>>,
	port: VPort,
	c: C,
	mem: [Mem; 3],
}
impl World {
	fn new(cx: &Cx, frag: Frag, dfrag: Frag, rbuf: usize) -> World {
		let motors = IDS
			.iter()
			.map(|id| {
				let port = VPort::new(cx).frag(dfrag);
				let d = device(&port, 64, 32);
				Motor { id: *id, d, port, mem: Mem::default() }
			})
			.collect();
		let bus = Rc::new(RefCell::new(Bus { cx: cx.clone(), motors, late: vec![], faults: vec![], frames: 0 }));
		let port = VPort::new(cx).frag(frag);
		let b = bus.clone();
		port.on_frame(move |f, q| b.borrow_mut().instruction(f, q));
		let c = client(&port, rbuf, 64);
		World { cx: cx.clone(), bus, port, c, mem: Default::default() }
	}
	fn fresh(&mut self) {
		self.port.fresh();
		for m in &self.bus.borrow().motors {
			m.port.fresh();
		}
	}
	fn op(&mut self, op: &Op, take: Option<usize>) {
		{
			let mut b = self.bus.borrow_mut();
			b.faults.clear();
			b.frames = 0;
			let late = std::mem::take(&mut b.late);
			drop(b);
			self.port.feed(&late);
		}
		self.cx.log(|| format!("{op:?} {take:?}"));
		let want = apply(op, &mut self.mem);
		let ran = match take {
			Some(n) => run_take(&mut self.c, op, n),
			None => run(&mut self.c, op),
		};
		self.cx.log(|| format!("-> {ran:02X?}"));
		let b = self.bus.borrow();
		vassert!(b.frames == 1, "{op:?}: {} instructions on the bus", b.frames);
		vassert!(ran.write == Ok(()), "{op:?}: {:?}", ran.write);
		let faults = b.faults.clone();
		let ctx = || format!("{op:02X?} with {faults:?}");
		let as_res = |w: &Option<(u8, u8, Vec<u8>)>| -> Res {
			match w {
				None => Err(Er::Io(VErr::Timeout)),
				Some((_, e, _)) if e & 0x7F != 0 => Err(Er::Motor(*e)),
				Some((id, e, d)) => Ok(item(*id, *e != 0, d)),
			}
		};
		let single = !op.is_multi();
		let silent = want.is_empty() && single;
		let n = match take {
			Some(k) if !single => want.len().min(k),
			_ => want.len(),
		};
		// Once something went wrong, the replies of a multi-reply read are no longer one per motor.
		let mut clean = faults.is_empty() && want.iter().all(|w| w.is_some());
		if single {
			clean = faults.is_empty();
		}
		if silent {
			if matches!(op, Op::SyncWrite(..) | Op::SyncWriteBytes(..) | Op::BulkWrite(..)) {
				vassert!(ran.items.is_empty(), "{}: {ran:?}", ctx());
			} else {
				vassert!(ran.one() == Ok(item(BROADCAST, false, &[])), "{}: {ran:?}", ctx());
			}
		} else if clean {
			let w: Vec<Res> = want.iter().take(n).map(as_res).collect();
			vassert!(ran.items == w, "{}: {:02X?}, but the registers say {w:02X?}", ctx(), ran.items);
		} else {
			vassert!(
				matches!(op, Op::Scan) || ran.items.len() == n,
				"{}: {} results for {n} replies", ctx(), ran.items.len()
			);
			for (k, it) in ran.items.iter().enumerate() {
				match it {
					Ok(i) => {
						let w = if matches!(op, Op::Scan) { want.iter().find(|w| w.as_ref().is_some_and(|w| w.0 == i.id)).unwrap_or(&None) } else { &want[k] };
						vassert!(as_res(w) == Ok(i.clone()), "{}: result {k} is {i:02X?}, but the registers say {w:02X?}", ctx());
						vassert!(!faults.iter().any(|f| f.0 == i.id), "{}: result {k} is {i:02X?}, although that reply did not arrive", ctx());
					},
					Err(e) => {
						// An error of a motor must be that of this motor.
						if let Er::Motor(x) = e {
							vassert!(want.iter().any(|w| w.as_ref().is_some_and(|w| w.1 == *x)), "{}: {e:?}", ctx());
						}
					},
				}
			}
			if single {
				let e = ran.one();
				let f = faults[0].1;
				let expected = match f {
					Fault::Corrupt => matches!(e, Err(Er::Checksum { .. })),
					_ => e == Err(Er::Io(VErr::Timeout)),
				};
				vassert!(expected, "{}: {e:02X?}", ctx());
			}
		}
		for (k, m) in b.motors.iter().enumerate() {
			vassert!(m.mem == self.mem[k], "{}: motor {} now contains {:02X?} instead of {:02X?}", ctx(), m.id, m.mem, self.mem[k]);
		}
		self.cx.outcome(&(&ran.items, &self.mem));
	}
}

fn main() {
	let mut r = Runner::new("C28");
	r.assume("motors execute instructions synchronously and reply in the order of the request");
	r.assume("a reply that is delayed arrives before the next command, not during it");
	let ops = all_ops();
	r.note("operations", format!("{} operations, 3 devices, {N} registers each", ops.len()));
	let pick_op = |cx: &Cx, ops: &[Op]| cx.pick(ops).clone();
	let depth = r.by_tier(4usize, 5);
	r.tree("all histories", Some(0), |cx| {
		let mut w = World::new(cx, Frag::All, Frag::All, 64);
		for _ in 0..depth {
			let op = pick_op(cx, &ops);
			w.op(&op, None);
		}
	});
	let (depth, dev) = r.by_tier((3usize, 2), (3, 4));
	r.tree("histories with lost, late and corrupted replies", Some(dev), |cx| {
		let mut w = World::new(cx, Frag::All, Frag::All, 64);
		for _ in 0..depth {
			let op = pick_op(cx, &ops);
			w.op(&op, None);
		}
	});
	let few: Vec<Op> = [2usize, 3, 4, 7, 9, 11, 12, 18, 21, 22].iter().map(|k| ops[*k].clone()).collect();
	let (depth, dev) = r.by_tier((4usize, 2), (5, 2));
	r.tree("longer histories of fewer operations with faults", Some(dev), |cx| {
		let mut w = World::new(cx, Frag::Max(7), Frag::Max(3), 20);
		for _ in 0..depth {
			let op = pick_op(cx, &few);
			w.op(&op, None);
		}
	});
	let multi: Vec<Op> = [3usize, 11, 17, 18, 19, 20, 21, 16].iter().map(|k| ops[*k].clone()).collect();
	let depth = 3;
	r.tree("multi-reply reads dropped early", Some(r.by_tier(1, 2)), |cx| {
		let mut w = World::new(cx, Frag::All, Frag::Max(5), 40);
		for _ in 0..depth {
			let op = pick_op(cx, &multi);
			let n = if op.is_multi() { Some(cx.choose(4)) } else { None };
			w.op(&op, n);
		}
	});
	// Every single operation, with every fault and fragmentation of bytes, between a write and a read.
	r.tree("one operation in every fragmentation", Some(r.by_tier(2, 3)), |cx| {
		let mut w = World::new(cx, Frag::Choose, Frag::All, 40);
		w.op(&ops[0], None);
		let op = pick_op(cx, &ops);
		w.op(&op, None);
		w.op(&Op::ReadVec(1, 0, 8), None);
	});
	r.sweep("every value of every register", 256 * N as u64 * 8, |i, cx| {
		let mut ix = Ix(i);
		let v = ix.take(256) as u8;
		let a = ix.take(N) as u16;
		let mut w = World::new(cx, Frag::All, Frag::All, 64);
		let how = ix.take(8);
		let d = vec![v];
		match how {
			0 => w.op(&Op::Write(2, a, Ty::U8, d), None),
			1 => w.op(&Op::WriteBytes(2, a, d), None),
			2 => w.op(&Op::SyncWrite(a, Ty::I8, vec![(1, vec![!v]), (2, d)]), None),
			3 => w.op(&Op::SyncWriteBytes(a, 1, vec![(2, d), (1, vec![v ^ 0x80])]), None),
			4 => w.op(&Op::BulkWrite(vec![(1, a, vec![]), (2, a, d)]), None),
			5 => {
				w.op(&Op::RegWriteBytes(2, a, d), None);
				w.op(&Op::Action(2), None);
			},
			6 => {
				w.op(&Op::RegWrite(BROADCAST, a, Ty::U8, d), None);
				w.op(&Op::BcAction, None);
			},
			_ => w.op(&Op::Write(BROADCAST, a, Ty::U8, d), None),
		}
		w.op(&Op::Read(2, a, Ty::U8), None);
		w.op(&Op::ReadVec(2, 0, 8), None);
		w.op(&Op::SyncReadBytes(vec![1, 2], a, 1, Via::Next), None);
		w.op(&Op::BulkRead(vec![(2, 0, 8), (1, a, 1)], Via::Next), None);
	});
	// Histories longer than a small counter can count.
	let strides = [1usize, 7, 11, 13, 17, 19, 23, 29];
	r.sweep("very long histories", r.by_tier(8, 16), |i, cx| {
		let mut w = World::new(cx, [Frag::All, Frag::Max(9)][i as usize % 2], Frag::All, 64);
		let n = ops.len();
		for k in 0..MANY {
			w.op(&ops[(k * strides[i as usize % 8] + k / n * (1 + i as usize / 8)) % n], None);
			w.fresh();
		}
	});
	r.finish();
}

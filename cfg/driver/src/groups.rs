//! The executions: every group is a finite set, numbered from 0.
use crate::env::*;
use dynamixel2::bus::Data;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, SyncWriteData};
use dynamixel2::{Client, Device};
use std::time::Duration;

/// A mixed radix number being taken apart.
pub struct Ix(pub u64);

impl Ix {
	pub fn take(&mut self, n: u64) -> u64 {
		let r = self.0 % n;
		self.0 /= n;
		r
	}
	pub fn of<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.take(items.len() as u64) as usize]
	}
}

/// How far the bounds reach: 0 and 1 for the quick and thorough tier under an interpreter, 2 and 3 for compiled code.
pub type Level = usize;

pub struct Group {
	pub name: &'static str,
	pub total: fn(Level) -> u64,
	pub run: fn(Level, u64, Kind),
}

pub const GROUPS: [Group; 9] = [
	Group { name: "transactions", total: transactions_total, run: transactions },
	Group { name: "device", total: device_total, run: device },
	Group { name: "received bytes", total: noise_total, run: noise },
	Group { name: "stuffing", total: stuffing_total, run: stuffing },
	Group { name: "values", total: values_total, run: values },
	Group { name: "sizes and times", total: sizes_total, run: sizes },
	Group { name: "texts", total: texts_total, run: texts },
	Group { name: "histories", total: histories_total, run: histories },
	Group { name: "checksums", total: checksums_total, run: checksums },
];

// ---------------------------------------------------------------- the operations of a client

pub const OPS: usize = 36;

/// What a motor that understood the operation would answer: the motors and the number of parameters.
fn answers(op: usize) -> Vec<(u8, usize)> {
	match op {
		0 => vec![(1, 3)],
		1 => vec![(1, 3), (2, 3)],
		2 => vec![(1, 4)],
		3 => vec![(1, 1)],
		4 => vec![(1, 2)],
		5 => vec![(1, 4)],
		6 => vec![(1, 8)],
		7 => vec![(1, 16)],
		8 => vec![(1, 6)],
		9..=16 => vec![(1, 0)],
		24 => vec![(1, 2), (2, 2)],
		25 => vec![(1, 2), (2, 2)],
		26 => vec![(1, 4), (2, 4), (3, 4)],
		27 => vec![(1, 6)],
		28 => vec![(1, 2), (2, 1)],
		29 => vec![(1, 0), (2, 3)],
		34 => vec![(1, 2)],
		35 => vec![(1, 5)],
		_ => vec![],
	}
}

fn client_op<B: AsRef<[u8]> + AsMut<[u8]>>(c: &mut Client<Port, B>, op: usize) {
	match op {
		0 => say!("{:?}", c.ping(1)),
		1 => match c.scan() {
			Ok(mut scan) => {
				for _ in 0..6 {
					match scan.scan_next() {
						Some(r) => say!("{r:?}"),
						None => {
							say!("end");
							break;
						},
					}
				}
			},
			Err(e) => say!("{e:?}"),
		},
		2 => say!("{:?}", c.read_bytes::<&[u8]>(1, 0x1234, 4)),
		3 => say!("{:?}", c.read::<u8>(1, 5)),
		4 => say!("{:?}", c.read::<i16>(1, 0xFFFF)),
		5 => say!("{:?}", c.read::<u32>(1, 132)),
		6 => say!("{:?}", c.read::<i64>(1, 0xFDFF)),
		7 => say!("{:?}", c.read::<u128>(1, 7)),
		8 => say!("{:?}", c.read::<[u16; 3]>(1, 7)),
		9 => say!("{:?}", c.write_bytes(1, 0x0102, &[0xFF, 0xFF, 0xFD, 0x01])),
		10 => say!("{:?}", c.write::<u32>(1, 116, &0xFDFF_FF01)),
		11 => say!("{:?}", c.reg_write_bytes(1, 0xFDFF, &[1, 2])),
		12 => say!("{:?}", c.reg_write::<i16>(1, 5, &-2)),
		13 => say!("{:?}", c.action(1)),
		14 => say!("{:?}", c.reboot(1)),
		15 => say!("{:?}", c.clear_error(1)),
		16 => say!("{:?}", c.factory_reset(1, FactoryResetKind::KeepIdAndBaudRate)),
		17 => say!("{:?}", c.broadcast_action()),
		18 => say!("{:?}", c.broadcast_reboot()),
		19 => say!("{:?}", c.broadcast_clear_error()),
		20 => say!("{:?}", c.broadcast_clear_revolution_counter()),
		21 => say!("{:?}", c.broadcast_factory_reset(FactoryResetKind::ResetAll)),
		22 => say!("{:?}", c.write_bytes(0xFE, 3, &[9])),
		23 => say!("{:?}", c.clear_revolution_counter(0xFE)),
		24 => match c.sync_read::<u16>(&[1, 2], 0x0203) {
			Ok(mut read) => loop {
				say!("remaining {}", read.remaining());
				match read.read_next() {
					Some(r) => say!("{r:?}"),
					None => break,
				}
			},
			Err(e) => say!("{e:?}"),
		},
		25 => match c.sync_read_bytes::<Vec<u8>>(&[1, 2], 0xFFFF, 2) {
			Ok(mut read) => loop {
				say!("remaining {}", read.remaining());
				match read.read_next() {
					Some(r) => say!("{r:?}"),
					None => break,
				}
			},
			Err(e) => say!("{e:?}"),
		},
		26 => match c.sync_read::<u32>(&[1, 2, 3], 132) {
			Ok(read) => {
				for r in read {
					say!("{r:?}");
				}
			},
			Err(e) => say!("{e:?}"),
		},
		27 => match c.sync_read::<[u16; 3]>(&[1], 7) {
			Ok(read) => {
				say!("hint {:?}", read.size_hint());
				for r in read {
					say!("{r:?}");
				}
			},
			Err(e) => say!("{e:?}"),
		},
		28 | 29 => {
			let reads = [
				BulkReadData { motor_id: 1, address: 0xFFFF, count: if op == 28 { 2 } else { 0 } },
				BulkReadData { motor_id: 2, address: 0x01FD, count: if op == 28 { 1 } else { 3 } },
			];
			match c.bulk_read_bytes::<Vec<u8>>(&reads) {
				Ok(mut read) => loop {
					say!("remaining {}", read.remaining());
					match read.read_next() {
						Some(r) => say!("{r:?}"),
						None => break,
					}
				},
				Err(e) => say!("{e:?}"),
			};
		},
		30 => say!(
			"{:?}",
			c.sync_write(0x0074, &[SyncWriteData { motor_id: 1, data: 0xFDFF_FFFFu32 }, SyncWriteData { motor_id: 0xFD, data: 1 }])
		),
		31 => say!("{:?}", c.sync_write_bytes(0x0074, 2, &[SyncWriteData { motor_id: 1, data: [0xFFu8, 0xFD] }])),
		32 => {
			let writes = [
				BulkWriteData { motor_id: 1, address: 0xFFFF, data: vec![0xFDu8, 1] },
				BulkWriteData { motor_id: 2, address: 2, data: vec![] },
			];
			say!("{:?}", c.bulk_write(&writes));
		},
		33 => say!(
			"{:?}",
			c.write_instruction(0xFD, 0xFF, 3, |b| {
				b.copy_from_slice(&[0xFF, 0xFD, 0xFF]);
				Ok(())
			})
		),
		34 => say!(
			"{:?}",
			c.transfer_single(1, 0x77, 1, 2, |b| {
				b[0] = 0xFD;
				Ok(())
			})
		),
		35 => say!("{:?}", c.read_status_response(5)),
		_ => unreachable!(),
	}
}

struct ClientOps<'a>(&'a [usize]);

impl Job for ClientOps<'_> {
	fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B) {
		match Client::with_buffers(port, read, write) {
			Ok(mut c) => {
				for &op in self.0 {
					client_op(&mut c, op);
				}
				c.into_serial_port().left();
			},
			Err(e) => say!("no client: {e:?}"),
		}
	}
}

/// The ways a reply can come in.
const REPLIES: u64 = 18;

fn reply(kind: u64, motor: u8, n: usize) -> Vec<Ev> {
	let data: Vec<u8> = (0..n).map(|i| [0x80, 0x7F, 0x01, 0xFE, 0x00][i % 5]).collect();
	let header: Vec<u8> = [0xFF, 0xFF, 0xFD, 0xFD, 0xFF].into_iter().cycle().take(n).collect();
	let ok = status(motor, 0, &data);
	let bytes = |b: Vec<u8>| vec![Ev::Bytes(b)];
	match kind {
		0 => bytes(ok),
		1 => bytes(status(motor, 0, &header)),
		2 => bytes(status(motor, 0x80, &data)),
		3 => bytes(status(motor, 0x04, &[])),
		4 => bytes(status(motor, 0x87, &data)),
		5 => bytes(status(motor.wrapping_add(1), 0, &data)),
		6 => bytes(status(motor, 0, &data[..n.saturating_sub(1)])),
		7 => bytes([&data[..], &[0xFF]].concat()).into_iter().map(|_| Ev::Bytes(status(motor, 0, &[&data[..], &[0xFF]].concat()))).collect(),
		8 => bytes(frame(motor, &[&[0x03][..], &data].concat())),
		9 => {
			let mut bad = ok;
			let last = bad.len() - 1;
			bad[last] ^= 0x40;
			bytes(bad)
		},
		10 => bytes([&[0xFF, 0xFF, 0xFD, 0x01, 0xFF][..], &ok].concat()),
		11 => bytes(ok[..ok.len() - 1].to_vec()),
		12 => vec![Ev::Bytes(ok[..5].to_vec()), Ev::Zero, Ev::Broken, Ev::Bytes(ok[5..].to_vec())],
		13 => bytes([&ok[..], &ok].concat()),
		14 => bytes(vec![0xFF, 0xFF, 0xFD, 0x00, motor, 2, 0, 0x55, 0x00]),
		15 => bytes(vec![0xFF, 0xFF, 0xFD, 0x00, motor, 0xFF, 0xFF, 0x55, 0x00, 0x01]),
		16 => bytes(frame(motor, &[0x55])),
		17 => vec![],
		_ => unreachable!(),
	}
}

/// Break the script up: 0 as it is, 1 byte for byte, 2 in threes with empty reads in between.
fn split(script: Vec<Ev>, how: u64) -> Vec<Ev> {
	let mut out = Vec::new();
	for ev in script {
		match (how, ev) {
			(1, Ev::Bytes(b)) => out.extend(b.into_iter().map(|b| Ev::Bytes(vec![b]))),
			(2, Ev::Bytes(b)) => {
				for c in b.chunks(3) {
					out.push(Ev::Bytes(c.to_vec()));
					out.push(Ev::Zero);
				}
			},
			(_, ev) => out.push(ev),
		}
	}
	out
}

const READ_SIZES: [&[usize]; 4] = [&[24], &[128, 16], &[128, 10, 16, 40, 9], &[128, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 40, 0, 9]];
const WRITE_SIZES: [&[usize]; 4] = [&[24], &[128], &[128, 16, 24], &[128, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 40]];

const SPLITS: [u64; 4] = [2, 3, 3, 3];

fn transactions_total(l: Level) -> u64 {
	OPS as u64 * REPLIES * SPLITS[l] * (READ_SIZES[l].len() * WRITE_SIZES[l].len()) as u64
}

fn transactions(l: Level, i: u64, kind: Kind) {
	let mut ix = Ix(i);
	let op = ix.take(OPS as u64) as usize;
	let r = ix.take(REPLIES);
	let how = 2 - ix.take(SPLITS[l]);
	let rs = *ix.of(READ_SIZES[l]);
	let ws = *ix.of(WRITE_SIZES[l]);
	title!("op {op} reply {r} split {how} buffers {rs} {ws}");
	let mut script = vec![];
	for (motor, n) in answers(op) {
		script.extend(reply(r, motor, n));
	}
	if answers(op).is_empty() {
		script.extend(reply(r, 1, 0));
	}
	with_buffers(kind, rs, ws, Port::new(split(script, how)), ClientOps(&[op]));
}

// ---------------------------------------------------------------- the device

struct Serve {
	reads: usize,
	how: u64,
}

impl Job for Serve {
	fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B) {
		match Device::with_buffers(port, read, write) {
			Ok(mut d) => {
				for i in 0..self.reads {
					let timeout = Duration::from_millis(7 + i as u64);
					match self.how {
						0 => say!("{:?}", d.read(timeout)),
						// Owned data needs the `alloc` feature; without it the borrowed data must be the same.
						#[cfg(feature = "alloc")]
						1 => say!("{:?}", d.read_owned(timeout)),
						#[cfg(not(feature = "alloc"))]
						1 => say!("{:?}", d.read(timeout)),
						_ => match d.read_raw_instruction_timeout(timeout) {
							Ok(p) => {
								let (id, n, parameters) = (p.packet_id(), p.instruction_id(), p.parameters().to_vec());
								say!("{id} {n} {parameters:02X?}");
								let answer = d.write_status(id, n & 0x87, parameters.len(), |b| {
									b.copy_from_slice(&parameters);
									Ok(())
								});
								say!("{answer:?}");
							},
							Err(e) => {
								say!("{e:?}");
								say!("{:?}", d.write_status_error(3, 0x85));
							},
						},
					}
				}
				say!("{:?}", d.write_status_ok(0xFD));
			},
			Err(e) => say!("no device: {e:?}"),
		}
	}
}

const INSTRUCTIONS: [u8; 18] = [1, 2, 3, 4, 5, 6, 8, 0x10, 0x20, 0x55, 0x82, 0x83, 0x8A, 0x92, 0x93, 0, 0xFF, 0xFD];
const PATTERNS: [&[u8]; 4] = [&[1, 2, 3, 4, 5, 6, 7], &[0xFF, 0xFF, 0xFD], &[0xFF], &[0xFD, 0x00, 0x02]];
const DEVICE_SIZES: [&[usize]; 4] = [&[20], &[40], &[40, 16, 10], &[40, 128, 24, 16, 14, 12, 10]];
const LENGTHS: [u64; 4] = [6, 7, 9, 16];
const KEPT: [usize; 4] = [2, 4, 4, 4];
const DEVICE_SPLITS: [u64; 4] = [1, 3, 3, 3];

fn device_total(l: Level) -> u64 {
	INSTRUCTIONS.len() as u64 * LENGTHS[l] * KEPT[l] as u64 * DEVICE_SPLITS[l] * 3 * DEVICE_SIZES[l].len() as u64
}

fn device(l: Level, i: u64, kind: Kind) {
	let mut ix = Ix(i);
	let instruction = *ix.of(&INSTRUCTIONS);
	let n = ix.take(LENGTHS[l]) as usize;
	let pattern = ix.of(&PATTERNS[..KEPT[l]]);
	let split_how = ix.take(DEVICE_SPLITS[l]);
	let how = ix.take(3);
	let size = *ix.of(DEVICE_SIZES[l]);
	title!("instruction {instruction} parameters {n} of {pattern:?} split {split_how} read {how} buffers {size}");
	let body: Vec<u8> = [instruction].into_iter().chain(pattern.iter().copied().cycle().take(n)).collect();
	let script = vec![Ev::Bytes(frame(instruction ^ 1, &body)), Ev::Bytes(frame(2, &[1]))];
	with_buffers(kind, size, size, Port::new(split(script, split_how)), Serve { reads: 3, how });
}

// ---------------------------------------------------------------- arbitrary received bytes

const ALPHABET: [u8; 6] = [0xFF, 0xFD, 0x00, 0x03, 0x55, 0x01];
const NOISE: [u32; 4] = [2, 3, 6, 8];

fn strings(alphabet: u64, max: u32) -> u64 {
	(0..=max).map(|n| alphabet.pow(n)).sum()
}

fn string(mut i: u64, alphabet: &[u8]) -> Vec<u8> {
	let k = alphabet.len() as u64;
	let mut n = 0;
	while i >= k.pow(n) {
		i -= k.pow(n);
		n += 1;
	}
	let mut ix = Ix(i);
	(0..n).map(|_| *ix.of(alphabet)).collect()
}

fn noise_total(l: Level) -> u64 {
	strings(ALPHABET.len() as u64, NOISE[l]) * 3 * 2 * 2
}

fn noise(_l: Level, i: u64, kind: Kind) {
	let mut ix = Ix(i);
	let prefix: &[u8] = ix.of(&[&[][..], &[0xFF, 0xFF, 0xFD, 0x00, 0x01], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x05, 0x00]]);
	let side = ix.take(2);
	let size = *ix.of(&[24, 12]);
	let bytes = [prefix, &string(ix.0, &ALPHABET)].concat();
	title!("received {bytes:02X?} side {side} buffer {size}");
	let port = |f: Vec<u8>| Port::new(vec![Ev::Bytes(bytes.clone()), Ev::Bytes(f)]);
	if side == 0 {
		with_buffers(kind, size, size, port(status(1, 0, &[])), ClientOps(&[35, 35, 35]));
	} else {
		with_buffers(kind, size, size, port(frame(1, &[1])), Serve { reads: 3, how: 0 });
	}
}

// ---------------------------------------------------------------- stuffing

const STUFF: [u8; 3] = [0xFF, 0xFD, 0x00];
const STUFFED: [u32; 4] = [4, 5, 10, 13];

fn stuffing_total(l: Level) -> u64 {
	strings(3, STUFFED[l]) * 2
}

fn stuffing(_l: Level, i: u64, kind: Kind) {
	struct Send(u8, Vec<u8>);
	impl Job for Send {
		fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B) {
			let mut c = Client::with_buffers(port, read, write).unwrap();
			let r = c.write_instruction(5, self.0, self.1.len(), |b| {
				b.copy_from_slice(&self.1);
				Ok(())
			});
			say!("{r:?}");
			say!("{:?}", c.read_status_response_timeout(Duration::from_secs(1)).map(|s| (s.error(), s.parameters().to_vec())));
		}
	}
	let mut ix = Ix(i);
	let tight = ix.take(2) == 1;
	let payload = string(ix.0, &STUFF);
	title!("payload {payload:02X?} tight {tight}");
	let reply = status(5, 0, &payload);
	let size = if tight { reply.len().max(10) } else { 40 };
	with_buffers(kind, size, size, Port::new(vec![Ev::Bytes(reply)]), Send(0xFF, payload));
}

// ---------------------------------------------------------------- values

const SPECIAL: u64 = 42;

fn special(i: u64) -> u128 {
	match i {
		0..=15 => 1 << (8 * i),
		16..=31 => u128::MAX << (8 * (i - 16) + 7),
		32 => 0,
		33 => u128::MAX,
		34 => 0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10,
		35 => 0xFDFF_FFFD_FFFF_FDFF_FFFD_FFFF_FDFF_FFFD,
		36 => 0x8000_8000_8000_8000_8000_8000_8000_8000,
		37 => 0x7FFF_7FFF_7FFF_7FFF_7FFF_7FFF_7FFF_7FFF,
		38 => 0x00FF_00FF_00FF_00FF_00FF_00FF_00FF_00FF,
		39 => 0x8081_8283_8485_8687_8889_8A8B_8C8D_8E8F,
		40 => 0xFFFF_FFFF_0000_0000_FFFF_FFFF_0000_0000,
		_ => 0x1122_3344_5566_7788_99AA_BBCC_DDEE_FF00,
	}
}

fn values_total(l: Level) -> u64 {
	SPECIAL * 16 + [32, 512, 65536, 65536][l]
}

fn value<V: Data + std::fmt::Debug>(v: V, room: usize) {
	let mut b = [0xA5u8; 80];
	say!("{v:?} {}", V::ENCODED_SIZE);
	let r = v.encode(&mut b[..room.min(80)]);
	say!("{r:?} {b:02X?}");
	if r.is_ok() {
		say!("{:?}", V::decode(&b[..V::ENCODED_SIZE as usize]));
	}
	say!("{:?}", V::decode(&b[..room.min(80)]));
}

fn values(_l: Level, i: u64, _kind: Kind) {
	if i >= SPECIAL * 16 {
		let v = (i - SPECIAL * 16) as u16;
		value(v, 2);
		value(v as i16, 3);
		value([v as u8, (v >> 8) as u8], 2);
		value([[v as i8; 1]; 3], 3);
		return;
	}
	let mut ix = Ix(i);
	let v = special(ix.take(SPECIAL));
	match ix.take(16) {
		0 => value(v as u8, 1),
		1 => value(v as u16, 1),
		2 => value(v as u32, 4),
		3 => value(v as u64, 9),
		4 => value(v, 16),
		5 => value(v as i8, 0),
		6 => value(v as i16, 2),
		7 => value(v as i32, 5),
		8 => value(v as i64, 8),
		9 => value(v as i128, 16),
		10 => value([v as u16, (v >> 16) as u16, (v >> 32) as u16], 6),
		11 => value([v as u32, (v >> 32) as u32], 7),
		12 => value([[v as i16, (v >> 16) as i16], [(v >> 32) as i16, (v >> 48) as i16]], 8),
		13 => value([v; 4], 64),
		14 => value([v as i64; 0], 0),
		_ => value([v as i64, (v >> 64) as i64, 1], 25),
	}
}

// ---------------------------------------------------------------- sizes and times

const COUNTS: [usize; 22] = [
	0, 1, 2, 5, 100, 117, 118, 119, 120, 121, 255, 256, 1000, 32767, 32768, 65520, 65531, 65532, 65533, 65534, 65535, 65536,
];
const BAUDS: [u32; 12] = [1, 2, 3, 13, 300, 9600, 57_600, 115_200, 1_000_000, 4_500_000, 0x8000_0000, u32::MAX];

const RATES: [usize; 4] = [1, 12, 12, 12];

fn sizes_total(l: Level) -> u64 {
	COUNTS.len() as u64 * (RATES[l] as u64 + 2 * if l < 2 { 1 } else { 5 })
}

fn sizes(l: Level, i: u64, kind: Kind) {
	struct Times(usize, u32);
	impl Job for Times {
		fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B) {
			let Times(count, baud) = self;
			let mut c = match Client::with_buffers(port, read, write) {
				Ok(c) => c,
				Err(e) => return say!("no client: {e:?}"),
			};
			say!("{:?}", c.read_status_response(count.min(65535) as u16).map(|_| ()));
			say!("{:?}", c.read_bytes::<Vec<u8>>(1, 0, count.min(65535) as u16));
			say!("{:?}", c.set_baud_rate(baud));
			say!("{c:?} {}", c.baud_rate());
			match c.sync_read_bytes::<Vec<u8>>(&[1, 2], 0, count.min(65535) as u16) {
				Ok(mut r) => {
					say!("{:?}", r.read_next());
					say!("{:?}", r.read_next());
					say!("{:?}", r.read_next());
				},
				Err(e) => say!("{e:?}"),
			};
			match c.scan() {
				Ok(mut s) => say!("{:?}", s.scan_next()),
				Err(e) => say!("{e:?}"),
			};
		}
	}
	struct Long(usize, u64, usize);
	impl Job for Long {
		fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B) {
			let Long(count, side, total) = self;
			let fill = |b: &mut [u8]| {
				for (i, b) in b.iter_mut().enumerate() {
					*b = [0xFF, 0xFF, 0xFD, 3, 4][i % 5];
				}
				Ok(())
			};
			if side == 0 {
				let mut c = Client::with_buffers(port, read, write).unwrap();
				say!("{:?}", c.write_instruction(1, 3, count, fill));
				say!("{:?}", c.read_status_response_timeout(Duration::new(3, 1)).map(|s| (s.error(), s.parameters().len(), crc(s.parameters()))));
			} else {
				let mut d = Device::with_buffers(port, read, write).unwrap();
				say!("{:?}", d.write_status(1, 3, count, fill));
				say!(
					"{:?}",
					d.read_raw_instruction_timeout(Duration::new(3, 1)).map(|s| (s.instruction_id(), s.parameters().len(), crc(s.parameters())))
				);
			}
			let _ = total;
		}
	}
	let mut ix = Ix(i);
	let count = *ix.of(&COUNTS);
	if ix.0 < RATES[l] as u64 {
		let baud = *ix.of(&BAUDS);
		title!("count {count} baud {baud}");
		with_buffers(kind, 40, 40, Port::new(vec![]).baud(baud), Times(count, BAUDS[(baud % 5) as usize + 5]));
		with_buffers(kind, 40, 40, Port::new(vec![]).baud(9600), Times(count, baud));
	} else {
		ix.0 -= RATES[l] as u64;
		let side = ix.take(2);
		let size = [128, 300, 65_535, 65_542, 65_545][ix.0 as usize];
		title!("count {count} side {side} buffers {size}");
		let payload: Vec<u8> = (0..count.min(if l < 2 { 300 } else { 60_000 })).map(|i| [1u8, 0xFF, 0xFF, 2, 0xFD, 3, 4, 5][i % 8]).collect();
		let reply = if side == 0 { status(1, 0, &payload) } else { frame(1, &[&[3], &payload[..]].concat()) };
		with_buffers(kind, size, size, Port::new(vec![Ev::Bytes(reply)]), Long(count, side, size));
	}
}

// ---------------------------------------------------------------- texts

const TEXTS: u64 = 12;

fn texts_total(l: Level) -> u64 {
	TEXTS * if l == 0 { 3 } else { 9 }
}

fn texts(_l: Level, i: u64, _kind: Kind) {
	use dynamixel2::*;
	fn both<E: std::fmt::Debug + std::fmt::Display>(e: E) {
		say!("{e:?} | {e:#?} | {e} | {e:#}");
	}
	fn all(m: InvalidMessage) {
		both(m.clone());
		both(ReadError::<PortError>::from(m.clone()));
		both(TransferError::<PortError>::from(ReadError::from(m)));
	}
	let mut ix = Ix(i);
	let which = ix.take(TEXTS);
	let n = *ix.of(&[0usize, 255, 65535, 2, 9, 10, 127, 1, 65545]);
	let b = n as u8;
	match which {
		0 => all(InvalidParameterCount { actual: n, expected: ExpectedCount::Exact(n + 1) }.into()),
		1 => all(InvalidParameterCount { actual: n, expected: ExpectedCount::Max(3) }.into()),
		2 => all(InvalidParameterCount { actual: n, expected: ExpectedCount::Min(n) }.into()),
		3 => all(InvalidPacketId { actual: b, expected: None }.into()),
		4 => all(InvalidPacketId { actual: 0xFE, expected: Some(b) }.into()),
		5 => all(InvalidInstruction { actual: b, expected: 0x55 }.into()),
		6 => all(InvalidChecksum { message: n as u16, computed: !(n as u16) }.into()),
		7 => all(InvalidHeaderPrefix { actual: [b, 0, 1, b], expected: [0xFF, 0xFF, 0xFD, 0] }.into()),
		8 => {
			let e = MotorError { raw: b };
			both(e.clone());
			both(ReadError::<PortError>::from(e.clone()));
			both(TransferError::<PortError>::from(ReadError::from(e)));
		},
		9 => {
			let e = || BufferTooSmallError { required_size: n + 7, total_size: n };
			both(e());
			both(ReadError::<PortError>::from(e()));
			both(WriteError::<PortError>::from(e()));
			both(TransferError::<PortError>::from(WriteError::from(e())));
		},
		10 => {
			both(ReadError::Io(PortError::Timeout));
			both(WriteError::Write(PortError::Broken));
			both(WriteError::DiscardBuffer(PortError::Broken));
			both(TransferError::from(WriteError::Write(PortError::Broken)));
		},
		_ => {
			let s = status(b, b, &[b; 2]);
			struct View;
			impl Job for View {
				fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B) {
					let mut c = Client::with_buffers(port, read, write).unwrap();
					match c.read_status_response(2) {
						Ok(s) => say!("{s:?} {} {} {} {:?}", s.packet_id(), s.error_number(), s.alert(), s.parameters()),
						Err(e) => say!("{e:?} {e}"),
					}
				}
			}
			with_buffers(_kind, 40, 40, Port::new(vec![Ev::Bytes(s)]), View);
		},
	}
}

// ---------------------------------------------------------------- histories

/// Operations of a history: one of every way to transmit and to receive.
const MIX: [usize; 8] = [0, 1, 8, 9, 22, 26, 29, 35];
const STEPS: [u32; 4] = [2, 2, 4, 5];
const ARRIVALS: [u64; 6] = [0, 9, 13, 3, 5, 15];
const ARRIVED: [usize; 4] = [3, 6, 6, 6];

fn histories_total(l: Level) -> u64 {
	(MIX.len() as u64).pow(STEPS[l]) * (ARRIVED[l] as u64).pow(2) * if l == 0 { 1 } else if l < 3 { 2 } else { 4 }
}

fn histories(l: Level, i: u64, kind: Kind) {
	let mut ix = Ix(i);
	let ops: Vec<usize> = (0..STEPS[l]).map(|_| *ix.of(&MIX)).collect();
	let first = *ix.of(&ARRIVALS[..ARRIVED[l]]);
	let second = *ix.of(&ARRIVALS[..ARRIVED[l]]);
	let late = ix.take(2) == 1;
	let size = *ix.of(&[16, 40]);
	title!("ops {ops:?} replies {first} {second} late {late} buffer {size}");
	let mut script = vec![];
	for (n, &op) in ops.iter().enumerate() {
		for (motor, count) in answers(op) {
			script.extend(reply(if n == 0 { first } else { second }, motor, count));
		}
		if late {
			script.push(Ev::Fence);
		}
	}
	with_buffers(kind, size, 40, Port::new(script), ClientOps(&ops));
}

// ---------------------------------------------------------------- checksums

fn checksums_total(l: Level) -> u64 {
	[128, 1024, 65536 * 4, 65536 * 32][l]
}

fn checksums(_l: Level, i: u64, _kind: Kind) {
	use dynamixel2::checksum::calculate_checksum;
	let x = i as u16;
	let more = (i >> 16) as u8;
	say!(
		"{} {} {}",
		calculate_checksum(x, &[more]),
		calculate_checksum(x, &[]),
		calculate_checksum(x.rotate_left(8), &[x as u8, (x >> 8) as u8, more, 0xFF, x as u8])
	);
}

//! All client operations behind one uniform interface, with the instruction each one promises.

use crate::port::*;
use crate::refmodel::*;
use dynamixel2::bus::Data;
use dynamixel2::instructions::{BulkReadData, BulkWriteData, FactoryResetKind, Ping, SyncWriteData};
use dynamixel2::{Client, Device, ReadError, Response, TransferError, WriteError};

pub type C = Client<VPort, Vec<u8>>;
pub type D = Device<VPort, Vec<u8>>;

/// A buffer is not necessarily new: this one holds what could be taken for received frames.
fn used_buffer(n: usize, id: u8, instruction: u8, params: &[u8]) -> Vec<u8> {
	let mut b = vec![0xA5; n];
	let f = frame(id, instruction, params);
	for (to, from) in b.chunks_mut(f.len()).take(4).zip(std::iter::repeat(&f)) {
		to.copy_from_slice(&from[..to.len()]);
	}
	b
}
pub fn client(port: &VPort, rbuf: usize, wbuf: usize) -> C {
	match Client::with_buffers(port.clone(), used_buffer(rbuf, 1, 0x55, &[0]), vec![0xA5; wbuf]) {
		Ok(c) => c,
		Err(e) => crate::engine::fail(format!("constructing a client failed: {e:?}")),
	}
}
pub fn device(port: &VPort, rbuf: usize, wbuf: usize) -> D {
	match Device::with_buffers(port.clone(), used_buffer(rbuf, 1, 1, &[]), vec![0xA5; wbuf]) {
		Ok(c) => c,
		Err(e) => crate::engine::fail(format!("constructing a device failed: {e:?}")),
	}
}

/// Normalised errors.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Er {
	TooSmall { required: usize, total: usize },
	Discard(VErr),
	Write(VErr),
	BufferFull { required: usize, total: usize },
	Io(VErr),
	Prefix,
	Checksum { message: u16, computed: u16 },
	PacketId { actual: u8, expected: Option<u8> },
	Instr { actual: u8, expected: u8 },
	Count { actual: usize, expected: String },
	Motor(u8),
}

impl Er {
	pub fn is_invalid_message(&self) -> bool {
		matches!(self, Er::Prefix | Er::Checksum { .. } | Er::PacketId { .. } | Er::Instr { .. } | Er::Count { .. })
	}
	pub fn is_write_phase(&self) -> bool {
		matches!(self, Er::TooSmall { .. } | Er::Discard(_) | Er::Write(_))
	}
}

impl From<WriteError<VErr>> for Er {
	fn from(e: WriteError<VErr>) -> Er {
		match e {
			WriteError::BufferTooSmall(x) => Er::TooSmall { required: x.required_size, total: x.total_size },
			WriteError::DiscardBuffer(e) => Er::Discard(e),
			WriteError::Write(e) => Er::Write(e),
		}
	}
}
impl From<dynamixel2::InvalidMessage> for Er {
	fn from(m: dynamixel2::InvalidMessage) -> Er {
		use dynamixel2::InvalidMessage::*;
		match m {
			InvalidHeaderPrefix(_) => Er::Prefix,
			InvalidChecksum(c) => Er::Checksum { message: c.message, computed: c.computed },
			InvalidPacketId(p) => Er::PacketId { actual: p.actual, expected: p.expected },
			InvalidInstruction(p) => Er::Instr { actual: p.actual, expected: p.expected },
			InvalidParameterCount(p) => Er::Count { actual: p.actual, expected: format!("{:?}", p.expected) },
		}
	}
}
impl From<ReadError<VErr>> for Er {
	fn from(e: ReadError<VErr>) -> Er {
		match e {
			ReadError::BufferFull(x) => Er::BufferFull { required: x.required_size, total: x.total_size },
			ReadError::Io(e) => Er::Io(e),
			ReadError::MotorError(m) => Er::Motor(m.raw),
			ReadError::InvalidMessage(m) => m.into(),
		}
	}
}
impl From<TransferError<VErr>> for Er {
	fn from(e: TransferError<VErr>) -> Er {
		match e {
			TransferError::WriteError(w) => w.into(),
			TransferError::ReadError(r) => r.into(),
		}
	}
}

/// A successful reply; the data as the bytes that were on the wire.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Item {
	pub id: u8,
	pub alert: bool,
	pub data: Vec<u8>,
}
pub type Res = Result<Item, Er>;

pub fn item(id: u8, alert: bool, data: &[u8]) -> Item {
	Item { id, alert, data: data.to_vec() }
}

/// Values that can be converted without the code under test.
pub trait Lit: Data + 'static {
	fn lit_from(b: &[u8]) -> Self;
	fn lit_bytes(&self) -> Vec<u8>;
}
macro_rules! lit {
	($($t:ty)*) => {$(
		impl Lit for $t {
			fn lit_from(b: &[u8]) -> Self {
				let mut v: u128 = 0;
				for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i) }
				v as $t
			}
			fn lit_bytes(&self) -> Vec<u8> {
				let mut v = *self as u128;
				(0..std::mem::size_of::<$t>()).map(|_| { let b = v as u8; v >>= 8; b }).collect()
			}
		}
	)*};
}
lit!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
impl<T: Lit, const N: usize> Lit for [T; N] {
	fn lit_from(b: &[u8]) -> Self {
		let k = if N == 0 { 0 } else { b.len() / N };
		std::array::from_fn(|i| T::lit_from(&b[i * k..(i + 1) * k]))
	}
	fn lit_bytes(&self) -> Vec<u8> {
		self.iter().flat_map(|x| x.lit_bytes()).collect()
	}
}

/// A register type of the user with padding in memory: 5 bytes on the bus.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Padded(pub u8, pub u32);
/// A register type of the user that is larger on the bus than in memory: 12 bytes.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Boxed(pub Box<[u8; 12]>);
macro_rules! user_data {
	($t:ty, $n:literal, $self:ident => $bytes:expr, $b:ident => $make:expr) => {
		impl Lit for $t {
			fn lit_from($b: &[u8]) -> Self {
				$make
			}
			fn lit_bytes(&$self) -> Vec<u8> {
				$bytes
			}
		}
		impl Data for $t {
			const ENCODED_SIZE: u16 = $n;
			fn encode(&self, buffer: &mut [u8]) -> Result<(), dynamixel2::BufferTooSmallError> {
				user_code(At::Encode);
				if buffer.len() < $n {
					return Err(dynamixel2::BufferTooSmallError { required_size: $n, total_size: buffer.len() });
				}
				buffer[..$n].copy_from_slice(&self.lit_bytes());
				Ok(())
			}
			fn decode(buffer: &[u8]) -> Result<Self, dynamixel2::InvalidMessage> {
				user_code(At::Decode);
				if buffer.len() != $n {
					return Err(dynamixel2::InvalidParameterCount { actual: buffer.len(), expected: dynamixel2::ExpectedCount::Exact($n) }.into());
				}
				Ok(Self::lit_from(buffer))
			}
		}
	};
}
user_data!(Padded, 5, self => [&[self.0][..], &self.1.to_le_bytes()].concat(), b => Padded(b[0], u32::from_le_bytes([b[1], b[2], b[3], b[4]])));
user_data!(Boxed, 12, self => self.0.to_vec(), b => {
	let mut x = Box::new([0; 12]);
	x.copy_from_slice(b);
	Boxed(x)
});

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
	U8, I8, U16, I16, U32, I32, U64, I64, U128, I128,
	/// [u16; 3]
	A3,
	/// [[u8; 2]; 2]
	A22,
	/// [u8; 0]
	A0,
	/// [i32; 5]
	A5,
	/// [[i16; 3]; 1]
	A13,
	/// Padded
	P5,
	/// Boxed
	B12,
	/// [Padded; 3]
	AP3,
	/// [u64; 32]
	L256,
	/// [u8; 257]
	L257,
	/// [u32; 100]
	L400,
	/// [[u16; 130]; 2]
	L520,
}
impl Ty {
	pub const ALL: [Ty; 18] = [
		Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::U128, Ty::I128, Ty::A3, Ty::A22, Ty::A0, Ty::A5, Ty::A13, Ty::P5, Ty::B12, Ty::AP3,
	];
	/// More than a byte can count.
	pub const LARGE: [Ty; 4] = [Ty::L256, Ty::L257, Ty::L400, Ty::L520];
	pub fn size(self) -> usize {
		match self {
			Ty::L256 => 256,
			Ty::L257 => 257,
			Ty::L400 => 400,
			Ty::L520 => 520,
			Ty::U8 | Ty::I8 => 1,
			Ty::U16 | Ty::I16 => 2,
			Ty::U32 | Ty::I32 => 4,
			Ty::U64 | Ty::I64 => 8,
			Ty::U128 | Ty::I128 => 16,
			Ty::A3 => 6,
			Ty::A22 => 4,
			Ty::A0 => 0,
			Ty::A5 => 20,
			Ty::A13 => 6,
			Ty::P5 => 5,
			Ty::B12 => 12,
			Ty::AP3 => 15,
		}
	}
}
#[macro_export]
macro_rules! with_ty {
	($ty:expr, $T:ident => $e:expr) => {
		match $ty {
			$crate::Ty::U8 => { type $T = u8; $e },
			$crate::Ty::I8 => { type $T = i8; $e },
			$crate::Ty::U16 => { type $T = u16; $e },
			$crate::Ty::I16 => { type $T = i16; $e },
			$crate::Ty::U32 => { type $T = u32; $e },
			$crate::Ty::I32 => { type $T = i32; $e },
			$crate::Ty::U64 => { type $T = u64; $e },
			$crate::Ty::I64 => { type $T = i64; $e },
			$crate::Ty::U128 => { type $T = u128; $e },
			$crate::Ty::I128 => { type $T = i128; $e },
			$crate::Ty::A3 => { type $T = [u16; 3]; $e },
			$crate::Ty::A22 => { type $T = [[u8; 2]; 2]; $e },
			$crate::Ty::A0 => { type $T = [u8; 0]; $e },
			$crate::Ty::A5 => { type $T = [i32; 5]; $e },
			$crate::Ty::A13 => { type $T = [[i16; 3]; 1]; $e },
			$crate::Ty::P5 => { type $T = $crate::Padded; $e },
			$crate::Ty::B12 => { type $T = $crate::Boxed; $e },
			$crate::Ty::AP3 => { type $T = [$crate::Padded; 3]; $e },
			$crate::Ty::L256 => { type $T = [u64; 32]; $e },
			$crate::Ty::L257 => { type $T = [u8; 257]; $e },
			$crate::Ty::L400 => { type $T = [u32; 100]; $e },
			$crate::Ty::L520 => { type $T = [[u16; 130]; 2]; $e },
		}
	};
}

/// How a multi-reply read is driven.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Via {
	/// read_next() / scan_next()
	Next,
	/// Iterator::next()
	Iter,
	/// read_next_borrow() of the operation created by the owning function
	Borrow,
	/// the ..._borrow() constructor and read_next_borrow()
	BorrowCtor,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Op {
	Ping(u8),
	Scan,
	Read(u8, u16, Ty),
	ReadVec(u8, u16, u16),
	ReadSlice(u8, u16, u16),
	Write(u8, u16, Ty, Vec<u8>),
	WriteBytes(u8, u16, Vec<u8>),
	RegWrite(u8, u16, Ty, Vec<u8>),
	RegWriteBytes(u8, u16, Vec<u8>),
	Action(u8),
	BcAction,
	Reboot(u8),
	BcReboot,
	FactoryReset(u8, u8),
	BcFactoryReset(u8),
	ClearRev(u8),
	BcClearRev,
	ClearErr(u8),
	BcClearErr,
	SyncRead(Vec<u8>, u16, Ty, Via),
	SyncReadBytes(Vec<u8>, u16, u16, Via),
	BulkRead(Vec<(u8, u16, u16)>, Via),
	SyncWrite(u16, Ty, Vec<(u8, Vec<u8>)>),
	SyncWriteBytes(u16, u16, Vec<(u8, Vec<u8>)>),
	BulkWrite(Vec<(u8, u16, Vec<u8>)>),
	/// write_instruction(id, inst, params)
	RawWrite(u8, u8, Vec<u8>),
	/// transfer_single(id, inst, params, expected parameters)
	Transfer(u8, u8, Vec<u8>, u16),
}

pub fn reset_kind(k: u8) -> FactoryResetKind {
	match k {
		0xFF => FactoryResetKind::ResetAll,
		1 => FactoryResetKind::KeepId,
		_ => FactoryResetKind::KeepIdAndBaudRate,
	}
}

/// The expected replies of an operation.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Replies {
	/// None is awaited.
	None,
	/// One per element, from this motor with this number of parameters; `exact` if another number is an error.
	Each(Vec<(u8, usize)>),
	/// Any number of ping replies, until a timeout.
	Scan,
}

impl Op {
	pub fn is_multi(&self) -> bool {
		matches!(self, Op::Scan | Op::SyncRead(..) | Op::SyncReadBytes(..) | Op::BulkRead(..))
	}

	/// The packet promised for this operation: (packet ID, instruction, parameters).
	pub fn tx(&self) -> (u8, u8, Vec<u8>) {
		fn le(a: u16) -> [u8; 2] {
			[a as u8, (a >> 8) as u8]
		}
		fn cat(parts: &[&[u8]]) -> Vec<u8> {
			parts.concat()
		}
		const CLEAR_REV: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
		const CLEAR_ERR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
		match self {
			Op::Ping(id) => (*id, PING, vec![]),
			Op::Scan => (BROADCAST, PING, vec![]),
			Op::Read(id, a, t) => (*id, READ, cat(&[&le(*a), &le(t.size() as u16)])),
			Op::ReadVec(id, a, n) | Op::ReadSlice(id, a, n) => (*id, READ, cat(&[&le(*a), &le(*n)])),
			Op::Write(id, a, _, v) | Op::WriteBytes(id, a, v) => (*id, WRITE, cat(&[&le(*a), v])),
			Op::RegWrite(id, a, _, v) | Op::RegWriteBytes(id, a, v) => (*id, REG_WRITE, cat(&[&le(*a), v])),
			Op::Action(id) => (*id, ACTION, vec![]),
			Op::BcAction => (BROADCAST, ACTION, vec![]),
			Op::Reboot(id) => (*id, REBOOT, vec![]),
			Op::BcReboot => (BROADCAST, REBOOT, vec![]),
			Op::FactoryReset(id, k) => (*id, FACTORY_RESET, vec![*k]),
			Op::BcFactoryReset(k) => (BROADCAST, FACTORY_RESET, vec![*k]),
			Op::ClearRev(id) => (*id, CLEAR, CLEAR_REV.to_vec()),
			Op::BcClearRev => (BROADCAST, CLEAR, CLEAR_REV.to_vec()),
			Op::ClearErr(id) => (*id, CLEAR, CLEAR_ERR.to_vec()),
			Op::BcClearErr => (BROADCAST, CLEAR, CLEAR_ERR.to_vec()),
			Op::SyncRead(ids, a, t, _) => (BROADCAST, SYNC_READ, cat(&[&le(*a), &le(t.size() as u16), ids])),
			Op::SyncReadBytes(ids, a, n, _) => (BROADCAST, SYNC_READ, cat(&[&le(*a), &le(*n), ids])),
			Op::BulkRead(r, _) => {
				let mut p = vec![];
				for (id, a, n) in r {
					p.push(*id);
					p.extend_from_slice(&le(*a));
					p.extend_from_slice(&le(*n));
				}
				(BROADCAST, BULK_READ, p)
			},
			Op::SyncWrite(a, t, w) => {
				let mut p = cat(&[&le(*a), &le(t.size() as u16)]);
				for (id, d) in w {
					p.push(*id);
					p.extend_from_slice(d);
				}
				(BROADCAST, SYNC_WRITE, p)
			},
			Op::SyncWriteBytes(a, n, w) => {
				let mut p = cat(&[&le(*a), &le(*n)]);
				for (id, d) in w {
					p.push(*id);
					p.extend_from_slice(d);
				}
				(BROADCAST, SYNC_WRITE, p)
			},
			Op::BulkWrite(w) => {
				let mut p = vec![];
				for (id, a, d) in w {
					p.push(*id);
					p.extend_from_slice(&le(*a));
					p.extend_from_slice(&le(d.len() as u16));
					p.extend_from_slice(d);
				}
				(BROADCAST, BULK_WRITE, p)
			},
			Op::RawWrite(id, i, p) | Op::Transfer(id, i, p, _) => (*id, *i, p.clone()),
		}
	}
	pub fn tx_frame(&self) -> Vec<u8> {
		let (id, i, p) = self.tx();
		frame(id, i, &p)
	}

	pub fn replies(&self) -> Replies {
		match self {
			Op::Ping(id) => Replies::Each(vec![(*id, 3)]),
			Op::Scan => Replies::Scan,
			Op::Read(id, _, t) => Replies::Each(vec![(*id, t.size())]),
			Op::ReadVec(id, _, n) | Op::ReadSlice(id, _, n) | Op::Transfer(id, _, _, n) => Replies::Each(vec![(*id, *n as usize)]),
			Op::Write(id, ..)
			| Op::WriteBytes(id, ..)
			| Op::RegWrite(id, ..)
			| Op::RegWriteBytes(id, ..)
			| Op::Action(id)
			| Op::Reboot(id)
			| Op::FactoryReset(id, _)
			| Op::ClearRev(id)
			| Op::ClearErr(id) => {
				if *id == BROADCAST {
					Replies::None
				} else {
					Replies::Each(vec![(*id, 0)])
				}
			},
			Op::SyncRead(ids, _, t, _) => Replies::Each(ids.iter().map(|i| (*i, t.size())).collect()),
			Op::SyncReadBytes(ids, _, n, _) => Replies::Each(ids.iter().map(|i| (*i, *n as usize)).collect()),
			Op::BulkRead(r, _) => Replies::Each(r.iter().map(|i| (i.0, i.2 as usize)).collect()),
			_ => Replies::None,
		}
	}

	/// Well-formed replies of all motors (data chosen from the motor ID).
	pub fn good_replies(&self) -> Vec<Vec<u8>> {
		match self.replies() {
			Replies::None => vec![],
			Replies::Scan => vec![status(1, 0, &[1, 2, 3]), status(2, 0, &[4, 5, 6])],
			Replies::Each(v) => v.iter().map(|&(id, n)| status(id, 0, &self.reply_data(id, n))).collect(),
		}
	}
	pub fn reply_data(&self, id: u8, n: usize) -> Vec<u8> {
		(0..n).map(|k| (id as usize * 37 + k * 11 + 5) as u8).collect()
	}
	pub fn good_items(&self) -> Vec<Item> {
		match self.replies() {
			Replies::None => match self {
				Op::Write(id, ..)
				| Op::WriteBytes(id, ..)
				| Op::RegWrite(id, ..)
				| Op::RegWriteBytes(id, ..)
				| Op::Action(id)
				| Op::Reboot(id)
				| Op::FactoryReset(id, _)
				| Op::ClearRev(id)
				| Op::ClearErr(id) => vec![item(*id, false, &[])],
				_ => vec![],
			},
			Replies::Scan => vec![item(1, false, &[1, 2, 3]), item(2, false, &[4, 5, 6])],
			Replies::Each(v) => v.iter().map(|&(id, n)| item(id, false, &self.reply_data(id, n))).collect(),
		}
	}
}

/// What an operation returned.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ran {
	/// The result of transmitting (for operations with one result: their write phase errors).
	pub write: Result<(), Er>,
	pub items: Vec<Res>,
	/// remaining() before the first and after every item (multi-reply reads).
	pub remaining: Vec<usize>,
	/// A size hint that excludes what remaining() said.
	pub hint: Option<String>,
}

impl Ran {
	/// The single result of an operation with at most one reply.
	pub fn one(&self) -> Res {
		match (&self.write, self.items.first()) {
			(Err(e), _) => Err(e.clone()),
			(Ok(()), Some(i)) => i.clone(),
			(Ok(()), None) => Ok(item(BROADCAST, false, &[])),
		}
	}
	pub fn all_ok(&self, expected: &[Item]) -> bool {
		self.write.is_ok() && self.items.len() == expected.len() && self.items.iter().zip(expected).all(|(a, b)| a.as_ref() == Ok(b))
	}
}

fn ping_item(r: Response<Ping>) -> Item {
	Item {
		id: r.motor_id,
		alert: r.alert,
		data: vec![r.data.model as u8, (r.data.model >> 8) as u8, r.data.firmware],
	}
}
fn unit_item(r: Response<()>) -> Item {
	item(r.motor_id, r.alert, &[])
}

/// A locally defined view of received bytes: both `From<&[u8]>` and borrowable from `[u8]`.
pub struct MyBytes(pub Vec<u8>);
impl From<&[u8]> for MyBytes {
	fn from(b: &[u8]) -> Self {
		user_code(At::Decode);
		MyBytes(b.to_vec())
	}
}
impl std::borrow::Borrow<MyBytes> for [u8] {
	fn borrow(&self) -> &MyBytes {
		user_code(At::Decode);
		Box::leak(Box::new(MyBytes(self.to_vec())))
	}
}

fn single(r: Result<Item, TransferError<VErr>>) -> Ran {
	match r {
		Ok(i) => Ran { write: Ok(()), items: vec![Ok(i)], remaining: vec![], hint: None },
		Err(TransferError::WriteError(w)) => Ran { write: Err(w.into()), items: vec![], remaining: vec![], hint: None },
		Err(TransferError::ReadError(e)) => Ran { write: Ok(()), items: vec![Err(e.into())], remaining: vec![], hint: None },
	}
}
fn only_write(r: Result<(), WriteError<VErr>>) -> Ran {
	Ran { write: r.map_err(Er::from), items: vec![], remaining: vec![], hint: None }
}

macro_rules! multi {
	($r:expr, $take:expr, $extra:expr, |$s:ident| $next:expr) => {{
		match $r {
			Err(e) => Ran { write: Err(e.into()), items: vec![], remaining: vec![], hint: None },
			Ok(mut $s) => {
				let mut items = vec![];
				let mut remaining = vec![];
				let mut hint = None;
				let mut none = 0;
				let mut look = |r: usize, (low, high): (usize, Option<usize>)| {
					remaining.push(r);
					if low > r || high.is_some_and(|h| h < r) {
						hint = Some(format!("size_hint() is ({low}, {high:?}) where remaining() is {r}"));
					}
				};
				look($s.remaining(), Iterator::size_hint(&$s));
				while items.len() < $take {
					let n: Option<Res> = $next;
					match n {
						Some(x) => {
							if none > 0 {
								crate::engine::fail("an exhausted read yields results again".into())
							}
							items.push(x)
						},
						None => {
							none += 1;
							if none > $extra {
								break;
							}
						},
					}
					look($s.remaining(), Iterator::size_hint(&$s));
					if items.len() > 100_000 {
						crate::engine::fail("more than 100000 results from one multi-reply read".into())
					}
				}
				drop($s);
				Ran { write: Ok(()), items, remaining, hint }
			},
		}
	}};
}

/// Execute the operation to the end.
pub fn run<B: AsRef<[u8]> + AsMut<[u8]>>(c: &mut Client<VPort, B>, op: &Op) -> Ran {
	run_take(c, op, usize::MAX)
}

/// Execute the operation, taking at most `take` results of a multi-reply read before dropping it.
pub fn run_take<B: AsRef<[u8]> + AsMut<[u8]>>(c: &mut Client<VPort, B>, op: &Op, take: usize) -> Ran {
	let it = |r: Response<Vec<u8>>| item(r.motor_id, r.alert, &r.data);
	fn convb(x: Result<Response<&MyBytes>, ReadError<VErr>>) -> Res {
		x.map(|r| item(r.motor_id, r.alert, &r.data.0)).map_err(Er::from)
	}
	match op {
		Op::Ping(id) => single(c.ping(*id).map(ping_item)),
		Op::Scan => match c.scan() {
			Err(e) => Ran { write: Err(e.into()), items: vec![], remaining: vec![], hint: None },
			Ok(mut s) => {
				let mut items: Vec<Res> = vec![];
				while items.len() < take {
					match s.scan_next() {
						Some(x) => items.push(x.map(ping_item).map_err(Er::from)),
						None => break,
					}
					if items.len() > 1000 {
						crate::engine::fail("more than 1000 results from one scan".into())
					}
				}
				drop(s);
				Ran { write: Ok(()), items, remaining: vec![], hint: None }
			},
		},
		Op::Read(id, a, t) => with_ty!(t, T => single(c.read::<T>(*id, *a).map(|r| Item { id: r.motor_id, alert: r.alert, data: r.data.lit_bytes() }))),
		Op::ReadVec(id, a, n) => single(c.read_bytes::<Vec<u8>>(*id, *a, *n).map(it)),
		Op::ReadSlice(id, a, n) => single(c.read_bytes::<&[u8]>(*id, *a, *n).map(|r| item(r.motor_id, r.alert, r.data))),
		Op::Write(id, a, t, v) => with_ty!(t, T => single(c.write::<T>(*id, *a, &T::lit_from(v)).map(unit_item))),
		Op::WriteBytes(id, a, v) => single(c.write_bytes(*id, *a, v).map(unit_item)),
		Op::RegWrite(id, a, t, v) => with_ty!(t, T => single(c.reg_write::<T>(*id, *a, &T::lit_from(v)).map(unit_item))),
		Op::RegWriteBytes(id, a, v) => single(c.reg_write_bytes(*id, *a, v).map(unit_item)),
		Op::Action(id) => single(c.action(*id).map(unit_item)),
		Op::BcAction => only_write(c.broadcast_action()),
		Op::Reboot(id) => single(c.reboot(*id).map(unit_item)),
		Op::BcReboot => only_write(c.broadcast_reboot()),
		Op::FactoryReset(id, k) => single(c.factory_reset(*id, reset_kind(*k)).map(unit_item)),
		Op::BcFactoryReset(k) => only_write(c.broadcast_factory_reset(reset_kind(*k))),
		Op::ClearRev(id) => single(c.clear_revolution_counter(*id).map(unit_item)),
		Op::BcClearRev => only_write(c.broadcast_clear_revolution_counter()),
		Op::ClearErr(id) => single(c.clear_error(*id).map(unit_item)),
		Op::BcClearErr => only_write(c.broadcast_clear_error()),
		Op::SyncRead(ids, a, t, via) => with_ty!(t, T => {
			let conv = |x: Result<Response<T>, ReadError<VErr>>| x.map(|r| Item { id: r.motor_id, alert: r.alert, data: r.data.lit_bytes() }).map_err(Er::from);
			match via {
				Via::Iter => multi!(c.sync_read::<T>(ids, *a), take, 2, |s| Iterator::next(&mut s).map(conv)),
				_ => multi!(c.sync_read::<T>(ids, *a), take, 2, |s| s.read_next().map(conv)),
			}
		}),
		Op::SyncReadBytes(ids, a, n, via) => {
			let conv = |x: Result<Response<Vec<u8>>, ReadError<VErr>>| x.map(it).map_err(Er::from);
			match via {
				Via::Next => multi!(c.sync_read_bytes::<Vec<u8>>(ids, *a, *n), take, 2, |s| s.read_next().map(conv)),
				Via::Iter => multi!(c.sync_read_bytes::<Vec<u8>>(ids, *a, *n), take, 2, |s| Iterator::next(&mut s).map(conv)),
				Via::Borrow => multi!(c.sync_read_bytes::<MyBytes>(ids, *a, *n), take, 2, |s| s.read_next_borrow().map(convb)),
				Via::BorrowCtor => multi!(c.sync_read_bytes_borrow::<MyBytes>(ids, *a, *n), take, 2, |s| s.read_next_borrow().map(convb)),
			}
		},
		Op::BulkRead(r, via) => {
			let reads: Vec<BulkReadData> = r.iter().map(|x| BulkReadData { motor_id: x.0, address: x.1, count: x.2 }).collect();
			let conv = |x: Result<Response<Vec<u8>>, ReadError<VErr>>| x.map(it).map_err(Er::from);
			match via {
				Via::Next => multi!(c.bulk_read_bytes::<Vec<u8>>(&reads), take, 2, |s| s.read_next().map(conv)),
				Via::Iter => multi!(c.bulk_read_bytes::<Vec<u8>>(&reads), take, 2, |s| Iterator::next(&mut s).map(conv)),
				Via::Borrow => multi!(c.bulk_read_bytes::<MyBytes>(&reads), take, 2, |s| s.read_next_borrow().map(convb)),
				Via::BorrowCtor => multi!(c.bulk_read_bytes_borrow::<MyBytes>(&reads), take, 2, |s| s.read_next_borrow().map(convb)),
			}
		},
		Op::SyncWrite(a, t, w) => with_ty!(t, T => {
			let d: Vec<SyncWriteData<T>> = w.iter().map(|(id, v)| SyncWriteData { motor_id: *id, data: T::lit_from(v) }).collect();
			only_write(c.sync_write(*a, TellingIter(d.iter())))
		}),
		Op::SyncWriteBytes(a, n, w) => {
			let d: Vec<SyncWriteData<TellingBytes>> = w.iter().map(|(id, v)| SyncWriteData { motor_id: *id, data: TellingBytes(v) }).collect();
			only_write(c.sync_write_bytes(*a, *n, TellingIter(d.iter())))
		},
		Op::BulkWrite(w) => {
			let d: Vec<BulkWriteData<TellingBytes>> =
				w.iter().map(|(id, a, v)| BulkWriteData { motor_id: *id, address: *a, data: TellingBytes(v) }).collect();
			only_write(c.bulk_write(&TellingList(d)))
		},
		Op::RawWrite(id, i, p) => only_write(c.write_instruction(*id, *i, p.len(), |b| {
			user_code(At::Encode);
			b.copy_from_slice(p);
			Ok(())
		})),
		Op::Transfer(id, i, p, n) => single(
			c.transfer_single(*id, *i, p.len(), *n, |b| {
				user_code(At::Encode);
				b.copy_from_slice(p);
				Ok(())
			})
			.map(|s| item(s.packet_id(), s.alert(), s.parameters())),
		),
	}
}

/// What a device read.
pub fn dev_raw<B: AsRef<[u8]> + AsMut<[u8]>>(d: &mut Device<VPort, B>, timeout: std::time::Duration) -> Result<(u8, u8, Vec<u8>), Er> {
	d.read_raw_instruction_timeout(timeout)
		.map(|p| (p.packet_id(), p.instruction_id(), p.parameters().to_vec()))
		.map_err(Er::from)
}

/// What a client reads as a raw status packet.
pub fn cl_status<B: AsRef<[u8]> + AsMut<[u8]>>(c: &mut Client<VPort, B>, timeout: std::time::Duration) -> Result<(u8, u8, Vec<u8>), Er> {
	c.read_status_response_timeout(timeout)
		.map(|p| (p.packet_id(), p.error(), p.parameters().to_vec()))
		.map_err(Er::from)
}

/// A representative operation of every kind.
pub fn representative_ops() -> Vec<Op> {
	vec![
		Op::Ping(3),
		Op::Scan,
		Op::Read(3, 0x0102, Ty::U32),
		Op::Read(3, 0x0102, Ty::A3),
		Op::ReadVec(3, 0x0102, 5),
		Op::ReadSlice(3, 0x0102, 2),
		Op::Write(3, 0x0102, Ty::U16, vec![0x11, 0x22]),
		Op::WriteBytes(3, 0x0102, vec![1, 2, 3]),
		Op::RegWrite(3, 0x0102, Ty::U32, vec![0x11, 0x22, 0x33, 0x44]),
		Op::RegWriteBytes(3, 0x0102, vec![1, 2, 3]),
		Op::Action(3),
		Op::Reboot(3),
		Op::FactoryReset(3, 0xFF),
		Op::ClearRev(3),
		Op::ClearErr(3),
		Op::SyncRead(vec![3, 1], 0x0102, Ty::U16, Via::Next),
		Op::SyncReadBytes(vec![3, 1], 0x0102, 3, Via::Next),
		Op::SyncReadBytes(vec![3, 1], 0x0102, 3, Via::BorrowCtor),
		Op::BulkRead(vec![(3, 0x0102, 2), (1, 0x0304, 4)], Via::Next),
		Op::Transfer(3, READ, vec![1, 2, 3, 4], 4),
	]
}
/// Operations that never await a reply.
pub fn silent_ops() -> Vec<Op> {
	vec![
		Op::WriteBytes(BROADCAST, 0x0102, vec![1, 2, 3]),
		Op::Write(BROADCAST, 0x0102, Ty::U32, vec![1, 2, 3, 4]),
		Op::RegWriteBytes(BROADCAST, 0x0102, vec![1, 2, 3]),
		Op::RegWrite(BROADCAST, 0x0102, Ty::U16, vec![1, 2]),
		Op::Action(BROADCAST),
		Op::Reboot(BROADCAST),
		Op::FactoryReset(BROADCAST, 1),
		Op::ClearRev(BROADCAST),
		Op::ClearErr(BROADCAST),
		Op::BcAction,
		Op::BcReboot,
		Op::BcFactoryReset(2),
		Op::BcClearRev,
		Op::BcClearErr,
		Op::SyncWrite(0x0102, Ty::U16, vec![(3, vec![1, 2]), (1, vec![3, 4])]),
		Op::SyncWriteBytes(0x0102, 2, vec![(3, vec![1, 2]), (1, vec![3, 4])]),
		Op::BulkWrite(vec![(3, 0x0102, vec![1, 2]), (1, 0x0304, vec![5])]),
		Op::RawWrite(3, 0x42, vec![1, 2, 3]),
	]
}

/// Judge one result of a read against what the reference receiver says arrived.
/// `id`: the motor that was asked (if any), `count`: the number of parameters that is required (if any).
pub fn judge(id: Option<u8>, count: Option<usize>, rx: &Rx, got: &Res) -> Result<(), String> {
	let want: String = match rx {
		Rx::Nothing => {
			if *got == Err(Er::Io(VErr::Timeout)) {
				return Ok(());
			}
			"the timeout error of the port".into()
		},
		Rx::TooBig { need, have } => {
			if *got == Err(Er::BufferFull { required: *need, total: *have }) {
				return Ok(());
			}
			format!("a buffer-full error ({need} needed, {have} available)")
		},
		Rx::BadChecksum { message, computed } => {
			if *got == Err(Er::Checksum { message: *message, computed: *computed }) {
				return Ok(());
			}
			format!("an invalid checksum error (message {message:04X}, computed {computed:04X})")
		},
		Rx::Malformed => {
			if matches!(got, Err(e) if e.is_invalid_message()) {
				return Ok(());
			}
			"an invalid message error".into()
		},
		Rx::Packet { id: from, inst, .. } if *inst != STATUS => {
			if *got == Err(Er::Instr { actual: *inst, expected: STATUS }) {
				return Ok(());
			}
			if id.is_some_and(|x| x != *from) && *got == Err(Er::PacketId { actual: *from, expected: id }) {
				return Ok(());
			}
			format!("an invalid instruction error ({inst:02X} instead of 55)")
		},
		Rx::Packet { id: from, params, .. } => {
			let (err, data) = (params[0], &params[1..]);
			let id_ok = id.is_none_or(|x| x == *from);
			let motor = err & 0x7F != 0;
			let count_ok = count.is_none_or(|n| n == data.len());
			let is_motor = *got == Err(Er::Motor(err));
			let is_id = *got == Err(Er::PacketId { actual: *from, expected: id });
			let is_count = matches!(got, Err(Er::Count { actual, expected }) if *actual == data.len() && *expected == format!("Exact({})", count.unwrap_or(0)));
			match (id_ok, motor, count_ok) {
				(true, false, true) => {
					let w = item(*from, err & 0x80 != 0, data);
					if *got == Ok(w.clone()) {
						return Ok(());
					}
					format!("success {w:02X?}")
				},
				(true, true, _) => {
					if is_motor {
						return Ok(());
					}
					format!("motor error {err:02X}")
				},
				(true, false, false) => {
					if is_count {
						return Ok(());
					}
					format!("an invalid parameter count error ({} instead of {count:?})", data.len())
				},
				(false, m, c) => {
					if is_id || (m && is_motor) || (!c && is_count) {
						return Ok(());
					}
					format!("an invalid packet ID error ({from} instead of {id:?})")
				},
			}
		},
	};
	Err(format!("got {got:02X?}, expected {want}"))
}

/// Judge the raw reading of a status packet: (packet ID, error byte, parameters).
pub fn judge_status(rx: &Rx, got: &Result<(u8, u8, Vec<u8>), Er>) -> Result<(), String> {
	let g: Res = match got {
		Ok((id, e, p)) => {
			if e & 0x7F != 0 {
				return Err(format!("a status packet with error {e:02X} was returned as success"));
			}
			Ok(item(*id, e & 0x80 != 0, p))
		},
		Err(e) => Err(e.clone()),
	};
	judge(None, None, rx, &g)
}

/// Judge the raw reading of an instruction by a device; the caller has already skipped status packets in the reference.
pub fn judge_instruction(rx: &Rx, got: &Result<(u8, u8, Vec<u8>), Er>) -> Result<(), String> {
	match rx {
		Rx::Packet { id, inst, params } => {
			if *got == Ok((*id, *inst, params.clone())) {
				return Ok(());
			}
			Err(format!("got {got:02X?}, expected instruction {inst:02X} for {id} with {params:02X?}"))
		},
		other => match got {
			Ok(p) => Err(format!("got packet {p:02X?}, expected an error ({other:02X?})")),
			Err(e) => judge(None, None, other, &Err(e.clone())),
		},
	}
}

/// The next thing a device should report, skipping valid status packets.
pub fn next_for_device(r: &mut RefRx) -> Rx {
	loop {
		match r.next() {
			Rx::Packet { inst: STATUS, .. } => continue,
			x => return x,
		}
	}
}

/// Bytes handed out by the port, in order, per read; `before[i]` is what had been handed out before read i.
pub fn check_no_needless_read(log: &[Ev], stream: &[u8], delivered: &mut usize, rx: &mut RefRx, device: bool) -> Result<(), String> {
	// `rx` is the reference receiver in the state after the previous result.
	for e in log {
		if let Ev::Read { res, .. } = e {
			let mut probe = RefRx { data: stream[..*delivered].to_vec(), pos: rx.pos.min(*delivered), buf: rx.buf };
			let n = if device { next_for_device(&mut probe) } else { probe.next() };
			if n != Rx::Nothing {
				return Err(format!("the port was asked for more data although a complete frame had been received ({n:02X?})"));
			}
			if let Ok(n) = res {
				*delivered += n;
			}
		}
	}
	Ok(())
}

/// The number of kinds of answers.
pub const ODD_ANSWERS: usize = 16;
/// What may be received in answer to an operation: kind 0 is nothing, kind 1 what it waits for.
pub fn odd_answer(op: &Op, kind: usize) -> Vec<In> {
	let good = op.good_replies();
	let (id, n) = match op.replies() {
		Replies::Each(w) => w[0],
		Replies::Scan => (1, 3),
		Replies::None => (3, 0),
	};
	let ok = status(id, 0, &op.reply_data(id, n));
	let b = |x: Vec<u8>| vec![In::Bytes(x)];
	match kind {
		0 => vec![],
		1 => b(good.concat()),
		2 => b(bad_crc(ok)),
		3 => b(status(id ^ 1, 0, &op.reply_data(id, n))),
		4 => b(status(id, 0, &op.reply_data(id, n + 1))),
		5 => b(status(id, 0, &[])),
		6 => b(status(id, 0x07, &[])),
		7 => b(status(id, 0x80, &op.reply_data(id, n))),
		8 => b(frame(id, PING, &[])),
		9 => b(op.tx_frame()),
		10 => b(short_frame(id, 2)),
		11 => b(frame_raw(id, &[STATUS])),
		12 => b(frame_with_len(id, 0xFFFF, &[])),
		13 => b(ok[..ok.len() - 1].to_vec()),
		14 => [vec![In::Zero, In::Bytes(ok[..5].to_vec()), In::Err(VErr::Timeout)], b(ok[5..].to_vec())].concat(),
		_ => vec![In::Err(VErr::Fault(3)), In::Bytes(good.concat())],
	}
}

/// Enough commands for a 16-bit counter to overflow, also if it only counts a part of what happens.
pub const MANY: usize = 150_000;

/// What a session compares.
pub const TX: u8 = 1;
pub const RESULT: u8 = 2;
pub const TIME: u8 = 4;

/// What the line sees of a command: transmissions and deadlines.
fn seen(log: Vec<Ev>, what: u8) -> Vec<Ev> {
	let mut v = vec![];
	for e in log {
		match e {
			Ev::Deadline(d) if what & TIME != 0 => v.push(Ev::Deadline(VInst { n: 0, timeout: d.timeout })),
			e @ (Ev::Write(..) | Ev::Discard(_)) if what & TX != 0 => v.push(e),
			_ => {},
		}
	}
	v
}

/// `n` commands by one client, every `bad`-th of them unanswered: each is transmitted, awaited and answered as if it were the first one.
pub fn session(cx: &crate::engine::Cx, ops: &[Op], n: usize, stride: usize, bad: usize, what: u8) {
	let frag = if stride % 2 == 0 { Frag::Max(9) } else { Frag::All };
	let reply: std::rc::Rc<std::cell::RefCell<Vec<u8>>> = Default::default();
	let make = || {
		let port = VPort::new(cx).frag(frag);
		let r = reply.clone();
		port.on_frame(move |_, q| {
			if !r.borrow().is_empty() {
				q.push_back(In::Bytes(r.borrow().clone()));
			}
		});
		(client(&port, 48, 64), port)
	};
	// Nothing, what is expected, or data that looks like the header of a large frame.
	let answers: Vec<[(Vec<u8>, Option<Vec<Item>>); 3]> = ops
		.iter()
		.map(|op| {
			let sly: Vec<(u8, Vec<u8>)> = match op.replies() {
				Replies::Each(v) => v.iter().map(|x| (x.0, HEADER.iter().chain(&[1, 0x30, 0, 0x55]).cycle().take(x.1).copied().collect())).collect(),
				Replies::Scan => vec![(7, HEADER[..3].to_vec()), (5, HEADER[1..].to_vec())],
				Replies::None => vec![],
			};
			let silent = matches!(op.replies(), Replies::None);
			[
				(vec![], silent.then(|| op.good_items())),
				(op.good_replies().concat(), Some(op.good_items())),
				(
					sly.iter().flat_map(|x| status(x.0, 0x80, &x.1)).collect(),
					Some(if silent { op.good_items() } else { sly.iter().map(|x| item(x.0, true, &x.1)).collect() }),
				),
			]
		})
		.collect();
	let first: Vec<[(Ran, Vec<Ev>); 3]> = ops
		.iter()
		.zip(&answers)
		.map(|(op, a)| {
			std::array::from_fn(|k| {
				*reply.borrow_mut() = a[k].0.clone();
				let (mut c, port) = make();
				port.fresh();
				let ran = run(&mut c, op);
				if let Some(w) = a[k].1.as_ref().filter(|_| what & RESULT != 0) {
					if !(ran.all_ok(w) || matches!(op.replies(), Replies::None) && ran.write.is_ok()) {
						crate::engine::fail(format!("{op:?}, the first command: {ran:02X?} instead of {w:02X?}"));
					}
				}
				let log = seen(port.fresh(), what);
				(ran, log)
			})
		})
		.collect();
	let (mut c, port) = make();
	port.fresh();
	for k in 0..n {
		let j = (k * stride + k / ops.len()) % ops.len();
		let how = if k % bad == bad - 1 { 0 } else { 1 + k / 3 % 2 };
		*reply.borrow_mut() = answers[j][how].0.clone();
		let got = run(&mut c, &ops[j]);
		let want = &first[j][how];
		if what & RESULT != 0 && got != want.0 {
			crate::engine::fail(format!("{:?} as command number {k}: {got:02X?} instead of {:02X?}", ops[j], want.0));
		}
		let log = seen(port.fresh(), what);
		if log != want.1 {
			crate::engine::fail(format!("{:?} as command number {k}: {log:02X?} instead of {:02X?}", ops[j], want.1));
		}
	}
	cx.outcome(&n);
}

/// The device counterpart: `n` times the same pieces arrive, are read and answered.
pub fn device_session(cx: &crate::engine::Cx, pieces: &[Vec<u8>], n: usize, stride: usize, frag: Frag) {
	const T: std::time::Duration = std::time::Duration::from_millis(5);
	let port = VPort::new(cx).frag(frag);
	let mut d = device(&port, 48, 64);
	port.fresh();
	for k in 0..n {
		let s = &pieces[k * stride % pieces.len()];
		port.feed(s);
		let mut rx = RefRx::over(48, s);
		loop {
			let want = next_for_device(&mut rx);
			let got = dev_raw(&mut d, T);
			if let Err(e) = judge_instruction(&want, &got) {
				crate::engine::fail(format!("device, piece number {k} ({}): {e}", hex(s)));
			}
			if want == Rx::Nothing {
				break;
			}
		}
		port.fresh();
		let p = [k as u8, 0xFF, 0xFF, 0xFD];
		let r = d.write_status(7, 0x80, k % 5, |b| {
			b.copy_from_slice(&p[..k % 5]);
			Ok(())
		});
		let want = status(7, 0x80, &p[..k % 5]);
		if r.is_err() || port.written() != want {
			crate::engine::fail(format!("device, answer number {k}: {r:?}, transmitted {}, expected {}", hex(&port.written()), hex(&want)));
		}
		port.fresh();
	}
	cx.outcome(&n);
}

/// `n` pieces received by one client as raw status packets.
pub fn client_session(cx: &crate::engine::Cx, pieces: &[Vec<u8>], n: usize, stride: usize, frag: Frag) {
	const T: std::time::Duration = std::time::Duration::from_millis(5);
	let port = VPort::new(cx).frag(frag);
	let mut c = client(&port, 48, 64);
	port.fresh();
	for k in 0..n {
		let s = &pieces[k * stride % pieces.len()];
		port.feed(s);
		let mut rx = RefRx::over(48, s);
		loop {
			let want = rx.next();
			let got = cl_status(&mut c, T);
			if let Err(e) = judge_status(&want, &got) {
				crate::engine::fail(format!("client, piece number {k} ({}): {e}", hex(s)));
			}
			if want == Rx::Nothing {
				break;
			}
		}
		port.fresh();
	}
	cx.outcome(&n);
}

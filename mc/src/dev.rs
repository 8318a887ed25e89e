//! The device side: instructions in normal form, and their reference decoding.

use crate::refmodel::*;
use dynamixel2::{Clear, FactoryReset, Instructions};

/// A decoded instruction. Reset and clear kinds carry 0x100 if they were reported as unknown.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ins {
	Ping,
	Read(u16, u16),
	Write(u16, Vec<u8>),
	RegWrite(u16, Vec<u8>),
	Action,
	Reset(u16),
	Reboot,
	Clear(u16),
	SyncRead(u16, u16, Vec<u8>),
	SyncWrite(u16, u16, Vec<u8>),
	BulkRead(Vec<u8>),
	BulkWrite(Vec<u8>),
	Unknown(u8, Vec<u8>),
}

impl Ins {
	pub fn from_real<T: AsRef<[u8]>>(i: &Instructions<T>) -> Ins {
		let v = |t: &T| t.as_ref().to_vec();
		match i {
			Instructions::Ping => Ins::Ping,
			Instructions::Read { address, length } => Ins::Read(*address, *length),
			Instructions::Write { address, parameters } => Ins::Write(*address, v(parameters)),
			Instructions::RegWrite { address, parameters } => Ins::RegWrite(*address, v(parameters)),
			Instructions::Action => Ins::Action,
			Instructions::FactoryReset(FactoryReset::All) => Ins::Reset(0xFF),
			Instructions::FactoryReset(FactoryReset::ExceptId) => Ins::Reset(1),
			Instructions::FactoryReset(FactoryReset::ExceptIdBaudRate) => Ins::Reset(2),
			Instructions::FactoryReset(FactoryReset::Unknown(p)) => Ins::Reset(0x100 | *p as u16),
			Instructions::Reboot => Ins::Reboot,
			Instructions::Clear(Clear::MultiTurns) => Ins::Clear(1),
			Instructions::Clear(Clear::Errors) => Ins::Clear(2),
			Instructions::Clear(Clear::Reserved(p)) => Ins::Clear(0x100 | *p as u16),
			Instructions::SyncRead { address, length, ids } => Ins::SyncRead(*address, *length, v(ids)),
			Instructions::SyncWrite { address, length, parameters } => Ins::SyncWrite(*address, *length, v(parameters)),
			Instructions::BulkRead { parameters } => Ins::BulkRead(v(parameters)),
			Instructions::BulkWrite { parameters } => Ins::BulkWrite(v(parameters)),
			Instructions::Unknown { instruction, parameters } => Ins::Unknown(*instruction, v(parameters)),
		}
	}

	/// What an instruction packet means; `None` if its number of parameters is invalid.
	pub fn decode(inst: u8, p: &[u8]) -> Option<Ins> {
		let a = |k: usize| p[k] as u16 | (p[k + 1] as u16) << 8;
		let n = p.len();
		Some(match inst {
			PING => Ins::Ping,
			READ if n == 4 => Ins::Read(a(0), a(2)),
			WRITE if n >= 2 => Ins::Write(a(0), p[2..].to_vec()),
			REG_WRITE if n >= 2 => Ins::RegWrite(a(0), p[2..].to_vec()),
			ACTION => Ins::Action,
			FACTORY_RESET if n == 1 => Ins::Reset(if matches!(p[0], 1 | 2 | 0xFF) { p[0] as u16 } else { 0x100 | p[0] as u16 }),
			REBOOT => Ins::Reboot,
			CLEAR if n >= 1 => Ins::Clear(if matches!(p[0], 1 | 2) { p[0] as u16 } else { 0x100 | p[0] as u16 }),
			SYNC_READ if n >= 4 => Ins::SyncRead(a(0), a(2), p[4..].to_vec()),
			SYNC_WRITE if n >= 4 => Ins::SyncWrite(a(0), a(2), p[4..].to_vec()),
			BULK_READ => Ins::BulkRead(p.to_vec()),
			BULK_WRITE => Ins::BulkWrite(p.to_vec()),
			READ | WRITE | REG_WRITE | FACTORY_RESET | CLEAR | SYNC_READ | SYNC_WRITE => return None,
			i => Ins::Unknown(i, p.to_vec()),
		})
	}
}

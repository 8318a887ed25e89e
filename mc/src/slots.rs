//! Replies of several motors to one instruction, and what a strictly sequential reader must make of them.

use crate::ops::*;
use crate::port::*;
use crate::refmodel::*;
use std::collections::VecDeque;

/// The reference for reading from a port: bytes through the reference receiver, errors as they come.
#[derive(Clone, Debug)]
pub struct RefPort {
	pub input: VecDeque<In>,
	pub rx: RefRx,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Got {
	Rx(Rx),
	Io(VErr),
}
impl RefPort {
	pub fn new(buf: usize, input: &[In]) -> Self {
		RefPort { input: input.iter().cloned().collect(), rx: RefRx::new(buf) }
	}
	pub fn next(&mut self) -> Got {
		loop {
			match self.rx.next() {
				Rx::Nothing => {},
				x => return Got::Rx(x),
			}
			match self.input.pop_front() {
				None => return Got::Io(VErr::Timeout),
				Some(In::Err(e)) => return Got::Io(e),
				Some(In::Zero) => {},
				Some(In::Bytes(b)) => self.rx.feed(&b),
			}
		}
	}
}
pub fn judge_got(id: Option<u8>, count: Option<usize>, want: &Got, res: &Res) -> Result<(), String> {
	match want {
		Got::Rx(rx) => judge(id, count, rx, res),
		Got::Io(e) if *res == Err(Er::Io(*e)) => Ok(()),
		Got::Io(e) => Err(format!("got {res:02X?}, expected the error {e:?} of the port")),
	}
}

/// What a motor does when it is its turn.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Beh {
	Good,
	Alert,
	/// Its reply slot passes with a timeout.
	Silent,
	/// A timeout in the middle of its reply.
	Slow,
	/// No reply, and the next motor answers at once.
	Missing,
	/// Answers with the ID of the next motor in the list.
	NextId,
	ForeignId,
	More,
	Fewer,
	Error,
	AlertError,
	BadCrc,
	Instruction,
	Short,
	NoErrorByte,
	Twice,
	Fault,
	TooBig,
	Noise,
	/// Half of its reply is lost, then a timeout.
	Half,
	/// Good parameters that contain the header pattern.
	Stuffed,
}
pub const BEHS: [Beh; 21] = [
	Beh::Good, Beh::Alert, Beh::Silent, Beh::Slow, Beh::Missing, Beh::NextId, Beh::ForeignId, Beh::More, Beh::Fewer, Beh::Error, Beh::AlertError,
	Beh::BadCrc, Beh::Instruction, Beh::Short, Beh::NoErrorByte, Beh::Twice, Beh::Fault, Beh::TooBig, Beh::Noise, Beh::Half, Beh::Stuffed,
];

/// The data a motor in a given position of the request holds.
pub fn data_of(pos: usize, id: u8, n: usize) -> Vec<u8> {
	(0..n).map(|k| (id as usize * 37 + pos * 101 + k * 11 + 5) as u8).collect()
}

/// The input caused by one motor.
pub fn act(b: Beh, pos: usize, want: &[(u8, usize)]) -> Vec<In> {
	let (id, n) = want[pos];
	let next = want.get(pos + 1).or(want.first()).map_or(9, |x| x.0);
	let d = data_of(pos, id, n);
	let by = |f: Vec<u8>| vec![In::Bytes(f)];
	match b {
		Beh::Good => by(status(id, 0, &d)),
		Beh::Alert => by(status(id, 0x80, &d)),
		Beh::Silent => vec![In::Err(VErr::Timeout)],
		Beh::Slow => {
			let f = status(id, 0, &d);
			vec![In::Bytes(f[..9].to_vec()), In::Err(VErr::Timeout), In::Bytes(f[9..].to_vec())]
		},
		Beh::Missing => vec![],
		Beh::NextId => by(status(next, 0, &d)),
		Beh::ForeignId => by(status(0x63, 0, &d)),
		Beh::More => by(status(id, 0, &data_of(pos, id, n + 1))),
		Beh::Fewer if n > 0 => by(status(id, 0, &d[1..])),
		Beh::Fewer => by(status(id, 0, &[1, 2, 3])),
		Beh::Error => by(status(id, 0x03, &d)),
		Beh::AlertError => by(status(id, 0x87, &[])),
		Beh::BadCrc => by(bad_crc(status(id, 0, &d))),
		Beh::Instruction => {
			let mut p = vec![0];
			p.extend(d);
			by(frame(id, READ, &p))
		},
		Beh::Short => by(short_frame(id, 2)),
		Beh::NoErrorByte => by(frame_raw(id, &[STATUS])),
		Beh::Twice => by([status(id, 0, &d), status(id, 0, &d)].concat()),
		Beh::Fault => vec![In::Err(VErr::Fault(pos as u32 + 1))],
		Beh::TooBig => by(status(id, 0, &[7; 300])),
		Beh::Noise => by([vec![0xFF, 0xFF, 0xFD, 0x01, 0xFF], status(id, 0, &d)].concat()),
		Beh::Half => {
			let f = status(id, 0, &d);
			vec![In::Bytes(f[..6].to_vec()), In::Err(VErr::Timeout)]
		},
		Beh::Stuffed => by(status(id, 0, &(0..n).map(|k| [0xFF, 0xFF, 0xFD, 0x00][k % 4]).collect::<Vec<u8>>())),
	}
}

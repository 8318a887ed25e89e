//! A client or device in a scenario with others, or with code of the user that misbehaves.

use crate::*;
use dynamixel2::{Client, Device};
use std::time::Duration;

const T: Duration = Duration::from_millis(3);
pub type B = TellingBuffer;

#[derive(Clone, PartialEq, Debug)]
pub enum Act {
	/// A client executes this operation. The answer: 0 good, 1 damaged, 2 none, 3 in pieces.
	Op(Op, u8),
	/// A client reads the status packets that were received without being asked for.
	Status(Vec<u8>),
	/// A device receives these packets, and answers each instruction with what it contains.
	Serve(Vec<Vec<u8>>),
	SetBaud(u32),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Task {
	pub device: bool,
	pub baud: u32,
	pub rbuf: usize,
	pub wbuf: usize,
	pub acts: Vec<Act>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Line {
	Ran(Ran),
	Got(Result<(u8, u8, Vec<u8>), Er>),
	Sent(Result<(), Er>),
	Baud(Result<(), VErr>, u32),
	Panicked(String),
}
pub type Transcript = (Vec<Line>, Vec<Ev>);

pub enum Party {
	Client(Client<VPort, B>),
	Device(Device<VPort, B>),
}
pub struct Live {
	pub port: VPort,
	pub party: Party,
	pub lines: Vec<Line>,
}
impl Live {
	pub fn new(cx: &Cx, t: &Task) -> Live {
		let port = VPort::new(cx).baud(t.baud);
		let (r, w) = (TellingBuffer(vec![0xA5; t.rbuf]), TellingBuffer(vec![0xA5; t.wbuf]));
		let party = match t.device {
			false => Party::Client(Client::with_buffers(port.clone(), r, w).unwrap_or_else(|e| fail(format!("constructing a client failed: {e:?}")))),
			true => Party::Device(Device::with_buffers(port.clone(), r, w).unwrap_or_else(|e| fail(format!("constructing a device failed: {e:?}")))),
		};
		Live { port, party, lines: vec![] }
	}
	pub fn act(&mut self, cx: &Cx, a: &Act) {
		let r = cx.catch(|| self.act_uncaught(a));
		if let Err(e) = r {
			self.lines.push(Line::Panicked(e));
		}
	}
	pub fn act_uncaught(&mut self, a: &Act) {
		let Live { port, party, lines } = self;
		match (party, a) {
			(Party::Client(c), Act::Op(op, answer)) => {
				let good = op.good_replies();
				let input: Vec<In> = match answer {
					0 => vec![In::Bytes(good.concat())],
					1 => good.into_iter().enumerate().map(|(i, f)| In::Bytes(if i == 0 { bad_crc(f) } else { f })).collect(),
					2 => vec![],
					_ => good.into_iter().flat_map(|f| [In::Bytes(f[..5].to_vec()), In::Zero, In::Bytes(f[5..].to_vec())]).collect(),
				};
				port.set_frag(if *answer == 3 { Frag::Items } else { Frag::All });
				port.replies(vec![input.into_iter().filter(|i| *i != In::Bytes(vec![])).collect()]);
				lines.push(Line::Ran(run(c, op)));
			},
			(Party::Client(c), Act::Status(bytes)) => {
				port.feed(bytes);
				lines.push(Line::Got(cl_status(c, T)));
			},
			(Party::Device(d), Act::Serve(packets)) => {
				for p in packets {
					port.feed(p);
				}
				for _ in packets {
					let got = dev_raw(d, T);
					lines.push(Line::Got(got.clone()));
					if let Ok((id, inst, params)) = got {
						let r = d.write_status(id, inst, params.len(), |b| {
							user_code(At::Encode);
							b.copy_from_slice(&params);
							Ok(())
						});
						lines.push(Line::Sent(r.map_err(Er::from)));
					}
				}
			},
			(Party::Client(c), Act::SetBaud(b)) => lines.push(Line::Baud(c.set_baud_rate(*b), c.baud_rate())),
			(Party::Device(c), Act::SetBaud(b)) => lines.push(Line::Baud(c.set_baud_rate(*b), c.baud_rate())),
			_ => engine_error("act of another party".into()),
		}
	}
	pub fn end(self) -> Transcript {
		(self.lines, self.port.log())
	}
}
pub fn perform(cx: &Cx, t: &Task) -> Transcript {
	let mut l = Live::new(cx, t);
	for a in &t.acts {
		l.act(cx, a);
	}
	l.end()
}

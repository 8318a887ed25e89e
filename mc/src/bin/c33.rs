//! C33: errors and packet views say exactly what was received.
use dynamixel2::{BufferTooSmallError, ExpectedCount, InvalidChecksum, InvalidHeaderPrefix, InvalidInstruction, InvalidMessage, InvalidPacketId, InvalidParameterCount, MotorError, ReadError, TransferError, WriteError};
use dynamixel2::instructions::Ping;
use dynamixel2::Response;
use mc::*;
use std::fmt::{Debug, Display};

/// Error of a serial port, with a text of its own.
#[derive(Debug, Clone, PartialEq)]
struct Broken(String);
impl Display for Broken {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}

/// What an error says, independent of how general its type is.
#[derive(Debug, Clone, PartialEq)]
enum Leaf {
	Prefix([u8; 4], [u8; 4]),
	Checksum(u16, u16),
	Id(u8, Option<u8>),
	Instr(u8, u8),
	Count(usize, ExpectedCount),
	Motor(u8),
	Small(usize, usize),
	Full(usize, usize),
	Discard(Broken),
	Write(Broken),
	Read(Broken),
}
fn of_message(e: &InvalidMessage) -> Leaf {
	match e {
		InvalidMessage::InvalidHeaderPrefix(e) => Leaf::Prefix(e.actual, e.expected),
		InvalidMessage::InvalidChecksum(e) => Leaf::Checksum(e.message, e.computed),
		InvalidMessage::InvalidPacketId(e) => Leaf::Id(e.actual, e.expected),
		InvalidMessage::InvalidInstruction(e) => Leaf::Instr(e.actual, e.expected),
		InvalidMessage::InvalidParameterCount(e) => Leaf::Count(e.actual, e.expected.clone()),
	}
}
fn of_read(e: &ReadError<Broken>) -> Leaf {
	match e {
		ReadError::BufferFull(e) => Leaf::Full(e.required_size, e.total_size),
		ReadError::Io(e) => Leaf::Read(e.clone()),
		ReadError::InvalidMessage(e) => of_message(e),
		ReadError::MotorError(e) => Leaf::Motor(e.raw),
	}
}
fn of_write(e: &WriteError<Broken>) -> Leaf {
	match e {
		WriteError::BufferTooSmall(e) => Leaf::Small(e.required_size, e.total_size),
		WriteError::DiscardBuffer(e) => Leaf::Discard(e.clone()),
		WriteError::Write(e) => Leaf::Write(e.clone()),
	}
}
fn of_transfer(e: &TransferError<Broken>) -> Leaf {
	match e {
		TransferError::WriteError(e) => of_write(e),
		TransferError::ReadError(e) => of_read(e),
	}
}

/// Words of a text.
fn words(text: &str) -> Vec<String> {
	text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_ascii_lowercase()).collect()
}
/// Does the word denote the number, in decimal or hexadecimal?
fn is(word: &str, n: u128) -> bool {
	word.parse() == Ok(n) || u128::from_str_radix(word.strip_prefix("0x").unwrap_or(word), 16) == Ok(n)
}
fn numeric(word: &str) -> bool {
	word.starts_with(|c: char| c.is_ascii_digit())
}
/// The text must name the number, and if it uses the marker word, the first number after it must be this one.
fn names(text: &str, marker: &[&str], n: u128) {
	let w = words(text);
	vassert!(w.iter().any(|w| is(w, n)), "the text {text:?} does not name {n} (0x{n:X})");
	for m in marker {
		if let Some(at) = w.iter().position(|w| w == m) {
			if let Some(first) = w[at + 1..].iter().find(|w| numeric(w)) {
				vassert!(is(first, n), "the text {text:?} gives {first} as {m:?}, which is {n} (0x{n:X})");
			}
		}
	}
}
fn names_bytes(text: &str, marker: &str, b: [u8; 4]) {
	let w = words(text);
	let hex = |w: &String, b: u8| u8::from_str_radix(w.strip_prefix("0x").unwrap_or(w), 16) == Ok(b) || w.parse() == Ok(b);
	let at = |w: &[String]| w.len() >= 4 && w.iter().zip(b).all(|(w, b)| hex(w, b));
	vassert!(w.windows(4).any(|w| at(w)), "the text {text:?} does not show {b:02X?}");
	if let Some(i) = w.iter().position(|w| w == marker) {
		vassert!(i + 5 <= w.len() && at(&w[i + 1..i + 5]), "the text {text:?} shows something else as {marker:?}, which is {b:02X?}");
	}
}
fn check_text(leaf: &Leaf, text: &str) {
	match leaf {
		Leaf::Prefix(actual, expected) => {
			names_bytes(text, "expected", *expected);
			names_bytes(text, "got", *actual);
		},
		Leaf::Checksum(message, computed) => {
			names(text, &["claims"], *message as u128);
			names(text, &["computed"], *computed as u128);
		},
		Leaf::Id(actual, expected) => {
			names(text, &["got"], *actual as u128);
			if let Some(e) = expected {
				names(text, &["expected"], *e as u128);
			}
		},
		Leaf::Instr(actual, expected) => {
			names(text, &["got"], *actual as u128);
			names(text, &["expected"], *expected as u128);
		},
		Leaf::Count(actual, expected) => {
			names(text, &["got"], *actual as u128);
			let (ExpectedCount::Exact(e) | ExpectedCount::Max(e) | ExpectedCount::Min(e)) = expected;
			names(text, &["expected"], *e as u128);
		},
		Leaf::Motor(raw) => names(text, &[], *raw as u128),
		Leaf::Small(required, total) | Leaf::Full(required, total) => {
			names(text, &["need", "needs", "required", "require"], *required as u128);
			names(text, &["size", "total"], *total as u128);
		},
		Leaf::Discard(e) | Leaf::Write(e) | Leaf::Read(e) => vassert!(text.contains(&e.0), "the text {text:?} does not contain that of the serial port error, {:?}", e.0),
	}
}
fn text<E: std::error::Error>(leaf: &Leaf, e: &E) -> String {
	let t = e.to_string();
	check_text(leaf, &t);
	vassert!(!format!("{e:?}").is_empty(), "no debug text");
	t
}
fn same(what: &str, got: Leaf, want: &Leaf) {
	vassert!(got == *want, "{what}: {want:02X?} becomes {got:02X?}");
}
/// Everything that can be made of an error of a received message.
fn message_routes<E>(cx: &Cx, leaf: &Leaf, e: E)
where
	E: std::error::Error + Clone + Into<InvalidMessage> + Into<ReadError<Broken>> + Into<TransferError<Broken>>,
{
	text(leaf, &e);
	let m: InvalidMessage = e.clone().into();
	same("as an invalid message", of_message(&m), leaf);
	text(leaf, &m);
	let r: ReadError<Broken> = e.clone().into();
	same("as a read error", of_read(&r), leaf);
	text(leaf, &r);
	let t: TransferError<Broken> = e.into();
	same("as a transfer error", of_transfer(&t), leaf);
	vassert!(matches!(t, TransferError::ReadError(_)), "as a transfer error: not an error of reading: {t:?}");
	text(leaf, &t);
	let r: ReadError<Broken> = m.clone().into();
	same("as an invalid message as a read error", of_read(&r), leaf);
	let t: TransferError<Broken> = r.into();
	same("as a read error as a transfer error", of_transfer(&t), leaf);
	let t: TransferError<Broken> = m.into();
	same("as an invalid message as a transfer error", of_transfer(&t), leaf);
	text(leaf, &t);
	cx.outcome(&std::mem::discriminant(leaf));
}
fn read_routes(cx: &Cx, leaf: &Leaf, make: impl Fn() -> ReadError<Broken>) {
	same("read error", of_read(&make()), leaf);
	text(leaf, &make());
	let t: TransferError<Broken> = make().into();
	same("as a transfer error", of_transfer(&t), leaf);
	vassert!(matches!(t, TransferError::ReadError(_)), "a read error becomes {t:?}");
	text(leaf, &t);
	cx.outcome(&std::mem::discriminant(leaf));
}
fn write_routes(cx: &Cx, leaf: &Leaf, make: impl Fn() -> WriteError<Broken>) {
	same("write error", of_write(&make()), leaf);
	text(leaf, &make());
	let t: TransferError<Broken> = make().into();
	same("as a transfer error", of_transfer(&t), leaf);
	vassert!(matches!(t, TransferError::WriteError(_)), "a write error becomes {t:?}");
	text(leaf, &t);
	cx.outcome(&std::mem::discriminant(leaf));
}
fn message_leaf(cx: &Cx, leaf: &Leaf) {
	match leaf.clone() {
		Leaf::Prefix(actual, expected) => message_routes(cx, leaf, InvalidHeaderPrefix { actual, expected }),
		Leaf::Checksum(message, computed) => message_routes(cx, leaf, InvalidChecksum { message, computed }),
		Leaf::Id(actual, expected) => message_routes(cx, leaf, InvalidPacketId { actual, expected }),
		Leaf::Instr(actual, expected) => message_routes(cx, leaf, InvalidInstruction { actual, expected }),
		Leaf::Count(actual, expected) => message_routes(cx, leaf, InvalidParameterCount { actual, expected }),
		_ => unreachable!(),
	}
}

/// An expectation that the actual count meets is no reason for an error.
fn unmet(e: &InvalidParameterCount) -> bool {
	match e.expected {
		ExpectedCount::Exact(x) => e.actual != x,
		ExpectedCount::Max(x) => e.actual > x,
		ExpectedCount::Min(x) => e.actual < x,
	}
}

fn sizes() -> Vec<usize> {
	let mut v: Vec<usize> = (0..40).collect();
	for p in [7, 8, 15, 16, 31, 32, 63] {
		let x = 1usize << p;
		v.extend([x - 2, x - 1, x, x + 1]);
	}
	v.extend([100, 1000, 65_542, usize::MAX - 1, usize::MAX]);
	v.sort();
	v.dedup();
	v
}

fn main() {
	let mut r = Runner::new("C33");
	r.assume("the wording of texts is free: only the numbers they must name are judged, and which of them follows the words expected, got, claims, computed, need and size if the text has them");
	r.sweep("helpers and errors about two bytes", 65536, |i, cx| {
		let mut ix = Ix(i);
		let (a, e) = (ix.take(256) as u8, ix.take(256) as u8);
		let want = if a == e { Ok(()) } else { Err(InvalidPacketId { actual: a, expected: Some(e) }) };
		let got = InvalidPacketId::check(a, e);
		vassert!(got == want, "InvalidPacketId::check({a}, {e}) is {got:?}");
		let want = if e == 0xFE { Ok(()) } else { want };
		let got = InvalidPacketId::check_ignore_broadcast(a, e);
		vassert!(got == want, "InvalidPacketId::check_ignore_broadcast({a}, {e}) is {got:?}");
		let want = if a == e { Ok(()) } else { Err(InvalidInstruction { actual: a, expected: e }) };
		let got = InvalidInstruction::check(a, e);
		vassert!(got == want, "InvalidInstruction::check({a}, {e}) is {got:?}");
		message_leaf(cx, &Leaf::Id(a, Some(e)));
		message_leaf(cx, &Leaf::Id(a, None));
		message_leaf(cx, &Leaf::Instr(a, e));
		// The prefix, with every pair of bytes in every position.
		for at in 0..4 {
			let mut x = [0xFF, 0xFF, 0xFD, 0x00];
			let mut y = x;
			x[at] = a;
			y[at] = e;
			y[(at + 1) % 4] ^= a & 1;
			let want = if x == y { Ok(()) } else { Err(InvalidHeaderPrefix { actual: x, expected: y }) };
			let got = InvalidHeaderPrefix::check(&x, y);
			vassert!(got == want, "InvalidHeaderPrefix::check({x:02X?}, {y:02X?}) is {got:?}");
			message_leaf(cx, &Leaf::Prefix(x, y));
		}
	});
	r.sweep("motor errors", 256, |i, cx| {
		let raw = i as u8;
		let got = MotorError::check(raw);
		vassert!(got == if raw == 0 || raw == 0x80 { Ok(()) } else { Err(MotorError { raw }) }, "MotorError::check({raw:02X}) is {got:?}");
		let e = MotorError { raw };
		vassert!(e.error_number() == raw & 0x7F && e.alert() == (raw >= 0x80), "error {raw:02X}: number {:02X}, alert {}", e.error_number(), e.alert());
		let leaf = Leaf::Motor(raw);
		text(&leaf, &e);
		names(&format!("{e:?}"), &[], (raw & 0x7F) as u128);
		read_routes(cx, &leaf, || MotorError { raw }.into());
		let t: TransferError<Broken> = e.into();
		same("motor error as a transfer error", of_transfer(&t), &leaf);
		text(&leaf, &t);
	});
	let n = sizes();
	let total = (n.len() * n.len()) as u64;
	r.sweep("helpers and errors about two sizes", total, |i, cx| {
		let mut ix = Ix(i);
		let (a, e) = (*ix.of(&n), *ix.of(&n));
		let want = |ok: bool, expected| if ok { Ok(()) } else { Err(InvalidParameterCount { actual: a, expected }) };
		let checks = [
			("check", InvalidParameterCount::check(a, e), want(a == e, ExpectedCount::Exact(e))),
			("check_max", InvalidParameterCount::check_max(a, e), want(a <= e, ExpectedCount::Max(e))),
			("check_min", InvalidParameterCount::check_min(a, e), want(a >= e, ExpectedCount::Min(e))),
		];
		let mut texts = vec![];
		for (how, got, want) in checks {
			vassert!(got == want, "InvalidParameterCount::{how}({a}, {e}) is {got:?}");
		}
		for x in [ExpectedCount::Exact(e), ExpectedCount::Max(e), ExpectedCount::Min(e)] {
			names(&x.to_string(), &[], e as u128);
			message_leaf(cx, &Leaf::Count(a, x.clone()));
			texts.push(InvalidParameterCount { actual: a, expected: x }.to_string());
		}
		vassert!(texts[0] != texts[1] && texts[0] != texts[2] && texts[1] != texts[2], "the texts do not tell an exact count from a limit: {texts:?}");
		let small = || BufferTooSmallError { required_size: a, total_size: e };
		let got = BufferTooSmallError::check(a, e).map_err(|e| (e.required_size, e.total_size));
		vassert!(got == if a <= e { Ok(()) } else { Err((a, e)) }, "BufferTooSmallError::check({a}, {e}) is {got:?}");
		check_text(&Leaf::Small(a, e), &small().to_string());
		write_routes(cx, &Leaf::Small(a, e), || small().into());
		read_routes(cx, &Leaf::Full(a, e), || small().into());
	});
	r.sweep("checksum errors", 65536 * 4, |i, cx| {
		let mut ix = Ix(i);
		let a = ix.take(65536) as u16;
		let b = [0, a.swap_bytes(), a ^ 1, 0xFFFF - a][ix.take(4)];
		message_leaf(cx, &Leaf::Checksum(a, b));
		message_leaf(cx, &Leaf::Checksum(b, a));
	});
	r.sweep("errors of the serial port", 4, |i, cx| {
		let b = Broken(["", "it is on fire", "timed out (os error 110)", "\u{26a1} {} %s\n"][i as usize].to_string());
		write_routes(cx, &Leaf::Discard(b.clone()), || WriteError::DiscardBuffer(b.clone()));
		write_routes(cx, &Leaf::Write(b.clone()), || WriteError::Write(b.clone()));
		read_routes(cx, &Leaf::Read(b.clone()), || ReadError::Io(b.clone()));
		if !b.0.is_empty() {
			let t: Vec<String> = [WriteError::DiscardBuffer(b.clone()).to_string(), WriteError::Write(b.clone()).to_string(), ReadError::Io(b.clone()).to_string()].into();
			vassert!(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "the texts do not tell what failed: {t:?}");
		}
	});
	// Views of packets that were received.
	let counts = r.by_tier(300usize, 300);
	r.sweep("views of status packets", 256 * 256 * 2, |i, cx| {
		let mut ix = Ix(i);
		let (id, err) = (ix.take(256) as u8, ix.take(256) as u8);
		let long = ix.take(2) == 1;
		if long && id % 16 != 1 {
			return;
		}
		let port = VPort::new(cx);
		let mut c = client(&port, 2048, 64);
		let ns: Vec<usize> = if long { (4..counts).chain([255, 256, 257, 1000]).collect() } else { (0..4).collect() };
		for n in ns {
			let p: Vec<u8> = (0..n).map(|k| (k as u8).wrapping_mul(37).wrapping_add(id ^ err)).collect();
			port.feed(&status(id, err, &p));
			let got = c.read_status_response_timeout(Duration::from_millis(5));
			let s = match got {
				Ok(s) => s,
				// The raw view does not have to deliver replies with an error.
				Err(ReadError::MotorError(e)) => {
					vassert!(e.raw == err && err & 0x7F != 0, "status of {id} with error {err:02X} gives the motor error {:02X}", e.raw);
					cx.outcome(&0);
					continue;
				},
				Err(e) => vfail!("status of {id} with error {err:02X} and {n} parameters gives {e:?}"),
			};
			let what = || format!("status of {id} with error {err:02X} and parameters {}", hex(&p));
			let got = (s.packet_id(), s.instruction_id(), s.error(), s.error_number(), s.alert(), s.parameters());
			vassert!(got == (id, STATUS, err, err & 0x7F, err >= 0x80, &p[..]), "{}: {got:02X?}", what());
			let b: Response<&[u8]> = s.into();
			vassert!((b.motor_id, b.alert, b.data) == (id, err >= 0x80, &p[..]), "{}: response {b:?}", what());
			let u = Response::<()>::try_from(s);
			let want = if n == 0 { Ok(Response { motor_id: id, alert: err >= 0x80, data: () }) } else { Err(n) };
			match &u {
				Err(e) => vassert!(Err(e.actual) == want && unmet(e), "{}: empty response {u:?}", what()),
				Ok(r) => vassert!(Ok(r) == want.as_ref(), "{}: empty response {u:?}", what()),
			}
			match Response::<Ping>::try_from(s) {
				Err(e) => vassert!(n != 3 && e.actual == n && unmet(&e), "{}: ping response {e:?}", what()),
				Ok(r) => {
					vassert!(n == 3, "{}: taken as a ping response {r:?}", what());
					let want = (id, err >= 0x80, p[0] as u16 | (p[1] as u16) << 8, p[2]);
					vassert!((r.motor_id, r.alert, r.data.model, r.data.firmware) == want, "{}: ping response {r:?}", what());
				},
			}
			// Looking at the views does not change them.
			let again = (s.packet_id(), s.instruction_id(), s.error(), s.error_number(), s.alert(), s.parameters());
			vassert!(got == again, "{}: first {got:02X?}, then {again:02X?}", what());
			cx.outcome(&(n.min(4), b.alert));
		}
	});
	// Errors made by the library itself.
	let n = r.by_tier(260usize, 600);
	r.sweep("replies with a wrong number of parameters", 256 * n as u64, |i, cx| {
		let mut ix = Ix(i);
		let id = ix.take(253) as u8;
		let n = ix.take(n);
		let ops = [Op::Ping(id), Op::Read(id, 0, Ty::U8), Op::Read(id, 0, Ty::U32), Op::Read(id, 0, Ty::A3), Op::ReadVec(id, 0, 5), Op::Reboot(id), Op::WriteBytes(id, 0, vec![1])];
		let expect = [3, 1, 4, 6, 5, 0, 0];
		for (op, e) in ops.iter().zip(expect) {
			let port = VPort::new(cx);
			let mut c = client(&port, 512, 64);
			port.reply_bytes(status(id, 0, &vec![7; n]));
			let r = run(&mut c, op);
			if n == e {
				continue;
			}
			if let Err(Er::Count { actual, expected }) = r.one() {
				vassert!(actual == n, "{op:?} answered with {n} parameters: claims {actual}");
				names(&expected, &[], e as u128);
				let met = if expected.starts_with("Max") { n <= e } else { expected.starts_with("Min") && n >= e };
				vassert!(!met, "{op:?} answered with {n} parameters: expected {expected}");
				cx.outcome(&e);
			} else {
				vfail!("{op:?} answered with {n} parameters, {e} expected: {r:?}");
			}
		}
	});
	r.sweep("instructions with a wrong number of parameters", 256 * 8, |i, cx| {
		let mut ix = Ix(i);
		let inst = ix.take(256) as u8;
		let n = ix.take(8);
		if inst == STATUS {
			return;
		}
		let port = VPort::new(cx);
		let mut d = device(&port, 64, 32);
		for owned in [false, true] {
			port.feed(&frame(1, inst, &vec![9; n]));
			let e = if owned { d.read_owned(Duration::from_millis(5)).err() } else { d.read(Duration::from_millis(5)).err() };
			if let Some(e) = e {
				let ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(c)) = &e else { vfail!("instruction {inst:02X} with {n} parameters gives {e:?}") };
				vassert!(c.actual == n && unmet(c), "instruction {inst:02X} with {n} parameters gives {c:?}");
				let (ExpectedCount::Exact(x) | ExpectedCount::Max(x) | ExpectedCount::Min(x)) = c.expected;
				// The expectation is one under which the instruction is really accepted.
				port.feed(&frame(1, inst, &vec![9; x]));
				let r = d.read(Duration::from_millis(5));
				vassert!(r.is_ok(), "instruction {inst:02X} with {n} parameters gives {c:?}, but with {x} it gives {r:?}");
				cx.outcome(&(inst, n));
			}
		}
	});
	r.finish()
}

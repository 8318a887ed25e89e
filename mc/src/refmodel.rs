//! Independent reference model of Protocol 2.0: checksum, byte stuffing, frames and a receiver.
//! Written from the protocol description, not from the code under test.

use std::sync::OnceLock;

pub const HEADER: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
pub const STATUS: u8 = 0x55;
pub const BROADCAST: u8 = 0xFE;
pub const PING: u8 = 0x01;
pub const READ: u8 = 0x02;
pub const WRITE: u8 = 0x03;
pub const REG_WRITE: u8 = 0x04;
pub const ACTION: u8 = 0x05;
pub const FACTORY_RESET: u8 = 0x06;
pub const REBOOT: u8 = 0x08;
pub const CLEAR: u8 = 0x10;
pub const SYNC_READ: u8 = 0x82;
pub const SYNC_WRITE: u8 = 0x83;
pub const BULK_READ: u8 = 0x92;
pub const BULK_WRITE: u8 = 0x93;

/// One step of the CRC automaton, bit by bit: polynomial x^16 + x^15 + x^2 + 1, MSB first.
pub fn crc_step(mut crc: u16, byte: u8) -> u16 {
	for bit in (0..8).rev() {
		let fb = (crc >> 15) ^ ((byte >> bit) & 1) as u16;
		crc <<= 1;
		if fb & 1 == 1 {
			crc ^= 0x8005;
		}
	}
	crc
}

fn table() -> &'static [u16; 256] {
	// Built from the bit-by-bit step, only to make long sweeps fast.
	static T: OnceLock<[u16; 256]> = OnceLock::new();
	T.get_or_init(|| std::array::from_fn(|i| crc_step(0, i as u8)))
}

pub fn crc(init: u16, data: &[u8]) -> u16 {
	let t = table();
	data.iter().fold(init, |c, &b| (c << 8) ^ t[((c >> 8) as u8 ^ b) as usize])
}

/// Byte stuffing by looking at the output: whenever FF FF FD was just emitted, an FD is inserted.
pub fn stuff(data: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(data.len() + data.len() / 3 + 1);
	for &b in data {
		out.push(b);
		if out.ends_with(&[0xFF, 0xFF, 0xFD]) {
			out.push(0xFD);
		}
	}
	out
}

/// Remove byte stuffing: an FD directly after FF FF FD (looking at the stuffed bytes) is dropped.
pub fn unstuff(data: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(data.len());
	let mut i = 0;
	while i < data.len() {
		if i >= 3 && data[i - 3..i] == [0xFF, 0xFF, 0xFD] && data[i] == 0xFD {
			i += 1;
			continue;
		}
		out.push(data[i]);
		i += 1;
	}
	out
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
	h.windows(n.len()).any(|w| w == n)
}

/// A frame with the given body, which is used as it is (already stuffed), with a correct checksum.
pub fn frame_raw(id: u8, stuffed_body: &[u8]) -> Vec<u8> {
	let mut f = HEADER.to_vec();
	f.push(id);
	let len = stuffed_body.len() + 2;
	assert!(len <= 0xFFFF, "reference frame too long");
	f.push(len as u8);
	f.push((len >> 8) as u8);
	f.extend_from_slice(stuffed_body);
	let c = crc(0, &f);
	f.push(c as u8);
	f.push((c >> 8) as u8);
	f
}

pub fn frame(id: u8, inst: u8, params: &[u8]) -> Vec<u8> {
	let mut body = Vec::with_capacity(params.len() + 1);
	body.push(inst);
	body.extend_from_slice(params);
	frame_raw(id, &stuff(&body))
}

pub fn status(id: u8, error: u8, params: &[u8]) -> Vec<u8> {
	let mut p = Vec::with_capacity(params.len() + 1);
	p.push(error);
	p.extend_from_slice(params);
	frame(id, STATUS, &p)
}

/// Header, given length field, body and correct checksum over all of it (for malformed lengths).
pub fn frame_with_len(id: u8, len: u16, rest: &[u8]) -> Vec<u8> {
	let mut f = HEADER.to_vec();
	f.push(id);
	f.extend_from_slice(&len.to_le_bytes());
	f.extend_from_slice(rest);
	f
}

/// A short frame whose length field (0, 1 or 2) is consistent and whose checksum field is "correct" where there is room for one.
pub fn short_frame(id: u8, len: u16) -> Vec<u8> {
	let mut f = HEADER.to_vec();
	f.push(id);
	f.extend_from_slice(&len.to_le_bytes());
	if len == 2 {
		let c = crc(0, &f);
		f.extend_from_slice(&c.to_le_bytes());
	} else if len == 1 {
		f.push(0);
	}
	f
}

pub fn bad_crc(mut f: Vec<u8>) -> Vec<u8> {
	let n = f.len();
	f[n - 1] ^= 0x5A;
	f
}

/// Strict validator of one transmitted frame: returns (id, instruction, parameters).
pub fn parse_exact(f: &[u8]) -> Result<(u8, u8, Vec<u8>), String> {
	if f.len() < 10 {
		return Err(format!("frame of {} bytes", f.len()));
	}
	if f[..4] != HEADER {
		return Err("does not start with the header prefix".into());
	}
	let len = f[5] as usize | (f[6] as usize) << 8;
	if len + 7 != f.len() {
		return Err(format!("length field {len} does not match the {} bytes", f.len()));
	}
	let body = &f[7..f.len() - 2];
	let c = crc(0, &f[..f.len() - 2]);
	if f[f.len() - 2..] != c.to_le_bytes() {
		return Err(format!("checksum {:02X?}, expected {:04X}", &f[f.len() - 2..], c));
	}
	for i in 0..body.len() {
		if body[i..].starts_with(&[0xFF, 0xFF, 0xFD]) && body.get(i + 3) != Some(&0xFD) {
			return Err(format!("unstuffed FF FF FD at offset {i} of the body"));
		}
	}
	let u = unstuff(body);
	Ok((f[4], u[0], u[1..].to_vec()))
}

/// What a receiver reports.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Rx {
	Packet { id: u8, inst: u8, params: Vec<u8> },
	BadChecksum { message: u16, computed: u16 },
	/// Claims a frame of `need` bytes, which does not fit the read buffer of `have` bytes.
	TooBig { need: usize, have: usize },
	/// Too short for an instruction and a checksum, or a status packet without an error byte.
	Malformed,
	/// Nothing complete is left in the stream.
	Nothing,
}

/// Reference receiver over a byte stream.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct RefRx {
	pub data: Vec<u8>,
	pub pos: usize,
	pub buf: usize,
}

impl RefRx {
	pub fn new(buf: usize) -> Self {
		RefRx { data: vec![], pos: 0, buf }
	}
	pub fn over(buf: usize, data: &[u8]) -> Self {
		RefRx { data: data.to_vec(), pos: 0, buf }
	}
	pub fn feed(&mut self, b: &[u8]) {
		self.data.extend_from_slice(b);
	}
	pub fn clear(&mut self) {
		self.pos = self.data.len();
	}
	pub fn next(&mut self) -> Rx {
		let d = &self.data;
		loop {
			let r = &d[self.pos..];
			let n = r.len().min(4);
			if r.is_empty() {
				return Rx::Nothing;
			}
			if r[..n] != HEADER[..n] {
				self.pos += 1;
				continue;
			}
			if r.len() < 8 {
				return Rx::Nothing;
			}
			let len = r[5] as usize | (r[6] as usize) << 8;
			if len + 7 > self.buf {
				self.pos += 7;
				return Rx::TooBig { need: len + 7, have: self.buf };
			}
			if r.len() < len + 7 {
				return Rx::Nothing;
			}
			let f = r[..len + 7].to_vec();
			self.pos += len + 7;
			if len < 3 {
				return Rx::Malformed;
			}
			let m = f[f.len() - 2] as u16 | (f[f.len() - 1] as u16) << 8;
			let c = crc(0, &f[..f.len() - 2]);
			if m != c {
				return Rx::BadChecksum { message: m, computed: c };
			}
			let u = unstuff(&f[7..f.len() - 2]);
			if u[0] == STATUS && u.len() < 2 {
				return Rx::Malformed;
			}
			return Rx::Packet { id: f[4], inst: u[0], params: u[1..].to_vec() };
		}
	}
}

pub fn hex(b: &[u8]) -> String {
	if b.len() > 80 {
		return format!("{}.. ({} bytes)", hex(&b[..64]), b.len());
	}
	b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

/// The time needed for `bytes` bytes at 10 bits per byte, rounded up to nanoseconds, plus 34 ms.
pub fn reply_timeout_ns(bytes: u64, baud: u32, frames: u64) -> u128 {
	let ns = (bytes as u128 * 10 * 1_000_000_000).div_ceil(baud as u128);
	ns * frames as u128 + 34_000_000
}

/// The reference against the examples published in the e-manual, the check value of the checksum in the CRC catalogue, and itself.
pub fn self_check() {
	let published: [(u8, u8, &[u8], &[u8]); 9] = [
		(1, PING, &[], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x03, 0x00, 0x01, 0x19, 0x4E]),
		(1, STATUS, &[0x00, 0x06, 0x04, 0x26], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x07, 0x00, 0x55, 0x00, 0x06, 0x04, 0x26, 0x65, 0x5D]),
		(1, READ, &[0x84, 0x00, 0x04, 0x00], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x07, 0x00, 0x02, 0x84, 0x00, 0x04, 0x00, 0x1D, 0x15]),
		(1, STATUS, &[0x00, 0xA6, 0x00, 0x00, 0x00], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x08, 0x00, 0x55, 0x00, 0xA6, 0x00, 0x00, 0x00, 0x8C, 0xC0]),
		(1, WRITE, &[0x74, 0x00, 0x00, 0x02, 0x00, 0x00], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x09, 0x00, 0x03, 0x74, 0x00, 0x00, 0x02, 0x00, 0x00, 0xCA, 0x89]),
		(1, ACTION, &[], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x03, 0x00, 0x05, 0x02, 0xCE]),
		(1, FACTORY_RESET, &[0x01], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x04, 0x00, 0x06, 0x01, 0xA1, 0xE6]),
		(1, REBOOT, &[], &[0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x03, 0x00, 0x08, 0x2F, 0x4E]),
		(0xFE, SYNC_READ, &[0x84, 0x00, 0x04, 0x00, 0x01, 0x02], &[0xFF, 0xFF, 0xFD, 0x00, 0xFE, 0x09, 0x00, 0x82, 0x84, 0x00, 0x04, 0x00, 0x01, 0x02, 0xCE, 0xFA]),
	];
	for (id, inst, p, f) in published {
		assert!(frame(id, inst, p) == f, "the reference frame {} differs from the published {}", hex(&frame(id, inst, p)), hex(f));
		assert!(parse_exact(f) == Ok((id, inst, p.to_vec())), "the reference does not parse {}", hex(f));
	}
	// CRC-16/UMTS, also known as CRC-16/BUYPASS.
	assert!(b"123456789".iter().fold(0, |c, &b| crc_step(c, b)) == 0xFEE8, "the reference checksum is wrong");
	// Stuffing is undone by unstuffing, for all strings of up to 9 bytes over the two bytes that matter and another one.
	for n in 0..=9u32 {
		for i in 0..3usize.pow(n) {
			let s: Vec<u8> = (0..n).map(|k| [0xFF, 0xFD, 0x00][i / 3usize.pow(k) % 3]).collect();
			let t = stuff(&s);
			assert!(unstuff(&t) == s && !contains(&t, &HEADER), "the reference stuffing of {} is {}", hex(&s), hex(&t));
		}
	}
}

//! What the driver supplies to the library: a scripted port, buffers of every kind, frames; and the transcript.
use std::cell::RefCell;
use std::time::Duration;

/// Everything observable of one execution, hashed, and kept as text when asked for.
pub struct Transcript {
	pub hash: u64,
	/// The number of results and calls in it.
	pub events: u64,
	pub text: Option<String>,
}

impl Transcript {
	pub fn new(keep: bool) -> Self {
		Self { hash: 0xcbf2_9ce4_8422_2325, events: 0, text: keep.then(String::new) }
	}

	fn word(&mut self, x: u64) {
		self.hash = (self.hash ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		self.hash ^= self.hash >> 29;
	}

	pub fn data(&mut self, data: &[u8]) {
		let (chunks, rest) = data.as_chunks::<8>();
		for c in chunks {
			self.word(u64::from_le_bytes(*c));
		}
		let mut last = [0; 8];
		last[..rest.len()].copy_from_slice(rest);
		self.word(u64::from_le_bytes(last));
		self.word(data.len() as u64);
	}

	pub fn line(&mut self, line: &str) {
		self.events += 1;
		self.data(line.as_bytes());
		if let Some(text) = &mut self.text {
			text.push_str(line);
			text.push('\n');
		}
	}
}

/// A call of the port: hashed as it is, because formatting takes an interpreter long; text only when asked for.
fn call(what: &str, numbers: [u64; 3], data: &[u8]) {
	T.with(|t| {
		let mut t = t.borrow_mut();
		t.events += 1;
		t.data(what.as_bytes());
		for n in numbers {
			t.word(n);
		}
		t.data(data);
		if let Some(text) = &mut t.text {
			text.push_str(&format!("port.{what} {numbers:?} {data:02X?}\n"));
		}
	});
}

thread_local! {
	pub static T: RefCell<Transcript> = RefCell::new(Transcript::new(false));
}

/// Append a line to the transcript.
#[macro_export]
macro_rules! say {
	($($a:tt)*) => {{
		// Whatever the arguments do is done before the transcript is borrowed: they may write to it too.
		let line = format!($($a)*);
		$crate::env::T.with(|t| t.borrow_mut().line(&line))
	}};
}

/// What the execution is; only for the reader.
#[macro_export]
macro_rules! title {
	($($a:tt)*) => {
		$crate::env::T.with(|t| {
			if let Some(text) = &mut t.borrow_mut().text {
				text.push_str(&format!($($a)*));
				text.push('\n');
			}
		})
	};
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PortError {
	Timeout,
	Broken,
}

impl std::fmt::Display for PortError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(match self {
			Self::Timeout => "port timed out",
			Self::Broken => "port broken",
		})
	}
}

impl std::error::Error for PortError {}

#[derive(Clone, Debug)]
pub enum Ev {
	Bytes(Vec<u8>),
	Zero,
	Broken,
	/// Everything after this arrives only after the next instruction was written.
	Fence,
}

/// A port that follows a script and writes every call to the transcript.
pub struct Port {
	pub script: Vec<Ev>,
	pub next: usize,
	pub offset: usize,
	pub fence: usize,
	pub written: usize,
	pub baud: u32,
	pub fail_write: bool,
	pub fail_discard: bool,
}

impl std::fmt::Debug for Port {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("Port")
	}
}

impl Port {
	pub fn new(script: Vec<Ev>) -> Self {
		Self { script, next: 0, offset: 0, fence: 0, written: 0, baud: 57_600, fail_write: false, fail_discard: false }
	}
	/// What was left unread.
	pub fn left(self) {
		call("left", [self.next as u64, self.offset as u64, 0], &[]);
	}
	pub fn baud(mut self, baud: u32) -> Self {
		self.baud = baud;
		self
	}
}

impl dynamixel2::SerialPort for Port {
	type Error = PortError;
	type Instant = Duration;
	fn baud_rate(&self) -> Result<u32, PortError> {
		call("baud_rate", [0; 3], &[]);
		if self.baud == 13 {
			return Err(PortError::Broken);
		}
		Ok(self.baud)
	}
	fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), PortError> {
		call("set_baud_rate", [baud_rate.into(), 0, 0], &[]);
		if baud_rate == 13 {
			return Err(PortError::Broken);
		}
		self.baud = baud_rate;
		Ok(())
	}
	fn discard_input_buffer(&mut self) -> Result<(), PortError> {
		call("discard", [0; 3], &[]);
		if self.fail_discard {
			return Err(PortError::Broken);
		}
		Ok(())
	}
	fn read(&mut self, buffer: &mut [u8], deadline: &Duration) -> Result<usize, PortError> {
		let room = buffer.len();
		let r = match self.script.get(self.next) {
			None => Err(PortError::Timeout),
			Some(Ev::Zero) => {
				self.next += 1;
				Ok(0)
			},
			Some(Ev::Broken) => {
				self.next += 1;
				Err(PortError::Broken)
			},
			Some(Ev::Fence) => {
				if self.fence < self.written {
					self.fence += 1;
					self.next += 1;
					return self.read(buffer, deadline);
				}
				Err(PortError::Timeout)
			},
			Some(Ev::Bytes(b)) => {
				let rest = &b[self.offset..];
				let n = rest.len().min(room);
				buffer[..n].copy_from_slice(&rest[..n]);
				self.offset += n;
				if self.offset == b.len() {
					self.offset = 0;
					self.next += 1;
				}
				Ok(n)
			},
		};
		call(
			match r {
				Ok(_) => "read",
				Err(PortError::Timeout) => "read that times out",
				Err(PortError::Broken) => "read that fails",
			},
			[room as u64, deadline.as_secs(), deadline.subsec_nanos().into()],
			r.map_or(&[], |n| &buffer[..n]),
		);
		r
	}
	fn write_all(&mut self, buffer: &[u8]) -> Result<(), PortError> {
		call("write", [0; 3], buffer);
		self.written += 1;
		if self.fail_write {
			return Err(PortError::Broken);
		}
		Ok(())
	}
	fn make_deadline(&self, timeout: Duration) -> Duration {
		call("make_deadline", [0, timeout.as_secs(), timeout.subsec_nanos().into()], &[]);
		timeout
	}
	fn is_timeout_error(error: &PortError) -> bool {
		*error == PortError::Timeout
	}
}

// ---------------------------------------------------------------- frames

const TABLE: [u16; 256] = {
	let mut table = [0; 256];
	let mut i = 0;
	while i < 256 {
		let mut c = (i as u16) << 8;
		let mut bit = 0;
		while bit < 8 {
			c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
			bit += 1;
		}
		table[i] = c;
		i += 1;
	}
	table
};

pub fn crc(data: &[u8]) -> u16 {
	data.iter().fold(0, |c: u16, &b| (c << 8) ^ TABLE[usize::from((c >> 8) as u8 ^ b)])
}

/// A frame from its unstuffed body.
pub fn frame(id: u8, body: &[u8]) -> Vec<u8> {
	let mut stuffed = Vec::new();
	for &b in body {
		stuffed.push(b);
		if stuffed.ends_with(&[0xFF, 0xFF, 0xFD]) {
			stuffed.push(0xFD);
		}
	}
	let mut f = vec![0xFF, 0xFF, 0xFD, 0x00, id];
	f.extend(((stuffed.len() + 2) as u16).to_le_bytes());
	f.extend(stuffed);
	let c = crc(&f);
	f.extend(c.to_le_bytes());
	f
}

pub fn status(id: u8, error: u8, parameters: &[u8]) -> Vec<u8> {
	let mut body = vec![0x55, error];
	body.extend(parameters);
	frame(id, &body)
}

// ---------------------------------------------------------------- buffers

/// Buffers a user may supply. What they held before must not matter either.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
	Vec,
	Boxed,
	Array,
	Slice,
	Static,
	Window,
}

pub const KINDS: [Kind; 6] = [Kind::Vec, Kind::Boxed, Kind::Array, Kind::Slice, Kind::Static, Kind::Window];

/// A part of a larger buffer.
pub struct Window {
	all: Vec<u8>,
	len: usize,
}

impl AsRef<[u8]> for Window {
	fn as_ref(&self) -> &[u8] {
		&self.all[8..][..self.len]
	}
}

impl AsMut<[u8]> for Window {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.all[8..][..self.len]
	}
}

impl Window {
	fn new(len: usize) -> Self {
		Self { all: [0xFF, 0xFF, 0xFD, 0x00, 0x01, 0x03, 0x00].into_iter().cycle().take(len + 16).collect(), len }
	}
}

/// A job to run on a client or device, whatever its buffers are.
pub trait Job {
	fn go<B: AsRef<[u8]> + AsMut<[u8]>>(self, port: Port, read: B, write: B);
}

/// Run the job with buffers of the wanted kind and size.
pub fn with_buffers(kind: Kind, r: usize, w: usize, port: Port, job: impl Job) {
	match kind {
		Kind::Vec => job.go(port, vec![0; r], vec![0; w]),
		Kind::Boxed => job.go(port, vec![0x55u8; r].into_boxed_slice(), vec![0xFFu8; w].into_boxed_slice()),
		Kind::Array => arrays(r, w, port, job),
		Kind::Slice => {
			let mut one = vec![0xFDu8; r];
			let mut two: Vec<u8> = (0..w).map(|i| i as u8).collect();
			job.go(port, &mut one[..], &mut two[..])
		},
		Kind::Static => statics(r, w, port, job),
		Kind::Window => job.go(port, Window::new(r), Window::new(w)),
	}
}

/// Arrays of different sizes are different types, so they are wrapped.
enum Arr {
	A10([u8; 10]),
	A12([u8; 12]),
	A16([u8; 16]),
	A24([u8; 24]),
	A40([u8; 40]),
	A128([u8; 128]),
}

macro_rules! arr {
	($self:expr, $b:ident => $e:expr) => {
		match $self {
			Arr::A10($b) => $e,
			Arr::A12($b) => $e,
			Arr::A16($b) => $e,
			Arr::A24($b) => $e,
			Arr::A40($b) => $e,
			Arr::A128($b) => $e,
		}
	};
}

impl AsRef<[u8]> for Arr {
	fn as_ref(&self) -> &[u8] {
		arr!(self, b => b.as_ref())
	}
}

impl AsMut<[u8]> for Arr {
	fn as_mut(&mut self) -> &mut [u8] {
		arr!(self, b => b.as_mut())
	}
}

fn arr(n: usize) -> Option<Arr> {
	Some(match n {
		10 => Arr::A10([1; 10]),
		12 => Arr::A12([2; 12]),
		16 => Arr::A16([3; 16]),
		24 => Arr::A24([0xFF; 24]),
		40 => Arr::A40([0; 40]),
		128 => Arr::A128([0xFD; 128]),
		_ => return None,
	})
}

fn arrays(r: usize, w: usize, port: Port, job: impl Job) {
	match (r, w) {
		(10, 10) => job.go(port, [7u8; 10], [8u8; 10]),
		(16, 16) => job.go(port, [7u8; 16], [8u8; 16]),
		(40, 40) => job.go(port, [7u8; 40], [8u8; 40]),
		(128, 128) => job.go(port, [7u8; 128], [8u8; 128]),
		_ => match (arr(r), arr(w)) {
			(Some(r), Some(w)) => job.go(port, r, w),
			_ => job.go(port, vec![9; r], vec![9; w]),
		},
	}
}

/// The buffers of `static_buffer!`, each made once, lent out for every execution.
fn statics(r: usize, w: usize, port: Port, job: impl Job) {
	use std::sync::Mutex;
	type Buffer = &'static mut [u8];
	static POOL: Mutex<Option<(Buffer, Buffer)>> = Mutex::new(None);
	let mut pool = POOL.lock().unwrap_or_else(|e| e.into_inner());
	let (one, two) = pool.get_or_insert_with(|| (dynamixel2::static_buffer!(70_000), dynamixel2::static_buffer!(70_000)));
	let (r, w) = (r.min(one.len()), w.min(two.len()));
	job.go(port, &mut one[..r], &mut two[..w]);
}

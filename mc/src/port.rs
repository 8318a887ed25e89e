//! The environment of the code under test: a serial port under the control of the explorer.

use crate::engine::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::time::Duration;

/// Where the library calls code of its user.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum At {
	Port,
	/// An encoder.
	Encode,
	/// A decoder or another conversion of received bytes.
	Decode,
	/// The access to a buffer.
	Buffer,
	/// An iterator over the data of several motors.
	Iter,
}
pub type Hook = Rc<dyn Fn(At)>;
thread_local! {
	static HOOKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
	static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
/// Called at the start of all code of the user.
#[inline]
pub fn user_code(at: At) {
	if HOOKED.get() {
		if let Some(h) = HOOK.with_borrow(|h| h.clone()) {
			h(at)
		}
	}
}
/// From now on, call this at the start of all code of the user (in this thread). Returns what was called so far.
pub fn set_hook(h: Option<Hook>) -> Option<Hook> {
	HOOKED.set(h.is_some());
	HOOK.with_borrow_mut(|x| std::mem::replace(x, h))
}

/// A buffer that tells when it is accessed.
pub struct TellingBuffer(pub Vec<u8>);
impl AsRef<[u8]> for TellingBuffer {
	fn as_ref(&self) -> &[u8] {
		user_code(At::Buffer);
		&self.0
	}
}
impl AsMut<[u8]> for TellingBuffer {
	fn as_mut(&mut self) -> &mut [u8] {
		user_code(At::Buffer);
		&mut self.0
	}
}

/// An iterator that tells when it is used.
#[derive(Clone)]
pub struct TellingIter<I>(pub I);
/// A list of which the iterators tell when they are used.
pub struct TellingList<T>(pub Vec<T>);
impl<'a, T> IntoIterator for &'a TellingList<T> {
	type Item = &'a T;
	type IntoIter = TellingIter<std::slice::Iter<'a, T>>;
	fn into_iter(self) -> Self::IntoIter {
		TellingIter(self.0.iter())
	}
}
/// Data to be written that tells when it is accessed.
pub struct TellingBytes<'a>(pub &'a [u8]);
impl AsRef<[u8]> for TellingBytes<'_> {
	fn as_ref(&self) -> &[u8] {
		user_code(At::Encode);
		self.0
	}
}
impl<I: ExactSizeIterator> Iterator for TellingIter<I> {
	type Item = I::Item;
	fn next(&mut self) -> Option<I::Item> {
		user_code(At::Iter);
		self.0.next()
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		self.0.size_hint()
	}
}
impl<I: ExactSizeIterator> ExactSizeIterator for TellingIter<I> {}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum VErr {
	Timeout,
	Fault(u32),
}
impl std::fmt::Display for VErr {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for VErr {}

/// A deadline: number of the make_deadline call and the requested timeout.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct VInst {
	pub n: u32,
	pub timeout: Duration,
}

/// What is waiting in the input of the port, in order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum In {
	Bytes(Vec<u8>),
	/// A read returns this error (once).
	Err(VErr),
	/// A read returns no bytes (once).
	Zero,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
	Deadline(VInst),
	Discard(Result<(), VErr>),
	Write(Vec<u8>, Result<(), VErr>),
	Read { cap: usize, deadline: VInst, res: Result<usize, VErr> },
	SetBaud(u32, Result<(), VErr>),
	Baud(Result<u32, VErr>),
}

/// How the waiting bytes are divided over reads.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Frag {
	/// As much as fits (adjacent byte items are merged).
	All,
	/// At most n bytes per read.
	Max(usize),
	/// Every possibility is explored (any but "everything" is a deviation).
	Choose,
	/// Like `Choose`, also returning zero bytes (at most this many times in a row).
	ChooseZero(u32),
	/// One item per read (items are not merged).
	Items,
}

pub type OnFrame = Box<dyn FnMut(&[u8], &mut VecDeque<In>)>;

pub struct Core {
	pub cx: Cx,
	pub baud: u32,
	pub log: Vec<Ev>,
	pub input: VecDeque<In>,
	pub frag: Frag,
	/// Number of fallible port calls so far.
	pub calls: u32,
	pub horizon: u32,
	/// Fail the n-th fallible call from now with this error.
	pub fault_at: Option<(u32, VErr)>,
	/// Every fallible call of the given kinds fails.
	pub fail_reads: Option<VErr>,
	pub fail_discard: Option<VErr>,
	pub fail_write: Option<VErr>,
	pub fail_set_baud: Option<VErr>,
	pub fail_baud: Option<VErr>,
	/// What a successful set_baud_rate makes of the requested rate.
	pub n_deadlines: u32,
	tx: Vec<u8>,
	pub on_frame: Option<OnFrame>,
	/// Called when a read finds no input (returns more input or nothing).
	pub on_idle: Option<Box<dyn FnMut(&mut VecDeque<In>)>>,
	zeros: u32,
	pub discard_noop: bool,
}

#[derive(Clone)]
pub struct VPort(pub Rc<RefCell<Core>>);

impl std::fmt::Debug for VPort {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("VPort")
	}
}

impl VPort {
	pub fn new(cx: &Cx) -> Self {
		VPort(Rc::new(RefCell::new(Core {
			cx: cx.clone(),
			baud: 57_600,
			log: vec![],
			input: VecDeque::new(),
			frag: Frag::All,
			calls: 0,
			horizon: 100_000,
			fault_at: None,
			fail_reads: None,
			fail_discard: None,
			fail_write: None,
			fail_set_baud: None,
			fail_baud: None,
			n_deadlines: 0,
			tx: vec![],
			on_frame: None,
			on_idle: None,
			zeros: 0,
			discard_noop: false,
		})))
	}
	pub fn frag(self, f: Frag) -> Self {
		self.0.borrow_mut().frag = f;
		self
	}
	pub fn set_frag(&self, f: Frag) {
		self.0.borrow_mut().frag = f;
	}
	pub fn baud(self, b: u32) -> Self {
		self.0.borrow_mut().baud = b;
		self
	}
	pub fn horizon(self, h: u32) -> Self {
		self.0.borrow_mut().horizon = h;
		self
	}
	/// Put bytes into the input of the port.
	pub fn feed(&self, b: &[u8]) {
		if !b.is_empty() {
			self.0.borrow_mut().input.push_back(In::Bytes(b.to_vec()));
		}
	}
	pub fn push(&self, i: In) {
		self.0.borrow_mut().input.push_back(i);
	}
	/// Call `f` with every complete frame written to the port.
	pub fn on_frame(&self, f: impl FnMut(&[u8], &mut VecDeque<In>) + 'static) {
		self.0.borrow_mut().on_frame = Some(Box::new(f));
	}
	/// Reply to the n-th written frame with the n-th list of inputs.
	pub fn replies(&self, r: Vec<Vec<In>>) {
		let mut r: VecDeque<Vec<In>> = r.into();
		self.on_frame(move |_, q| {
			if let Some(x) = r.pop_front() {
				q.extend(x);
			}
		});
	}
	/// Reply to every written frame with these bytes.
	pub fn reply_bytes(&self, b: Vec<u8>) {
		self.on_frame(move |_, q| {
			if !b.is_empty() {
				q.push_back(In::Bytes(b.clone()))
			}
		});
	}
	pub fn log(&self) -> Vec<Ev> {
		self.0.borrow().log.clone()
	}
	pub fn take_log(&self) -> Vec<Ev> {
		std::mem::take(&mut self.0.borrow_mut().log)
	}
	/// Start counting calls anew; returns what happened so far.
	pub fn fresh(&self) -> Vec<Ev> {
		self.0.borrow_mut().calls = 0;
		self.take_log()
	}
	/// All bytes written successfully.
	pub fn written(&self) -> Vec<u8> {
		written(&self.0.borrow().log)
	}
	pub fn n_reads(&self) -> usize {
		self.0.borrow().log.iter().filter(|x| matches!(x, Ev::Read { .. })).count()
	}
	/// Bytes still waiting in the port.
	pub fn waiting(&self) -> Vec<u8> {
		let mut v = vec![];
		for i in &self.0.borrow().input {
			if let In::Bytes(b) = i {
				v.extend_from_slice(b);
			}
		}
		v
	}
	pub fn fault_in(&self, n: u32, e: VErr) {
		let mut c = self.0.borrow_mut();
		let at = c.calls + n;
		c.fault_at = Some((at, e));
	}
}

pub fn written(log: &[Ev]) -> Vec<u8> {
	let mut v = vec![];
	for e in log {
		if let Ev::Write(b, Ok(())) = e {
			v.extend_from_slice(b);
		}
	}
	v
}

impl Core {
	/// Accounting for one call; returns an injected error.
	fn call(&mut self, what: &str) -> Option<VErr> {
		if std::thread::panicking() {
			return Some(VErr::Timeout);
		}
		self.cx.step();
		let n = self.calls;
		self.calls += 1;
		if self.calls > self.horizon {
			fail(format!("more than {} port calls in one execution (livelock), now in {what}", self.horizon));
		}
		match self.fault_at {
			Some((at, e)) if at == n => {
				self.cx.obs(&("fault", n));
				Some(e)
			},
			_ => None,
		}
	}
	fn ev(&mut self, e: Ev) {
		if self.cx.verbose() {
			match &e {
				Ev::Write(b, r) => println!("  port: write {} -> {r:?}", crate::refmodel::hex(b)),
				e => println!("  port: {e:?}"),
			}
		}
		self.cx.obs(&e);
		self.cx.trail(|| match &e {
			Ev::Write(b, r) => format!("write {} -> {r:?}", crate::refmodel::hex(b)),
			Ev::Read { res: Err(x), .. } => format!("read -> {x:?}"),
			Ev::Read { cap, .. } => format!("(of at most {cap})"),
			e => format!("{e:?}"),
		});
		if std::thread::panicking() {
			return;
		}
		self.log.push(e);
		if self.log.len() > 4 * self.horizon as usize {
			fail(format!("more than {} port events in one execution (livelock)", 4 * self.horizon));
		}
	}

	fn do_read(&mut self, buf: &mut [u8]) -> Result<usize, VErr> {
		if let Some(e) = self.call("read") {
			return Err(e);
		}
		if let Some(e) = self.fail_reads {
			return Err(e);
		}
		if buf.is_empty() {
			fail("the port was asked to read into an empty buffer".into());
		}
		// Bytes that a driver would not have touched must not be relied upon.
		if self.input.is_empty() {
			if let Some(mut f) = self.on_idle.take() {
				f(&mut self.input);
				self.on_idle = Some(f);
			}
		}
		match self.input.front() {
			None => return Err(VErr::Timeout),
			Some(In::Err(e)) => {
				let e = *e;
				self.input.pop_front();
				return Err(e);
			},
			Some(In::Zero) => {
				self.input.pop_front();
				return Ok(0);
			},
			Some(In::Bytes(_)) => {},
		}
		if self.frag != Frag::Items {
			while self.input.len() > 1 && matches!(self.input[1], In::Bytes(_)) {
				let Some(In::Bytes(a)) = self.input.pop_front() else { unreachable!() };
				let Some(In::Bytes(b)) = self.input.front_mut() else { unreachable!() };
				b.splice(0..0, a);
			}
		}
		let Some(In::Bytes(b)) = self.input.front_mut() else { unreachable!() };
		let avail = b.len().min(buf.len());
		let n = match self.frag {
			Frag::All | Frag::Items => avail,
			Frag::Max(m) => avail.min(m),
			Frag::Choose => avail - self.cx.deviate(avail),
			Frag::ChooseZero(z) => {
				let extra = if self.zeros < z { 1 } else { 0 };
				let n = avail - self.cx.deviate(avail + extra);
				self.zeros = if n == 0 { self.zeros + 1 } else { 0 };
				n
			},
		};
		buf[..n].copy_from_slice(&b[..n]);
		b.drain(..n);
		if b.is_empty() {
			self.input.pop_front();
		}
		Ok(n)
	}
}

impl dynamixel2::SerialPort for VPort {
	type Error = VErr;
	type Instant = VInst;

	fn baud_rate(&self) -> Result<u32, VErr> {
		user_code(At::Port);
		let mut c = self.0.borrow_mut();
		let r = match c.call("baud_rate").or(c.fail_baud) {
			Some(e) => Err(e),
			None => Ok(c.baud),
		};
		c.ev(Ev::Baud(r));
		r
	}

	fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), VErr> {
		user_code(At::Port);
		let mut c = self.0.borrow_mut();
		let r = match c.call("set_baud_rate").or(c.fail_set_baud) {
			Some(e) => Err(e),
			None => {
				c.baud = baud_rate;
				Ok(())
			},
		};
		c.ev(Ev::SetBaud(baud_rate, r));
		r
	}

	fn discard_input_buffer(&mut self) -> Result<(), VErr> {
		user_code(At::Port);
		let mut c = self.0.borrow_mut();
		let r = match c.call("discard_input_buffer").or(c.fail_discard) {
			Some(e) => Err(e),
			None => {
				if !c.discard_noop {
					c.input.clear();
				}
				c.tx.clear();
				Ok(())
			},
		};
		c.ev(Ev::Discard(r));
		r
	}

	fn read(&mut self, buffer: &mut [u8], deadline: &VInst) -> Result<usize, VErr> {
		user_code(At::Port);
		let mut c = self.0.borrow_mut();
		let res = c.do_read(buffer);
		if let Ok(n) = res {
			c.cx.obs(&buffer[..n]);
			c.cx.trail(|| format!("read {}", crate::refmodel::hex(&buffer[..n])));
		}
		c.ev(Ev::Read { cap: buffer.len(), deadline: *deadline, res });
		res
	}

	fn write_all(&mut self, buffer: &[u8]) -> Result<(), VErr> {
		user_code(At::Port);
		let mut c = self.0.borrow_mut();
		let r = match c.call("write_all").or(c.fail_write) {
			Some(e) => Err(e),
			None => Ok(()),
		};
		c.ev(Ev::Write(buffer.to_vec(), r));
		if r.is_ok() {
			c.tx.extend_from_slice(buffer);
			while c.tx.len() >= 7 {
				let need = 7 + (c.tx[5] as usize | (c.tx[6] as usize) << 8);
				if c.tx.len() < need {
					break;
				}
				let f: Vec<u8> = c.tx.drain(..need).collect();
				if let Some(mut h) = c.on_frame.take() {
					let mut q = std::mem::take(&mut c.input);
					// The handler may look at the port (but not at this core).
					h(&f, &mut q);
					c.input = q;
					c.on_frame = Some(h);
				}
			}
		}
		r
	}

	fn make_deadline(&self, timeout: Duration) -> VInst {
		user_code(At::Port);
		let mut c = self.0.borrow_mut();
		let i = VInst { n: c.n_deadlines, timeout };
		c.n_deadlines += 1;
		c.ev(Ev::Deadline(i));
		i
	}

	fn is_timeout_error(error: &VErr) -> bool {
		*error == VErr::Timeout
	}
}


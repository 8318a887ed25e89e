//! An emulated kernel below the real `serial2` crate: this binary defines the system call wrappers that `serial2` and `std` use.
//!
//! Calls on the emulated file descriptor of the calling thread, and its clock, are served by [`Kernel`]; everything else goes to the real kernel.
use libc::{c_int, c_short, c_ulong, c_void, clockid_t, nfds_t, pollfd, size_t, ssize_t, termios2, timespec};
use mc::Cx;
use std::cell::RefCell;
use std::collections::VecDeque;

/// What the kernel may do apart from the plain success of each call.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
	/// The call is interrupted by a signal.
	Eintr,
	/// The call is interrupted by a signal half way its timeout.
	EintrHalfway,
	Eio,
	/// `poll` reports readiness although the next call would block.
	Spurious,
	/// `poll` returns somewhat later than asked.
	Late,
	/// Only one byte is moved.
	One,
	/// All bytes but one are moved.
	ButOne,
	Eagain,
	/// `write` accepts nothing.
	Zero,
	/// The device does not accept output.
	Stuck,
	/// The device applies a slightly different setting.
	Close,
	/// The device does not apply the setting.
	Ignored,
	Einval,
}

pub const LATE_NS: u64 = 900_000;

pub struct Kernel {
	pub fd: c_int,
	pub now: u64,
	/// Every look at the clock takes this long.
	pub tick: u64,
	pub rx: VecDeque<u8>,
	pub future: VecDeque<(u64, Vec<u8>)>,
	pub tx: Vec<u8>,
	pub termios: termios2,
	/// Whether faults are explored.
	pub faulty: bool,
	pub faults: Vec<(&'static str, Fault)>,
	/// A thread was asked to wait forever.
	pub forever: bool,
	/// Called with all output after every write.
	#[allow(clippy::type_complexity)]
	pub responder: Option<Box<dyn FnMut(&mut Vec<u8>, u64) -> Vec<(u64, Vec<u8>)>>>,
	/// Opening this path gives the emulated device.
	pub path: Option<&'static str>,
	/// The flags of every opening.
	pub opened: Vec<c_int>,
	pub calls: u64,
	pub slept: u64,
	pub trace: Vec<String>,
	panic: Option<Box<dyn std::any::Any + Send>>,
	cx: Cx,
}

thread_local! {
	static KERNEL: RefCell<Option<Box<Kernel>>> = const { RefCell::new(None) };
}

pub struct Guard(());
impl Drop for Guard {
	fn drop(&mut self) {
		KERNEL.with(|k| *k.borrow_mut() = None)
	}
}

pub fn raw8n1(baud: u32) -> termios2 {
	let mut t: termios2 = unsafe { std::mem::zeroed() };
	t.c_cflag = libc::CS8 | libc::CREAD | libc::CLOCAL | libc::HUPCL;
	set_speed(&mut t, baud);
	t.c_cc[libc::VMIN] = 1;
	t
}
const SPEEDS: [(u32, u32); 18] = [
	(libc::B50, 50),
	(libc::B300, 300),
	(libc::B1200, 1200),
	(libc::B2400, 2400),
	(libc::B4800, 4800),
	(libc::B9600, 9600),
	(libc::B19200, 19200),
	(libc::B38400, 38400),
	(libc::B57600, 57600),
	(libc::B115200, 115200),
	(libc::B230400, 230400),
	(libc::B460800, 460800),
	(libc::B921600, 921600),
	(libc::B1000000, 1000000),
	(libc::B2000000, 2000000),
	(libc::B3000000, 3000000),
	(libc::B3500000, 3500000),
	(libc::B4000000, 4000000),
];
/// The kernel encodes a standard speed in the flags.
pub fn set_speed(t: &mut termios2, baud: u32) {
	let code = SPEEDS.iter().find(|x| x.1 == baud).map_or(libc::BOTHER, |x| x.0);
	t.c_cflag = (t.c_cflag & !(libc::CBAUD | libc::CIBAUD)) | code | (code << libc::IBSHIFT);
	t.c_ospeed = baud;
	t.c_ispeed = baud;
}
pub fn speed(t: &termios2) -> u32 {
	let code = t.c_cflag & libc::CBAUD;
	SPEEDS.iter().find(|x| x.0 == code).map_or(t.c_ospeed, |x| x.1)
}
/// All settings but the speed.
pub fn framing(t: &termios2) -> (u32, u32, u32, u32, u8, [u8; 19]) {
	(t.c_iflag, t.c_oflag, t.c_cflag & !(libc::CBAUD | libc::CIBAUD), t.c_lflag, t.c_line, t.c_cc)
}

pub fn install(cx: &Cx, fd: c_int, baud: u32) -> Guard {
	let k = Kernel {
		fd,
		now: 5_000_000_000_000,
		tick: 0,
		rx: VecDeque::new(),
		future: VecDeque::new(),
		tx: vec![],
		termios: raw8n1(baud),
		faulty: false,
		faults: vec![],
		forever: false,
		responder: None,
		path: None,
		opened: vec![],
		calls: 0,
		slept: 0,
		trace: vec![],
		panic: None,
		cx: cx.clone(),
	};
	KERNEL.with(|x| *x.borrow_mut() = Some(Box::new(k)));
	Guard(())
}
pub fn with<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
	KERNEL.with(|k| {
		let mut k = k.borrow_mut();
		let k = k.as_mut().expect("no kernel");
		if let Some(p) = k.panic.take() {
			std::panic::resume_unwind(p)
		}
		f(k)
	})
}
fn emulated<R>(f: impl FnOnce(&mut Kernel) -> R) -> Option<R> {
	KERNEL.try_with(|k| k.try_borrow_mut().ok().and_then(|mut k| k.as_mut().map(|k| f(k)))).ok().flatten()
}
fn on_fd<R>(fd: c_int, f: impl FnOnce(&mut Kernel) -> R) -> Option<R> {
	emulated(|k| (k.fd == fd).then(|| f(k))).flatten()
}
fn errno(e: c_int) -> c_int {
	unsafe { *libc::__errno_location() = e };
	-1
}

impl Kernel {
	fn log(&mut self, what: &str) {
		if self.trace.len() < 200 {
			self.trace.push(format!("{what} at {} us", self.now / 1000));
		}
		self.cx.log(|| format!("    kernel: {what} at {} us", self.now / 1000));
	}
	fn fault(&mut self, call: &'static str, options: &[Fault]) -> Option<Fault> {
		self.calls += 1;
		if self.calls > 100_000 {
			// Let every loop with a deadline end.
			self.forever = true;
			self.now += 1_000_000_000;
			return None;
		}
		self.cx.step();
		if !self.faulty {
			return None;
		}
		// Nothing may unwind through the callers.
		let k = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.cx.deviate(options.len() + 1))) {
			Ok(k) => k,
			Err(p) => {
				self.faulty = false;
				self.panic = Some(p);
				return None;
			},
		};
		if k == 0 {
			return None;
		}
		let f = options[k - 1];
		self.faults.push((call, f));
		self.cx.log(|| format!("    kernel: {call} does {f:?}"));
		Some(f)
	}
	pub fn arrive(&mut self) {
		while self.future.front().is_some_and(|x| x.0 <= self.now) {
			let (_, b) = self.future.pop_front().unwrap();
			self.rx.extend(b);
		}
	}
	pub fn feed(&mut self, delay: u64, bytes: &[u8]) {
		if bytes.is_empty() {
			return;
		}
		let at = self.now + delay;
		let pos = self.future.iter().position(|x| x.0 > at).unwrap_or(self.future.len());
		self.future.insert(pos, (at, bytes.to_vec()));
		self.arrive();
	}
	pub fn advance(&mut self, ns: u64) {
		self.now += ns;
		self.arrive();
	}
	fn poll(&mut self, p: &mut pollfd, timeout: c_int) -> c_int {
		p.revents = 0;
		self.arrive();
		let input = p.events & libc::POLLIN != 0;
		let output = p.events & libc::POLLOUT != 0;
		self.log(if input { "poll for input" } else { "poll for output" });
		let end = if timeout < 0 { u64::MAX } else { self.now + timeout as u64 * 1_000_000 };
		let f = if output {
			self.fault("poll for output", &[Fault::Stuck, Fault::Eintr, Fault::Eio])
		} else {
			self.fault("poll", &[Fault::Eintr, Fault::Late, Fault::Spurious, Fault::Eio, Fault::EintrHalfway])
		};
		match f {
			Some(Fault::Eintr) => return errno(libc::EINTR),
			Some(Fault::Eio) => return errno(libc::ENOMEM),
			Some(Fault::EintrHalfway) => {
				// Only if nothing else happens first.
				let t = if timeout < 0 { 1_000_000 } else { (end - self.now) / 2 };
				let next = self.future.front().map_or(u64::MAX, |x| x.0);
				if self.rx.is_empty() && next > self.now + t {
					self.advance(t);
					return errno(libc::EINTR);
				}
			},
			Some(Fault::Spurious) => {
				p.revents = libc::POLLIN;
				return 1;
			},
			_ => (),
		}
		if output && f != Some(Fault::Stuck) {
			p.revents = libc::POLLOUT;
			return 1;
		}
		if input && self.rx.is_empty() {
			let next = self.future.front().map_or(u64::MAX, |x| x.0);
			let t = next.min(end);
			if t == u64::MAX {
				self.forever = true;
				return errno(libc::EIO);
			}
			self.slept += t - self.now;
			self.now = t;
			if f == Some(Fault::Late) {
				self.now += LATE_NS;
			}
			// Data that arrives at the very end is not seen, but can be read later.
			if next <= end {
				self.arrive();
			}
		} else if output {
			if timeout < 0 {
				self.forever = true;
				return errno(libc::EIO);
			}
			self.now = end;
		}
		if input && !self.rx.is_empty() {
			p.revents = libc::POLLIN;
			return 1;
		}
		0
	}
	fn read(&mut self, buf: *mut u8, n: usize) -> ssize_t {
		self.log("read");
		let n = n.min(self.rx.len());
		let n = match self.fault("read", &[Fault::One, Fault::ButOne, Fault::Eintr, Fault::Eio]) {
			Some(Fault::One) => n.min(1),
			Some(Fault::ButOne) => n.saturating_sub(1).max(n.min(1)),
			Some(Fault::Eintr) => return errno(libc::EINTR) as _,
			Some(Fault::Eio) => return errno(libc::EIO) as _,
			_ => n,
		};
		if n == 0 {
			return errno(libc::EAGAIN) as _;
		}
		for k in 0..n {
			unsafe { *buf.add(k) = self.rx.pop_front().unwrap() };
		}
		n as _
	}
	fn write(&mut self, buf: *const u8, n: usize) -> ssize_t {
		self.log("write");
		let n = match self.fault("write", &[Fault::One, Fault::ButOne, Fault::Eintr, Fault::Eagain, Fault::Zero, Fault::Eio]) {
			Some(Fault::One) => n.min(1),
			Some(Fault::ButOne) => n.saturating_sub(1).max(n.min(1)),
			Some(Fault::Eintr) => return errno(libc::EINTR) as _,
			Some(Fault::Eagain) => return errno(libc::EAGAIN) as _,
			Some(Fault::Eio) => return errno(libc::EIO) as _,
			Some(Fault::Zero) => 0,
			_ => n,
		};
		self.tx.extend((0..n).map(|k| unsafe { *buf.add(k) }));
		if let Some(mut r) = self.responder.take() {
			for (delay, bytes) in r(&mut self.tx, self.now) {
				self.feed(delay, &bytes);
			}
			self.responder = Some(r);
		}
		n as _
	}
	fn flush(&mut self, what: c_int) -> c_int {
		self.log("flush");
		self.arrive();
		if let Some(Fault::Eio) = self.fault("flush", &[Fault::Eio]) {
			return errno(libc::EIO);
		}
		if what == libc::TCIFLUSH || what == libc::TCIOFLUSH {
			self.rx.clear();
		}
		if what == libc::TCOFLUSH || what == libc::TCIOFLUSH {
			// Nothing was transmitted yet.
			self.tx.clear();
		}
		0
	}
	fn ioctl(&mut self, req: c_ulong, arg: *mut c_void) -> c_int {
		match req {
			libc::TCGETS2 => {
				self.log("get settings");
				if self.fault("get settings", &[Fault::Eio]).is_some() {
					return errno(libc::EIO);
				}
				unsafe { *(arg as *mut termios2) = self.termios };
				0
			},
			libc::TCSETS2 | libc::TCSETSW2 | libc::TCSETSF2 => {
				self.log("set settings");
				let mut t = unsafe { *(arg as *const termios2) };
				let mut s = speed(&t);
				match self.fault("set settings", &[Fault::Close, Fault::Ignored, Fault::Einval, Fault::Eio]) {
					Some(Fault::Close) => s += s / 100,
					Some(Fault::Ignored) => s = speed(&self.termios),
					Some(Fault::Einval) => return errno(libc::EINVAL),
					Some(Fault::Eio) => return errno(libc::EIO),
					_ => (),
				}
				set_speed(&mut t, s);
				self.termios = t;
				if req == libc::TCSETSF2 {
					self.arrive();
					self.rx.clear();
				}
				0
			},
			libc::TCFLSH => self.flush(arg as usize as c_int),
			libc::FIONREAD => {
				self.arrive();
				unsafe { *(arg as *mut c_int) = self.rx.len() as c_int };
				0
			},
			libc::TCSBRK => 0,
			_ => errno(libc::ENOTTY),
		}
	}
}

unsafe fn open_path(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
	let real = |p: *const libc::c_char| libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int;
	let name = std::ffi::CStr::from_ptr(path);
	let ours = emulated(|k| {
		(k.path.is_some_and(|p| p.as_bytes() == name.to_bytes())).then(|| {
			k.log("open");
			k.opened.push(flags);
			match k.fault("open", &[Fault::Eio, Fault::Einval]) {
				Some(Fault::Eio) => errno(libc::EIO),
				Some(_) => errno(libc::EACCES),
				None => {
					k.fd = real(c"/dev/null".as_ptr());
					k.fd
				},
			}
		})
	});
	match ours.flatten() {
		Some(fd) => fd,
		None => real(path),
	}
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const libc::c_char, flags: c_int, mode: libc::mode_t) -> c_int {
	open_path(path, flags, mode)
}
#[no_mangle]
unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
	if n == 1 && !fds.is_null() {
		if let Some(x) = on_fd((*fds).fd, |k| k.poll(&mut *fds, timeout)) {
			return x;
		}
	}
	libc::syscall(libc::SYS_poll, fds, n, timeout) as _
}
#[no_mangle]
unsafe extern "C" fn ppoll(fds: *mut pollfd, n: nfds_t, t: *const timespec, _: *const c_void) -> c_int {
	let ms = if t.is_null() { -1 } else { ((*t).tv_sec * 1000 + (*t).tv_nsec / 1_000_000) as c_int };
	poll(fds, n, ms)
}
#[no_mangle]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
	match on_fd(fd, |k| k.read(buf as _, n)) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_read, fd, buf, n) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
	match on_fd(fd, |k| k.write(buf as _, n)) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_write, fd, buf, n) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
	let on = |k: &mut Kernel| {
		let first = (0..n as usize).map(|i| &*v.add(i)).find(|x| x.iov_len > 0);
		first.map_or(0, |x| k.read(x.iov_base as _, x.iov_len))
	};
	match on_fd(fd, on) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_readv, fd, v, n) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
	let on = |k: &mut Kernel| {
		let first = (0..n as usize).map(|i| &*v.add(i)).find(|x| x.iov_len > 0);
		first.map_or(0, |x| k.write(x.iov_base as _, x.iov_len))
	};
	match on_fd(fd, on) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_writev, fd, v, n) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
	match on_fd(fd, |k| k.ioctl(req, arg)) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_ioctl, fd, req, arg) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn tcflush(fd: c_int, what: c_int) -> c_int {
	match on_fd(fd, |k| k.flush(what)) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_ioctl, fd, libc::TCFLSH, what as c_ulong) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn tcdrain(fd: c_int) -> c_int {
	match on_fd(fd, |_| 0) {
		Some(x) => x,
		None => libc::syscall(libc::SYS_ioctl, fd, libc::TCSBRK, 1 as c_ulong) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: clockid_t, out: *mut timespec) -> c_int {
	let now = emulated(|k| {
		k.advance(k.tick);
		k.now
	});
	match now {
		Some(now) => {
			(*out).tv_sec = (now / 1_000_000_000) as _;
			(*out).tv_nsec = (now % 1_000_000_000) as _;
			0
		},
		None => libc::syscall(libc::SYS_clock_gettime, clock, out) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn nanosleep(t: *const timespec, rem: *mut timespec) -> c_int {
	let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
	match emulated(|k| k.advance(ns)) {
		Some(()) => 0,
		None => libc::syscall(libc::SYS_nanosleep, t, rem) as _,
	}
}
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clock: clockid_t, flags: c_int, t: *const timespec, rem: *mut timespec) -> c_int {
	let ns = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
	let done = emulated(|k| {
		if flags & libc::TIMER_ABSTIME != 0 {
			k.advance(ns.saturating_sub(k.now));
		} else {
			k.advance(ns)
		}
	});
	match done {
		Some(()) => 0,
		None => {
			if libc::syscall(libc::SYS_clock_nanosleep, clock, flags, t, rem) == 0 {
				0
			} else {
				*libc::__errno_location()
			}
		},
	}
}
#[allow(unused)]
const _: c_short = libc::POLLIN;

//! C30: the serial2 adapter honours deadlines and reports timeouts as timeouts.
//!
//! The real adapter and the real `serial2` crate run on an emulated kernel with a virtual clock.
//! The emulated kernel is compared with the real one on pseudo terminals.
mod kernel;
use dynamixel2::{Client, Device, SerialPort as Port};
use kernel::{framing, install, speed, with, Guard};
use mc::*;
use std::io::ErrorKind;
use std::os::fd::{AsRawFd, OwnedFd};
use std::time::Instant;

type S2 = serial2::SerialPort;
/// `poll` takes its timeout in milliseconds.
const RESOLUTION: u64 = 1_000_000;

fn open(cx: &Cx, baud: u32) -> (Guard, S2) {
	let fd = OwnedFd::from(std::fs::File::open("/dev/null").unwrap());
	let g = install(cx, fd.as_raw_fd(), baud);
	(g, S2::from(fd))
}
fn is_timeout(e: &std::io::Error) -> bool {
	<S2 as Port>::is_timeout_error(e)
}
/// All bytes that were sent to us and not read yet.
fn unread() -> Vec<u8> {
	with(|k| k.rx.iter().copied().chain(k.future.iter().flat_map(|x| x.1.clone())).collect())
}
fn now() -> u64 {
	with(|k| k.now)
}
fn n_faults() -> usize {
	with(|k| k.faults.len())
}
/// The instant `ns` after (or before) the present, without letting time pass.
fn instant(ns: i64) -> Instant {
	let tick = with(|k| std::mem::take(&mut k.tick));
	let t = Instant::now();
	with(|k| k.tick = tick);
	if ns < 0 {
		t - Duration::from_nanos(-ns as u64)
	} else {
		t + Duration::from_nanos(ns as u64)
	}
}

/// Do one read and check it.
fn read(cx: &Cx, port: &mut S2, size: usize, deadline_ns: i64) -> Option<Vec<u8>> {
	with(|k| k.arrive());
	let deadline = instant(deadline_ns);
	let (before, t0, f0, c0) = (unread(), now(), n_faults(), with(|k| k.calls));
	let (had, first) = with(|k| (!k.rx.is_empty(), k.future.front().map(|x| x.0)));
	let tick = with(|k| k.tick);
	let mut buf = vec![0xEE; size];
	let r = Port::read(port, &mut buf, &deadline);
	let (after, t1) = (unread(), now());
	let faulted = n_faults() > f0;
	let late = with(|k| k.faults[f0..].iter().filter(|f| f.1 == kernel::Fault::Late).count() as u64 * kernel::LATE_NS);
	let looks = with(|k| k.calls) - c0;
	// Looking at the clock takes time.
	let slack = tick * (4 + 4 * looks);
	let d = (t0 as i64 + deadline_ns) as u64;
	cx.trail(|| format!("read {size}, deadline in {} us: {r:?} after {} us", deadline_ns / 1000, (t1 - t0) / 1000));
	cx.log(|| format!("read of {size} bytes with a deadline in {deadline_ns} ns: {r:?} after {} ns", t1 - t0));
	let what = || format!("a read of {size} bytes with its deadline in {deadline_ns} ns");
	if with(|k| k.forever) {
		vfail!("{} waits without a limit", what());
	}
	if t1 > d.max(t0) + late + slack {
		vfail!("{} took {} ns", what(), t1 - t0);
	}
	match r {
		Ok(n) => {
			if n > size {
				vfail!("{} returned {n} bytes", what());
			}
			let mut joined = buf[..n].to_vec();
			joined.extend(&after);
			if joined != before {
				vfail!("{} returned {} and left {}; before there was {}", what(), hex(&buf[..n]), hex(&after), hex(&before));
			}
			if n == 0 && size > 0 {
				vfail!("{} returned no bytes", what());
			}
			if deadline_ns < 0 && size > 0 {
				vfail!("{} did not time out", what());
			}
			cx.outcome(&(0, n));
			Some(buf[..n].to_vec())
		},
		Err(e) => {
			if after != before {
				vfail!("{} failed with {e:?} and left {} instead of {}", what(), hex(&after), hex(&before));
			}
			if is_timeout(&e) {
				cx.outcome(&1);
				if t1 + RESOLUTION + slack < d {
					vfail!("{} timed out {} ns early: {e:?}", what(), d - t1);
				}
				let spurious = with(|k| k.faults[f0..].iter().any(|f| matches!(f.1, kernel::Fault::Eintr | kernel::Fault::EintrHalfway | kernel::Fault::Spurious)));
				if deadline_ns >= slack as i64 && had && !spurious {
					vfail!("{} timed out although there was input: {e:?}", what());
				}
				if first.is_some_and(|x| x + RESOLUTION + slack < d && x <= t1) && deadline_ns >= 0 && !spurious {
					vfail!("{} timed out although input arrived in time: {e:?}", what());
				}
				if e.kind() != ErrorKind::TimedOut {
					vfail!("{}: {e:?} counts as a timeout", what());
				}
			} else {
				cx.outcome(&(2, format!("{:?}", e.kind())));
				if !faulted {
					vfail!("{} failed with {e:?} although nothing went wrong", what());
				}
				if e.kind() == ErrorKind::TimedOut {
					vfail!("{}: {e:?} does not count as a timeout", what());
				}
			}
			None
		},
	}
}
fn discard(cx: &Cx, port: &mut S2) {
	with(|k| k.arrive());
	let f0 = n_faults();
	let (future, tx, all) = (with(|k| k.future.clone()), with(|k| k.tx.clone()), unread());
	let r = port_discard(port);
	cx.trail(|| format!("discard: {r:?}"));
	match r {
		Ok(()) => {
			let (rx, f, t) = with(|k| (k.rx.clone(), k.future.clone(), k.tx.clone()));
			if !rx.is_empty() {
				vfail!("discarding left {} received bytes", rx.len());
			}
			veq!(f, future, "bytes to be received later after a discard");
			veq!(t, tx, "written bytes after a discard");
		},
		Err(e) => {
			vassert!(n_faults() > f0, "discarding failed with {e:?} although nothing went wrong");
			vassert!(!is_timeout(&e), "discarding failed with a timeout: {e:?}");
			veq!(unread(), all, "input after a failed discard");
			veq!(with(|k| k.tx.clone()), tx, "written bytes after a failed discard");
		},
	}
}
fn port_discard(p: &mut S2) -> std::io::Result<()> {
	Port::discard_input_buffer(p)
}
fn write(cx: &Cx, port: &mut S2, data: &[u8]) {
	let f0 = n_faults();
	let (tx, rx, t0) = (with(|k| k.tx.clone()), unread(), now());
	let r = Port::write_all(port, data);
	cx.trail(|| format!("write {}: {r:?}", hex(data)));
	let now_tx = with(|k| k.tx.clone());
	let faults = with(|k| k.faults[f0..].to_vec());
	veq!(unread(), rx, "input after a write");
	vassert!(!with(|k| k.forever), "a write waits without a limit");
	let new = now_tx.strip_prefix(&tx[..]);
	vassert!(new.is_some(), "a write of {} changed earlier output {} to {}", hex(data), hex(&tx), hex(&now_tx));
	let new = new.unwrap();
	match r {
		Ok(()) => {
			veq!(new, data, "bytes delivered by a write");
			cx.outcome(&(10, data.len()));
		},
		Err(e) => {
			cx.outcome(&(11, format!("{:?}", e.kind())));
			let real = faults.iter().any(|f| !matches!(f.1, kernel::Fault::One | kernel::Fault::ButOne));
			vassert!(real, "a write failed with {e:?} although nothing went wrong");
			vassert!(data.starts_with(new), "a failed write of {} delivered {}", hex(data), hex(new));
			vassert!(is_timeout(&e) == (e.kind() == ErrorKind::TimedOut), "{e:?} is classified wrongly");
			let stuck = faults.iter().any(|f| f.1 == kernel::Fault::Stuck);
			vassert!(!is_timeout(&e) || stuck && now() > t0, "a write timed out although the device accepted output: {e:?}");
		},
	}
}
fn get_baud(cx: &Cx, port: &S2) {
	let f0 = n_faults();
	let t = with(|k| k.termios);
	let r = Port::baud_rate(port);
	cx.trail(|| format!("baud rate: {r:?}"));
	match r {
		Ok(x) => {
			veq!(x, speed(&t), "the baud rate");
			cx.outcome(&(20, x));
		},
		Err(e) => {
			vassert!(n_faults() > f0, "getting the baud rate failed with {e:?} although nothing went wrong");
			vassert!(!is_timeout(&e), "getting the baud rate failed with a timeout: {e:?}");
		},
	}
	veq!(with(|k| (framing(&k.termios), speed(&k.termios))), (framing(&t), speed(&t)), "settings after getting the baud rate");
}
fn set_baud(cx: &Cx, port: &mut S2, baud: u32) {
	let f0 = n_faults();
	let (t, all, tx) = (with(|k| k.termios), unread(), with(|k| k.tx.clone()));
	let r = Port::set_baud_rate(port, baud);
	cx.trail(|| format!("set baud rate {baud}: {r:?}"));
	let t2 = with(|k| k.termios);
	let faults = with(|k| k.faults[f0..].to_vec());
	veq!(framing(&t2), framing(&t), "character format and flow control after setting the baud rate {baud}");
	veq!(unread(), all, "input after setting the baud rate");
	veq!(with(|k| k.tx.clone()), tx, "output after setting the baud rate");
	let odd = faults.iter().any(|f| matches!(f.1, kernel::Fault::Close | kernel::Fault::Ignored));
	match r {
		Ok(()) => {
			let s = speed(&t2);
			if !odd {
				veq!(s, baud, "the baud rate after setting it");
			}
			vassert!(s.abs_diff(baud) as u64 * 40 <= baud as u64, "setting the baud rate {baud} gave {s} without an error");
			veq!(t2.c_ispeed, t2.c_ospeed, "input and output speed");
			cx.outcome(&(30, s));
		},
		Err(e) => {
			vassert!(!faults.is_empty(), "setting the baud rate {baud} failed with {e:?} although nothing went wrong");
			vassert!(!is_timeout(&e), "setting the baud rate failed with a timeout: {e:?}");
			cx.outcome(&(31, format!("{:?}", e.kind())));
		},
	}
}

const KINDS: &[ErrorKind] = &[
	ErrorKind::NotFound,
	ErrorKind::PermissionDenied,
	ErrorKind::ConnectionRefused,
	ErrorKind::ConnectionReset,
	ErrorKind::HostUnreachable,
	ErrorKind::NetworkUnreachable,
	ErrorKind::ConnectionAborted,
	ErrorKind::NotConnected,
	ErrorKind::AddrInUse,
	ErrorKind::AddrNotAvailable,
	ErrorKind::NetworkDown,
	ErrorKind::BrokenPipe,
	ErrorKind::AlreadyExists,
	ErrorKind::WouldBlock,
	ErrorKind::NotADirectory,
	ErrorKind::IsADirectory,
	ErrorKind::DirectoryNotEmpty,
	ErrorKind::ReadOnlyFilesystem,
	ErrorKind::StaleNetworkFileHandle,
	ErrorKind::InvalidInput,
	ErrorKind::InvalidData,
	ErrorKind::TimedOut,
	ErrorKind::WriteZero,
	ErrorKind::StorageFull,
	ErrorKind::NotSeekable,
	ErrorKind::FileTooLarge,
	ErrorKind::ResourceBusy,
	ErrorKind::ExecutableFileBusy,
	ErrorKind::Deadlock,
	ErrorKind::TooManyLinks,
	ErrorKind::ArgumentListTooLong,
	ErrorKind::Interrupted,
	ErrorKind::Unsupported,
	ErrorKind::UnexpectedEof,
	ErrorKind::OutOfMemory,
	ErrorKind::Other,
];

/// Replies to a ping, a read and a write with the given delay before and gap in the reply.
fn responder(mut delay: impl FnMut(usize) -> (u64, u64, usize) + 'static, garbage: bool) -> Box<dyn FnMut(&mut Vec<u8>, u64) -> Vec<(u64, Vec<u8>)>> {
	Box::new(move |tx, _| {
		let Ok((id, inst, _)) = parse_exact(tx) else { return vec![] };
		let n = tx.len();
		tx.clear();
		let body: &[u8] = match inst {
			PING => &[0x06, 0x04, 0x26],
			READ => &[0x34, 0x12],
			_ => &[],
		};
		let mut r = if garbage { vec![0x00, 0xFF, 0xFF] } else { vec![] };
		r.extend(status(id, 0, body));
		let (d, gap, cut) = delay(n);
		if d == u64::MAX {
			return vec![];
		}
		let cut = cut.min(r.len());
		let (a, b) = r.split_at(cut);
		let mut v = vec![(d, a.to_vec())];
		if gap != u64::MAX {
			v.push((d + gap, b.to_vec()));
		}
		v
	})
}

// ------------------------------------------------------------ opening

const PATH: &str = "/dev/emulated serial port";

/// Either end of the library.
enum End {
	C(Client<S2, Vec<u8>>),
	D(Device<S2, Vec<u8>>),
}
fn open_and_use(cx: &Cx, how: usize, baud: u32, bench: usize) {
	// The sizes of the read and write buffer.
	let (mut nr, mut nw) = (128, 128);
	let port = || {
		// The caller opened the port.
		with(|k| k.faulty = false);
		let p = S2::open(PATH, baud).unwrap_or_else(|e| engine_error(format!("{e}")));
		with(|k| {
			k.opened.clear();
			k.faulty = true;
		});
		p
	};
	let what = ["Client::open", "Client::open_with_buffers", "Device::open", "Device::open_with_buffers", "Client::new", "Device::new"][how];
	let r = match how {
		0 => Client::open(PATH, baud).map(End::C),
		1 | 3 => {
			(nr, nw) = ([10, 24, 300][bench], [33, 10, 200][bench]);
			match how {
				1 => Client::open_with_buffers(std::path::PathBuf::from(PATH), baud, vec![0; nr], vec![0; nw]).map(End::C),
				_ => Device::open_with_buffers(std::ffi::OsStr::new(PATH), baud, vec![0; nr], vec![0; nw]).map(End::D),
			}
		},
		2 => Device::open(PATH, baud).map(End::D),
		4 => Client::new(port()).map(End::C),
		_ => Device::new(port()).map(End::D),
	};
	cx.outcome(&(how, r.is_ok()));
	let faults = with(|k| k.faults.clone());
	cx.trail(|| format!("{what}(.., {baud}): {:?} with faults {faults:?}", r.as_ref().err()));
	let mut end = match r {
		Ok(x) => x,
		Err(e) => {
			vassert!(!faults.is_empty(), "{what}(.., {baud}) failed with {e:?} although nothing went wrong");
			vassert!(!is_timeout(&e), "{what} failed with a timeout: {e:?}");
			return;
		},
	};
	let actual = with(|k| speed(&k.termios));
	if faults.iter().any(|f| !(f.1 == kernel::Fault::Close || f.1 == kernel::Fault::Ignored && actual == baud)) {
		vfail!("{what}(.., {baud}) succeeded although {faults:?}");
	}
	if how < 4 {
		let opened = with(|k| k.opened.clone());
		veq!(opened.len(), 1, "how often {what} opened the device");
		if opened[0] & libc::O_ACCMODE != libc::O_RDWR || opened[0] & libc::O_NOCTTY == 0 {
			vfail!("{what} opened the device with flags {:o}", opened[0]);
		}
		let t = with(|k| k.termios);
		let cflag = libc::CSIZE | libc::PARENB | libc::CSTOPB | libc::CRTSCTS;
		veq!(t.c_cflag & cflag, libc::CS8, "character size, parity, stop bits and flow control after {what}");
		let iflag = libc::ICRNL | libc::INLCR | libc::IGNCR | libc::IXON | libc::IXOFF | libc::ISTRIP | libc::PARMRK;
		veq!(t.c_iflag & iflag, 0, "input processing after {what}");
		veq!(t.c_oflag & libc::OPOST, 0, "output processing after {what}");
		veq!(t.c_lflag & (libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN), 0, "line discipline after {what}");
	}
	if faults.is_empty() {
		veq!(actual, baud, "the baud rate of the port after {what}");
	}
	let known = match &end {
		End::C(c) => c.baud_rate(),
		End::D(d) => d.baud_rate(),
	};
	if known.abs_diff(baud) > baud / 50 {
		vfail!("{what}(.., {baud}): the reported baud rate is {known}");
	}
	with(|k| k.faulty = false);
	// Messages of the size of the buffers.
	for extra in [0usize, 1] {
		with(|k| k.tx.clear());
		let (want, r) = match &mut end {
			End::C(c) => {
				let p = vec![0x11u8; nw + extra - 10];
				let r = c.write_instruction(3, 0x77, p.len(), |b| {
					b.copy_from_slice(&p);
					Ok(())
				});
				(frame(3, 0x77, &p), r)
			},
			End::D(d) if nw + extra >= 11 => {
				let p = vec![0x11u8; nw + extra - 11];
				let r = d.write_status(3, 0, p.len(), |b| {
					b.copy_from_slice(&p);
					Ok(())
				});
				(status(3, 0, &p), r)
			},
			_ => continue,
		};
		let tx = with(|k| k.tx.clone());
		match (extra, r) {
			(0, Ok(())) => veq!(tx, want, "a message of {nw} bytes sent after {what}"),
			(1, Err(dynamixel2::WriteError::BufferTooSmall(e))) if tx.is_empty() && e.required_size == nw + 1 && e.total_size == nw => (),
			(_, r) => vfail!("{what}, sending a message of {} bytes with a buffer of {nw}: {r:?}, transmitted {}", nw + extra, hex(&tx)),
		}
	}
	for extra in [0usize, 1] {
		let n = nr + extra;
		let (t0, ns) = (now(), 5_000_000);
		let r = match &mut end {
			End::C(c) => {
				if n < 11 {
					continue;
				}
				with(|k| k.feed(0, &status(5, 0, &vec![0x22; n - 11])));
				c.read_status_response_timeout(Duration::from_nanos(ns)).map(|s| (s.packet_id(), s.parameters().len() + 11))
			},
			End::D(d) => {
				with(|k| k.feed(0, &frame(5, 0x66, &vec![0x22; n - 10])));
				d.read_raw_instruction_timeout(Duration::from_nanos(ns)).map(|s| (s.packet_id(), s.parameters().len() + 10))
			},
		};
		match (extra, r) {
			(0, Ok(x)) => veq!(x, (5, nr), "ID and size of a message received after {what}"),
			(1, Err(dynamixel2::ReadError::BufferFull(e))) if e.required_size == n && e.total_size == nr => (),
			(_, r) => vfail!("{what}, receiving a message of {n} bytes with a buffer of {nr}: {r:?}"),
		}
		vassert!(now() - t0 < 1_000_000, "receiving a message that is there took {} ns", now() - t0);
	}
	// Silence.
	with(|k| {
		k.rx.clear();
		k.future.clear();
	});
	let t0 = now();
	let (r, limit) = match &mut end {
		End::C(c) => {
			let r = c.reboot(9).map(|_| ()).map_err(|e| format!("{e:?}"));
			(r, reply_timeout_ns(11, known, 1) as u64)
		},
		End::D(d) => (d.read(Duration::from_millis(7)).map(|_| ()).map_err(|e| format!("{e:?}")), 7_000_000),
	};
	let took = now() - t0;
	if r.is_ok() || took + RESOLUTION + 100_000 < limit || took > limit + 100_000 {
		vfail!("{what}(.., {baud}): waiting for {limit} ns gave {r:?} after {took} ns");
	}
}

// ------------------------------------------------------------ the real kernel

/// A history that is run on a pseudo terminal and on the emulated kernel.
#[derive(Clone, Copy, Debug, PartialEq)]
enum H {
	Feed(u8),
	Read(usize),
	Expired,
	Discard,
	Write(u8),
	SetBaud(u32),
	GetBaud,
}
const HS: [H; 10] =
	[H::Feed(1), H::Feed(4), H::Read(2), H::Read(64), H::Expired, H::Discard, H::Write(3), H::GetBaud, H::SetBaud(115200), H::SetBaud(57600)];


#[derive(Debug, PartialEq)]
enum R {
	Bytes(Vec<u8>),
	Timeout,
	Done,
	Baud(u32),
	Other(String),
}
/// Run a history through the adapter. `feed` makes the bytes arrive, `sent` gives everything written.
fn history(h: &[H], port: &mut S2, feed: &mut dyn FnMut(&[u8]), sent: &mut dyn FnMut(usize) -> Vec<u8>) -> (Vec<R>, Vec<u8>) {
	let mut next = 0u8;
	let mut written = 0;
	let mut out = vec![];
	for op in h {
		let r = |r: std::io::Result<()>| match r {
			Ok(()) => R::Done,
			Err(e) => R::Other(format!("{:?}", e.kind())),
		};
		let get = |port: &mut S2, n: usize, d: Instant| {
			let mut b = vec![0; n];
			match Port::read(port, &mut b, &d) {
				Ok(n) => R::Bytes(b[..n].to_vec()),
				Err(e) if is_timeout(&e) => R::Timeout,
				Err(e) => R::Other(format!("{:?}", e.kind())),
			}
		};
		out.push(match *op {
			H::Feed(n) => {
				let b: Vec<u8> = (0..n).map(|k| next.wrapping_add(k)).collect();
				next = next.wrapping_add(n);
				feed(&b);
				R::Done
			},
			H::Read(n) => {
				let d = port.make_deadline(Duration::from_millis(2));
				get(port, n, d)
			},
			H::Expired => {
				let d = port.make_deadline(Duration::ZERO) - Duration::from_millis(5);
				get(port, 8, d)
			},
			H::Discard => r(port_discard(port)),
			H::Write(n) => {
				let b: Vec<u8> = (0..n).map(|k| 0xA0 + k + written as u8).collect();
				written += n as usize;
				r(Port::write_all(port, &b))
			},
			H::SetBaud(b) => r(Port::set_baud_rate(port, b)),
			H::GetBaud => match Port::baud_rate(port) {
				Ok(x) => R::Baud(x),
				Err(e) => R::Other(format!("{:?}", e.kind())),
			},
		});
	}
	(out, sent(written))
}
fn on_emulated(cx: &Cx, h: &[H]) -> (Vec<R>, Vec<u8>) {
	let (_g, mut port) = open(cx, 57600);
	history(h, &mut port, &mut |b| with(|k| k.feed(0, b)), &mut |_| with(|k| k.tx.clone()))
}
fn on_pty(h: &[H]) -> (Vec<R>, Vec<u8>) {
	let (master, mut slave) = S2::pair().unwrap_or_else(|e| engine_error(format!("no pseudo terminal: {e}")));
	Port::set_baud_rate(&mut slave, 57600).unwrap_or_else(|e| engine_error(format!("cannot prepare a pseudo terminal: {e}")));
	let fd = slave.as_raw_fd();
	let mut feed = |b: &[u8]| {
		let waiting = |fd| unsafe {
			let mut n: libc::c_int = 0;
			libc::ioctl(fd, libc::FIONREAD, &mut n as *mut _);
			n as usize
		};
		let want = waiting(fd) + b.len();
		master.write_all(b).unwrap_or_else(|e| engine_error(format!("cannot write to a pseudo terminal: {e}")));
		let t = Instant::now();
		while waiting(fd) < want {
			if t.elapsed() > Duration::from_secs(10) {
				engine_error("a pseudo terminal does not deliver".into());
			}
			std::thread::yield_now();
		}
	};
	let mut sent = |n: usize| {
		let mut out = vec![];
		let mut b = [0; 256];
		unsafe {
			let f = libc::fcntl(master.as_raw_fd(), libc::F_GETFL);
			libc::fcntl(master.as_raw_fd(), libc::F_SETFL, f | libc::O_NONBLOCK);
		}
		let t = Instant::now();
		// Everything that was promised, and anything beyond.
		while out.len() < n && t.elapsed() < Duration::from_secs(5) {
			let n = unsafe { libc::read(master.as_raw_fd(), b.as_mut_ptr() as _, b.len()) };
			if n > 0 {
				out.extend(&b[..n as usize]);
			}
		}
		let n = unsafe { libc::read(master.as_raw_fd(), b.as_mut_ptr() as _, b.len()) };
		if n > 0 {
			out.extend(&b[..n as usize]);
		}
		out
	};
	history(h, &mut slave, &mut feed, &mut sent)
}

fn main() {
	let mut r = Runner::new("C30");
	r.assume("The kernel below serial2 is emulated, with a virtual clock; it is compared with the real one on pseudo terminals.");
	r.assume("poll's millisecond resolution makes a timeout up to 1 ms early acceptable; timeouts of 24 days and more are out of scope.");
	r.assume("An interrupted poll may be reported as an (other than timeout) error.");
	let t = |q, th| if std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough") { th } else { q };

	// Classification of errors.
	r.sweep("error classification", KINDS.len() as u64 * 3 + 300, |i, cx| {
		let i = i as usize;
		let e = match i.checked_sub(300) {
			None => std::io::Error::from_raw_os_error(i as i32),
			Some(j) => {
				let k = KINDS[j / 3];
				match j % 3 {
					0 => std::io::Error::from(k),
					1 => std::io::Error::new(k, "timed out"),
					_ => std::io::Error::new(k, std::io::Error::from(ErrorKind::TimedOut)),
				}
			},
		};
		let want = e.kind() == ErrorKind::TimedOut;
		cx.outcome(&want);
		veq!(is_timeout(&e), want, "classification of {e:?} as a timeout");
	});

	// Deadlines.
	const NS: [u64; 14] = [0, 1, 999, 1_000_000, 999_999, 1_000_001, 34_000_000, 500_000, 10_000_000_000, 1 << 40, 3_600_000_000_000, 86_400_000_000_000, 1 << 32, (1 << 32) * 1_000_000];
	r.tree("deadlines", None, |cx| {
		let (_g, port) = open(cx, 57600);
		let tick = *cx.pick(&[0, 1, 1000]);
		with(|k| k.tick = tick);
		let ns = *cx.pick(&NS);
		let t0 = now();
		let base = instant(0);
		let d = port.make_deadline(Duration::from_nanos(ns));
		let t1 = now();
		let got = d.duration_since(base).as_nanos() as u64;
		cx.outcome(&(got, ns));
		vassert!(got >= ns && got <= ns + (t1 - t0), "a deadline in {ns} ns is {got} ns away");
	});

	// One read in every situation.
	let offsets: [i64; 16] = [
		-10_000_000_000, -1_000_000, -1, 0, 1, 500_000, 999_999, 1_000_000, 1_500_000, 2_000_000, 10_000_000, 34_000_000, 60_000_000, 1_000_000_000, 3_600_000_000_000,
		2_000_000_000_000_000,
	];
	r.tree("one read", Some(t(3, 5)), |cx| {
		let (_g, mut port) = open(cx, 57600);
		let tick = *cx.pick(&[0, 1000, 300_000]);
		let waiting = *cx.pick(&[0usize, 1, 5]);
		let deadline = *cx.pick(&offsets);
		let size = *cx.pick(&[1usize, 3, 8]);
		let later = cx.choose(7);
		with(|k| {
			k.tick = tick;
			k.faulty = true;
			k.feed(0, &[1, 2, 3, 4, 5][..waiting]);
			let d = deadline.max(0) as u64;
			let at = match later {
				0 => return,
				1 => 1,
				2 => d / 2,
				3 => d.saturating_sub(1_200_000),
				4 => d,
				5 => d + 1,
				_ => d + 5_000_000,
			};
			k.feed(at.max(1), &[6, 7, 8]);
		});
		read(cx, &mut port, size, deadline);
		// What is left can be read afterwards.
		with(|k| {
			k.faulty = false;
			k.tick = 0;
			k.advance(deadline.max(0) as u64 + 10_000_000);
		});
		while !unread().is_empty() {
			read(cx, &mut port, 2, 5_000_000);
		}
		read(cx, &mut port, 2, 5_000_000);
	});

	// Histories.
	let histories = |cx: &Cx, depth: usize| {
		let (_g, mut port) = open(cx, 57600);
		with(|k| {
			k.faulty = true;
			k.tick = 1000;
		});
		let mut n = 0u8;
		for _ in 0..depth {
			match cx.choose(11) {
				0 => return,
				1 => {
					n += 3;
					with(|k| k.feed(0, &[n, n + 1, n + 2]));
				},
				2 => {
					n += 3;
					with(|k| k.feed(3_000_000, &[n, n + 1, n + 2]));
				},
				3 => drop(read(cx, &mut port, 2, 5_000_000)),
				4 => drop(read(cx, &mut port, 16, 2_000_000)),
				5 => drop(read(cx, &mut port, 16, -1_000_000)),
				6 => discard(cx, &mut port),
				7 => {
					n += 3;
					write(cx, &mut port, &[n, 0xFF, n + 1])
				},
				8 => set_baud(cx, &mut port, 1_000_000),
				9 => set_baud(cx, &mut port, 123_456),
				_ => get_baud(cx, &port),
			}
		}
	};
	r.tree("histories with faults", Some(1), |cx| histories(cx, t(5, 6)));
	r.tree("shorter histories with more faults", Some(t(2, 3)), |cx| histories(cx, 4));
	r.tree("longer histories without faults", Some(0), |cx| histories(cx, t(6, 7)));

	// Baud rates.
	let mut bauds: Vec<u32> = vec![
		1, 49, 50, 110, 300, 1200, 1201, 2400, 4800, 9600, 19200, 38400, 57142, 57600, 100_000, 115_200, 117_647, 123_456, 230_400, 250_000, 460_800, 500_000, 576_000, 921_600,
		1_000_000, 1_152_000, 1_500_000, 2_000_000, 2_500_000, 3_000_000, 3_500_000, 4_000_000, 4_500_000, 10_500_000, 12_000_000, 99_999_999, 1 << 31,
	];
	if r.thorough() {
		bauds.extend((0..20_000).map(|k| 57600 + k * 211));
	}
	r.sweep("baud rates", (bauds.len() * bauds.len().min(40)) as u64, |i, cx| {
		let n = bauds.len() as u64;
		let (a, b) = (bauds[(i % n) as usize], bauds[(i / n) as usize]);
		let (_g, mut port) = open(cx, 9600);
		for x in [b, a, b] {
			set_baud(cx, &mut port, x);
			get_baud(cx, &port);
		}
	});
	r.tree("baud rates with faults", Some(t(3, 4)), |cx| {
		let (_g, mut port) = open(cx, *cx.pick(&[57600, 123_456]));
		with(|k| k.faulty = true);
		for _ in 0..3 {
			set_baud(cx, &mut port, *cx.pick(&[57600, 1_000_000, 58_000, 123_456]));
			get_baud(cx, &port);
		}
	});

	// Writes of all sizes.
	r.tree("writes", Some(t(4, 6)), |cx| {
		let (_g, mut port) = open(cx, 57600);
		with(|k| k.faulty = true);
		let n = cx.choose(9);
		let data: Vec<u8> = (0..n as u8).collect();
		write(cx, &mut port, &data);
		write(cx, &mut port, &[0xFF; 3]);
	});
	r.sweep("long writes", 3000, |i, cx| {
		let (_g, mut port) = open(cx, 57600);
		let data: Vec<u8> = (0..i * 7).map(|k| (k * k >> 3) as u8).collect();
		write(cx, &mut port, &data);
	});

	// The client and the device on top of the adapter.
	const DELAYS: [u64; 8] = [0, 1_000, 1_000_000, 20_000_000, 33_000_000, 50_000_000, 200_000_000, u64::MAX];
	r.tree("client on the adapter", Some(t(2, 3)), |cx| {
		let (_g, port) = open(cx, *cx.pick(&[57600, 1_000_000]));
		let tick = *cx.pick(&[100, 5_000]);
		let op = cx.choose(4);
		let (delay, gap, cut) = (*cx.pick(&DELAYS), *cx.pick(&[0, 1_000_000, 40_000_000, u64::MAX]), *cx.pick(&[0usize, 4, 9, 11]));
		let garbage = cx.flag();
		let stale = cx.flag();
		with(|k| {
			k.tick = tick;
			k.responder = Some(responder(move |_| (delay, gap, cut), garbage));
			if stale {
				// A reply to something else, received before the instruction is sent.
				k.feed(0, &status(7, 0, &[0xAA, 0xBB]));
			}
		});
		let baud = with(|k| speed(&k.termios));
		let mut client = Client::with_buffers(port, vec![0; 64], vec![0; 64]).unwrap_or_else(|e| vfail!("cannot create a client: {e}"));
		with(|k| k.faulty = true);
		let t0 = now();
		let (name, got, params) = match op {
			0 => ("ping", client.ping(7).map(|x| x.data.model as u32), 3),
			1 => ("read", client.read::<u16>(7, 10).map(|x| x.data as u32), 2),
			2 => ("write", client.write(7, 10, &0x1234u16).map(|_| 0), 0),
			_ => ("broadcast write", client.write(0xFE, 10, &0x1234u16).map(|_| 0), 0),
		};
		let t1 = now();
		let faulted = n_faults() > 0;
		let only_slow = with(|k| k.faults.iter().all(|f| matches!(f.1, kernel::Fault::One | kernel::Fault::ButOne | kernel::Fault::Late)));
		let limit = reply_timeout_ns(11 + params as u64, baud, 1) as u64;
		let bytes = status(7, 0, &[0; 3][..params]).len();
		let complete = delay.saturating_add(if cut >= bytes + if garbage { 3 } else { 0 } { 0 } else { gap });
		cx.trail(|| format!("{name} {got:?} after {} us, reply complete after {} us, limit {} us", (t1 - t0) / 1000, complete / 1000, limit / 1000));
		let slack = tick * with(|k| k.calls + 8) * 4;
		let stuck = with(|k| k.faults.iter().any(|f| f.1 == kernel::Fault::Stuck));
		let late = with(|k| k.faults.iter().filter(|f| f.1 == kernel::Fault::Late).count() as u64 * kernel::LATE_NS);
		cx.outcome(&(op, got.is_ok()));
		if !stuck && t1 - t0 > limit + slack + late {
			vfail!("{name} took {} ns, its reply is due within {limit} ns", t1 - t0);
		}
		match got {
			Ok(x) => {
				veq!(x, [1030, 0x1234, 0, 0][op], "result of {name}");
				if op != 3 && complete > t1 - t0 {
					vfail!("{name} succeeded before the reply was complete");
				}
			},
			Err(e) => {
				if op == 3 && (!faulted || only_slow) {
					vfail!("broadcast write failed: {e:?}");
				}
				if !faulted && complete.saturating_add(RESOLUTION + slack) < limit {
					vfail!("{name} failed with {e:?} although the reply was complete after {complete} ns of {limit} ns");
				}
				let timed_out = matches!(&e, dynamixel2::TransferError::ReadError(dynamixel2::ReadError::Io(e)) if is_timeout(e));
				if !faulted && !timed_out {
					vfail!("{name} failed with {e:?} although there was only silence");
				}
				if timed_out && !stuck && t1 - t0 + RESOLUTION + slack < limit {
					vfail!("{name} timed out after {} ns of {limit} ns", t1 - t0);
				}
			},
		}
	});
	r.tree("device on the adapter", Some(t(2, 4)), |cx| {
		let (_g, port) = open(cx, 57600);
		with(|k| k.tick = 1000);
		let mut device = Device::with_buffers(port, vec![0; 64], vec![0; 64]).unwrap_or_else(|e| vfail!("cannot create a device: {e}"));
		let f = frame(3, WRITE, &[10, 0, 1, 2]);
		let cut = cx.choose(f.len());
		let (delay, gap) = (*cx.pick(&[0, 500_000, 8_000_000]), *cx.pick(&[0, 500_000, 3_000_000, 30_000_000]));
		with(|k| {
			k.feed(delay, &f[..cut]);
			k.feed(delay + gap, &f[cut..]);
			k.faulty = true;
		});
		let timeout = *cx.pick(&[0u64, 1_500_000, 10_000_000, 100_000_000]);
		let t0 = now();
		let r = device.read(Duration::from_nanos(timeout)).map(|p| (p.id, mc::dev::Ins::from_real(&p.instruction)));
		let t1 = now();
		let faulted = n_faults() > 0;
		let slack = 1000 * with(|k| k.calls + 8) * 4;
		let late = with(|k| k.faults.iter().filter(|f| f.1 == kernel::Fault::Late).count() as u64 * kernel::LATE_NS);
		cx.trail(|| format!("{r:?} after {} us", (t1 - t0) / 1000));
		cx.outcome(&r.is_ok());
		if t1 - t0 > timeout + slack + late {
			vfail!("a read with a timeout of {timeout} ns took {} ns", t1 - t0);
		}
		match r {
			Ok(x) => veq!(x, (3, mc::dev::Ins::Write(10, vec![1, 2])), "the instruction"),
			Err(e) => {
				if !faulted && delay + gap + RESOLUTION + slack < timeout {
					vfail!("{e:?} although the instruction was complete after {} ns of {timeout} ns", delay + gap);
				}
				if !faulted && t1 - t0 + RESOLUTION + slack < timeout {
					vfail!("{e:?} after {} ns of {timeout} ns", t1 - t0);
				}
			},
		}
	});

	// Opening a device by its path, or taking one that is open.
	const RATES: [u32; 6] = [9600, 57600, 115200, 1_000_000, 4_500_000, 12_345];
	r.tree("opening", Some(t(2, 3)), |cx| {
		let baud = *cx.pick(&RATES);
		let how = cx.choose(6);
		let before = cx.choose(3);
		let bench = cx.choose(3);
		let g = install(cx, -1, if before == 0 { baud } else { 38400 });
		let taken = how >= 4;
		with(|k| {
			k.tick = 100;
			if before == 2 && !taken {
				// As a terminal is by default, and a few settings more.
				k.termios.c_cflag = (k.termios.c_cflag & !libc::CSIZE & !libc::CREAD) | libc::CS7 | libc::PARENB | libc::PARODD | libc::CSTOPB | libc::CRTSCTS;
				k.termios.c_iflag = libc::ICRNL | libc::IXON | libc::IXOFF | libc::ISTRIP | libc::INLCR | libc::PARMRK;
				k.termios.c_oflag = libc::OPOST | libc::ONLCR;
				k.termios.c_lflag = libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN;
				k.termios.c_cc[libc::VMIN] = 0;
				k.termios.c_cc[libc::VTIME] = 3;
			}
			k.path = Some(PATH);
			k.faulty = true;
		});
		open_and_use(cx, how, baud, bench);
		drop(g);
	});

	// The emulated kernel against the real one.
	if let Err(e) = S2::pair() {
		r.assume(&format!("no pseudo terminal to compare with: {e}"));
		r.finish()
	}
	let depth = t(3, 4);
	r.sweep("the same histories on a pseudo terminal", (HS.len() as u64).pow(depth as u32), |i, cx| {
		let mut x = i as usize;
		let h: Vec<H> = (0..depth)
			.map(|_| {
				let op = HS[x % HS.len()];
				x /= HS.len();
				op
			})
			.collect();
		
		let e = on_emulated(cx, &h);
		let mut p = on_pty(&h);
		// A loaded machine can make a deadline pass before the adapter looks.
		for _ in 0..5 {
			if p == e {
				break;
			}
			p = on_pty(&h);
		}
		cx.trail(|| format!("{h:?}: {p:?}"));
		cx.outcome(&format!("{p:?}"));
		veq!(p, e, "results of {h:?} on a pseudo terminal, compared with the emulated kernel");
	});
	r.tree("waiting on a pseudo terminal", None, |cx| {
		let ms = *cx.pick(&[0u64, 1, 5, 20, 40]);
		let fed = cx.flag();
		let mut tries = 0;
		loop {
			tries += 1;
			let (master, mut slave) = S2::pair().unwrap_or_else(|e| engine_error(format!("no pseudo terminal: {e}")));
			let t = Instant::now();
			let d = slave.make_deadline(Duration::from_millis(ms));
			let master = std::sync::Arc::new(master);
			let feeder = fed.then(|| {
				let master = master.clone();
				std::thread::spawn(move || {
					std::thread::sleep(Duration::from_millis(ms / 2));
					let _ = master.write_all(&[1, 2, 3]);
					std::thread::sleep(Duration::from_millis(50));
				})
			});
			let mut b = [0; 8];
			let r = Port::read(&mut slave, &mut b, &d);
			let took = t.elapsed();
			if let Some(f) = feeder {
				let _ = f.join();
			}
			let good = match &r {
				Ok(n) => fed && *n >= 1 && b[..*n] == [1, 2, 3][..*n],
				Err(e) => is_timeout(e) && took + Duration::from_millis(2) >= Duration::from_millis(ms) && (!fed || ms < 20),
			} && took < Duration::from_millis(ms + 300);
			if good {
				return;
			}
			if tries == 5 {
				vfail!("a read of a pseudo terminal with a timeout of {ms} ms took {took:?}: {r:?} (input: {fed})");
			}
		}
	});
	r.finish();
}

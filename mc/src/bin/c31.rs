//! C31: the command line tool performs exactly the command it was given.
//!
//! The real executable runs with an emulated serial port, motors and clock (c31/shim.c), once per execution.
use mc::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const PORT: &str = "/dev/emulated-dynamixel";
static NEXT: AtomicU64 = AtomicU64::new(0);

struct Env {
	exe: PathBuf,
	shim: PathBuf,
	dir: PathBuf,
}

#[derive(Debug)]
struct Out {
	status: Option<i32>,
	stdout: String,
	stderr: String,
	tx: Vec<u8>,
	opened: usize,
	/// The settings when the first byte was sent: speeds and flags.
	settings: Option<Vec<u64>>,
	notes: Vec<String>,
	/// The values need not be shown next to each other.
	loose: bool,
}
impl Out {
	/// The words and numbers of the output.
	fn tokens(&self) -> Vec<String> {
		let text = format!("{} {}", self.stdout, self.stderr);
		text.split(|c: char| !c.is_alphanumeric() && c != '.').map(|x| x.trim_matches('.').to_string()).filter(|x| !x.is_empty()).collect()
	}
	fn shows(&self, values: &[u64]) -> bool {
		let want: Vec<String> = values.iter().map(|x| x.to_string()).collect();
		let t = self.tokens();
		if self.loose {
			let mut it = t.iter();
			return want.iter().all(|v| it.any(|x| x == v));
		}
		values.is_empty() || t.windows(want.len()).any(|w| w == want)
	}
	/// The numbers that are shown with the prefix 0x, possibly in groups of four digits.
	fn hexadecimal(&self) -> Vec<u64> {
		let text = format!("{} {}", self.stdout, self.stderr);
		let hex = |w: &str| !w.is_empty() && w.bytes().all(|c| c.is_ascii_hexdigit());
		text.split("0x")
			.skip(1)
			.filter_map(|x| {
				let end = x.find(|c: char| !c.is_ascii_alphanumeric() && c != ' ' && c != '_').unwrap_or(x.len());
				let mut words = x[..end].split([' ', '_']);
				let mut v = words.next().filter(|w| hex(w))?.to_string();
				words.take_while(|w| w.len() == 4 && hex(w)).for_each(|w| v.push_str(w));
				u64::from_str_radix(&v, 16).ok()
			})
			.collect()
	}
	fn text(&self) -> String {
		format!("status {:?}, output {:?} {:?}", self.status, self.stdout, self.stderr)
	}
}

fn run(e: &Env, args: &[String], script: &str, fault: &str) -> Out {
	let n = NEXT.fetch_add(1, SeqCst);
	let log = e.dir.join(format!("log{n}"));
	let file = e.dir.join(format!("script{n}"));
	let by_file = script.len() > 100_000;
	let at = format!("@{}", file.display());
	if by_file {
		std::fs::write(&file, script).unwrap_or_else(|e| engine_error(format!("cannot write a script: {e}")));
	}
	let script = if by_file { &at } else { script };
	let mut c = Command::new(&e.exe);
	c.args(args).env_clear().current_dir(&e.dir);
	c.env("LD_PRELOAD", &e.shim).env("DXL_PORT", PORT).env("DXL_LOG", &log).env("DXL_SCRIPT", script).env("RUST_BACKTRACE", "0");
	if !fault.is_empty() {
		c.env("DXL_FAULT", fault);
	}
	c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
	let out = c.output().unwrap_or_else(|e| engine_error(format!("cannot run the command line tool: {e}")));
	let text = std::fs::read_to_string(&log).unwrap_or_default();
	let _ = std::fs::remove_file(&log);
	if by_file {
		let _ = std::fs::remove_file(&file);
	}
	let mut o = Out {
		status: out.status.code(),
		stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
		stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
		tx: vec![],
		opened: 0,
		settings: None,
		notes: vec![],
		loose: args.iter().any(|a| a == "ping"),
	};
	let mut settings = None;
	for l in text.lines() {
		let (k, v) = l.split_once(' ').unwrap_or((l, ""));
		match k {
			"W" => {
				if o.tx.is_empty() {
					o.settings = settings.clone();
				}
				o.tx.extend((0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()));
			},
			"OPEN" => o.opened += 1,
			"SET" => {
				let mut x: Vec<u64> = vec![];
				for (i, w) in v.split(' ').enumerate() {
					x.push(u64::from_str_radix(w, if i < 2 { 10 } else { 16 }).unwrap());
				}
				settings = Some(x);
			},
			"FOREVER" | "ENDLESS" => o.notes.push(k.into()),
			_ => (),
		}
	}
	if o.stderr.contains("ld.so: object") {
		engine_error(format!("the emulation is not loaded: {}", o.stderr));
	}
	o
}

/// A command and what it should do.
#[derive(Clone, Debug)]
struct Cmd {
	args: Vec<String>,
	id: u8,
	inst: u8,
	params: Vec<u8>,
	/// What a motor replies, and what is shown for it.
	reply: Vec<u8>,
	shown: Vec<u64>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
	Ping,
	Reboot,
	Read8,
	Read16,
	Read32,
	Read,
	Write8,
	Write16,
	Write32,
	Write,
}
const KS: [K; 10] = [K::Ping, K::Reboot, K::Read8, K::Read16, K::Read32, K::Read, K::Write8, K::Write16, K::Write32, K::Write];
fn is_read(k: K) -> bool {
	matches!(k, K::Read8 | K::Read16 | K::Read32 | K::Read)
}
fn name(k: K) -> &'static str {
	match k {
		K::Ping => "ping",
		K::Reboot => "reboot",
		K::Read8 => "read8",
		K::Read16 => "read16",
		K::Read32 => "read32",
		K::Read => "read",
		K::Write8 => "write8",
		K::Write16 => "write16",
		K::Write32 => "write32",
		K::Write => "write",
	}
}
/// `value` is written, or is what the motor holds. `data` is used for plain reads and writes.
fn cmd(k: K, id: &str, addr: u16, value: u32, data: &[u8]) -> Cmd {
	let raw = if id.eq_ignore_ascii_case("broadcast") { 0xFE } else { id.parse().unwrap() };
	let mut args = vec![name(k).to_string(), id.into()];
	let mut params = addr.to_le_bytes().to_vec();
	let v = value.to_le_bytes();
	let mut reply = vec![];
	let mut shown = vec![];
	let mut read = |n: usize, args: &mut Vec<String>, params: &mut Vec<u8>| {
		args.push(addr.to_string());
		params.extend((n as u16).to_le_bytes());
		reply = v[..n.min(4)].to_vec();
		shown = vec![value as u64 & (u64::MAX >> (64 - 8 * n.clamp(1, 4)))];
	};
	let inst = match k {
		K::Ping => {
			params.clear();
			reply = v[..3].to_vec();
			shown = vec![value as u64 & 0xFFFF, v[2] as u64];
			PING
		},
		K::Reboot => {
			params.clear();
			REBOOT
		},
		K::Read8 => {
			read(1, &mut args, &mut params);
			READ
		},
		K::Read16 => {
			read(2, &mut args, &mut params);
			READ
		},
		K::Read32 => {
			read(4, &mut args, &mut params);
			READ
		},
		K::Read => {
			read(data.len(), &mut args, &mut params);
			args.push(data.len().to_string());
			reply = data.to_vec();
			shown = data.iter().map(|x| *x as u64).collect();
			READ
		},
		K::Write8 | K::Write16 | K::Write32 => {
			let n = [1, 2, 4][k as usize - K::Write8 as usize];
			let mut w = [0; 4];
			w[..n].copy_from_slice(&v[..n]);
			args.push(addr.to_string());
			args.push(u32::from_le_bytes(w).to_string());
			params.extend(&w[..n]);
			WRITE
		},
		K::Write => {
			args.push(addr.to_string());
			args.extend(data.iter().map(|x| x.to_string()));
			params.extend(data);
			WRITE
		},
	};
	Cmd { args, id: raw, inst, params, reply, shown }
}

/// Where the global options go.
const STYLES: usize = 7;
fn full_args(c: &Cmd, style: usize, baud: &str) -> Vec<String> {
	let s = |x: &str| x.to_string();
	let mut a: Vec<String> = match style {
		0 => vec![s("-s"), s(PORT)],
		1 => vec![format!("--serial-port={PORT}"), s("-b"), s(baud)],
		2 => vec![s("--baud-rate"), s(baud), s("--serial-port"), s(PORT), s("-v")],
		3 => vec![s("-vv"), s("-s"), s(PORT)],
		_ => vec![],
	};
	a.extend(c.args.iter().cloned());
	match style {
		4 => a.extend([s("-s"), s(PORT), s("-b"), s(baud)]),
		5 => a.extend([format!("--baud-rate={baud}"), s("--verbose"), s("-s"), s(PORT)]),
		6 => {
			// Between the subcommand and its arguments.
			let tail = a.split_off(1);
			a.extend([s("-s"), s(PORT), s("-b"), s(baud)]);
			a.extend(tail);
		},
		_ => (),
	}
	a
}
fn baud_of(style: usize, baud: &str) -> u64 {
	match style {
		0 | 3 => 57600,
		_ => baud.parse().unwrap(),
	}
}

fn describe(args: &[String]) -> String {
	let mut t = args.join(" ");
	if t.len() > 150 {
		t.truncate(150);
		t.push_str("...");
	}
	t
}

/// The instruction was sent as it should be, once, with the right settings.
fn check_sent(o: &Out, a: &[String], c: &Cmd, baud: u64) {
	let what = describe(a);
	let f = frame(c.id, c.inst, &c.params);
	if o.tx != f {
		vfail!("{what}: sent {} instead of {} ({})", hex(&o.tx), hex(&f), o.text());
	}
	vassert!(o.opened == 1, "{what}: opened the port {} times", o.opened);
	let Some(s) = &o.settings else { vfail!("{what}: sent without setting up the port") };
	veq!(s[0], baud, "{what}: baud rate");
	let (c, i, of, l) = (s[2], s[3], s[4], s[5]);
	let l1 = libc::CSIZE | libc::PARENB | libc::CSTOPB | libc::CRTSCTS;
	vassert!(c & l1 as u64 == libc::CS8 as u64, "{what}: the port is not set to 8 bits, no parity, 1 stop bit: {c:x}");
	let raw = libc::IXON | libc::IXOFF | libc::ISTRIP | libc::INLCR | libc::IGNCR | libc::ICRNL | libc::PARMRK;
	vassert!(i & raw as u64 == 0, "{what}: input processing is on: {i:x}");
	vassert!(of & libc::OPOST as u64 == 0, "{what}: output processing is on");
	vassert!(l & (libc::ICANON | libc::ECHO | libc::ISIG) as u64 == 0, "{what}: line processing is on: {l:x}");
}
fn sane(o: &Out, a: &[String]) {
	let what = describe(a);
	if !o.notes.is_empty() {
		vfail!("{what}: waits without a limit: {:?}, {}", o.notes, o.text());
	}
	if o.status.is_none() || o.stderr.contains("panicked at") {
		vfail!("{what}: crashed: {}", o.text());
	}
}
fn succeeded(o: &Out, a: &[String], shown: &[u64]) {
	let what = describe(a);
	if o.status != Some(0) {
		vfail!("{what}: failed: {}", o.text());
	}
	if !o.shows(shown) {
		vfail!("{what}: the output does not show {shown:?}: {}", o.text());
	}
	if shown.len() == 1 && o.hexadecimal().iter().any(|x| *x != shown[0]) {
		vfail!("{what}: the output shows something else than {:#x}: {}", shown[0], o.text());
	}
}
fn failed(o: &Out, a: &[String], why: &str) {
	if o.status == Some(0) {
		vfail!("{}: exits with status 0 although {why}: {}", describe(a), o.text());
	}
	vassert!(!o.stderr.trim().is_empty(), "{}: fails silently", describe(a));
}
fn hexs(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02X}")).collect()
}
fn at(us: u64, b: &[u8]) -> String {
	format!("{us}:{}", hexs(b))
}

fn main() {
	let root = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	let dir = PathBuf::from(std::env::var("C31_DIR").expect("run this through c31.sh"));
	let e = Env { exe: format!("{root}/mc/target/cli/debug/dynamixel2").into(), shim: format!("{root}/mc/target/c31/shim.so").into(), dir };
	let mut r = Runner::new("C31");
	r.assume("The serial port, the motors and the monotonic clock are emulated inside the process of the tool; a few commands are repeated on a pseudo terminal.");
	r.assume("ID 255, the exit status of a scan with bad replies, and the exact text of the output are not judged.");
	let thorough = r.thorough();
	let e = &e;

	// Every command, with a good reply.
	let ids: Vec<String> = if thorough {
		(0..=254).map(|x: u8| x.to_string()).chain(["broadcast".into(), "BROADCAST".into(), "Broadcast".into(), "007".into()]).collect()
	} else {
		["0", "1", "7", "42", "127", "128", "200", "252", "253", "254", "broadcast", "BroadCast"].map(String::from).to_vec()
	};
	let addrs: &[u16] = &[0, 1, 64, 255, 256, 0x1234, 0xFFFF];
	let values: &[u32] = &[0x8BCD_EF91, 0, 1, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0xFFFF_FFFF, 0xFDFF_FF10, 0x00FD_FFFF];
	let spaces = [KS.len(), ids.len(), addrs.len(), values.len()];
	let total: usize = spaces.iter().product();
	r.sweep("all commands", total as u64, |i, cx| {
		let mut x = Ix(i as u64);
		let (k, id, addr, value) = (KS[x.take(KS.len())], &ids[x.take(ids.len())], *x.of(addrs), *x.of(values));
		if matches!(k, K::Ping | K::Reboot) && addr != addrs[0] || k == K::Reboot && value != values[0] {
			return;
		}
		let data = &value.to_le_bytes()[..1 + (addr % 4) as usize];
		let c = cmd(k, id, addr, value, data);
		let style = (i as usize / 7 + addr as usize) % STYLES;
		let baud = ["1000000", "9600", "57600", "115200", "4500000", "123456"][i as usize / 3 % 6];
		let a = full_args(&c, style, baud);
		let script = if c.id == 0xFE { String::new() } else { at(700, &status(c.id, 0, &c.reply)) };
		let o = run(e, &a, &script, "");
		cx.trail(|| format!("{}: sent {}, {}", describe(&a), hex(&o.tx), o.text()));
		cx.outcome(&(o.status, &o.tx));
		sane(&o, &a);
		if c.id == 0xFE && is_read(k) {
			vassert!(o.tx.is_empty(), "{}: sent {}", describe(&a), hex(&o.tx));
			failed(&o, &a, "a read cannot be broadcast");
			return;
		}
		check_sent(&o, &a, &c, baud_of(style, baud));
		succeeded(&o, &a, if c.id == 0xFE { &[] } else { &c.shown });
	});

	// Values.
	let n8 = if thorough { 65536 } else { 256 };
	r.sweep("all small values", n8 * 4, |i, cx| {
		let mut x = Ix(i);
		let v = x.take(n8 as usize) as u32;
		let v = if thorough { v } else { v * 257 ^ 0x5A00 };
		let k = [K::Read8, K::Read16, K::Write8, K::Write16][x.take(4)];
		let c = cmd(k, "3", 100, v, &[]);
		let a = full_args(&c, 0, "");
		let o = run(e, &a, &at(300, &status(3, 0, &c.reply)), "");
		cx.outcome(&(o.status, &o.tx));
		cx.trail(|| format!("{}: {}", describe(&a), o.text()));
		sane(&o, &a);
		check_sent(&o, &a, &c, 57600);
		succeeded(&o, &a, &c.shown);
	});

	// Lengths.
	let mut lens: Vec<usize> = (0..=300).collect();
	if thorough {
		lens.extend(301..2000);
	}
	lens.extend([512, 1000, 1024, 4096, 10_000, 32_767, 32_768, 40_000, 65_000, 65_530, 65_531]);
	let fill: [fn(usize) -> u8; 3] = [|i| (i * 7 + 1) as u8, |_| 0xFF, |i| [0xFF, 0xFF, 0xFD][i % 3]];
	r.sweep("all lengths", lens.len() as u64 * 6, |i, cx| {
		let mut x = Ix(i);
		let n = *x.of(&lens);
		let read = x.take(2) == 0;
		let f = fill[x.take(3) as usize];
		if n > 20_000 && f(1) == f(0) && !thorough {
			return;
		}
		let data: Vec<u8> = (0..n).map(f).collect();
		let c = cmd(if read { K::Read } else { K::Write }, "9", 0x0102, 0, &data);
		let a = full_args(&c, 1, "4000000");
		if a.iter().map(|x| x.len() + 9).sum::<usize>() > 1_500_000 {
			return;
		}
		// The longest frame has a body of 65535 bytes.
		let out_body = stuff(&[&[c.inst][..], &c.params].concat()).len() + 2;
		let in_body = stuff(&[&[STATUS, 0][..], &c.reply].concat()).len() + 2;
		let o = run(e, &a, &if in_body > 65535 { String::new() } else { at(10, &status(9, 0, &c.reply)) }, "");
		cx.outcome(&(o.status, o.tx.len()));
		cx.trail(|| format!("{} bytes: status {:?}, sent {} bytes", n, o.status, o.tx.len()));
		sane(&o, &a);
		if out_body > 65535 {
			vassert!(o.tx.is_empty(), "{}: sent {} bytes", describe(&a), o.tx.len());
			failed(&o, &a, "the data does not fit in a message");
			return;
		}
		check_sent(&o, &a, &c, 4_000_000);
		if in_body > 65535 {
			failed(&o, &a, "the reply is impossible");
		} else {
			succeeded(&o, &a, &c.shown);
		}
	});

	// Replies.
	const REPLIES: usize = 24;
	let rids: &[&str] = &["1", "5", "253"];
	let delays: &[u64] = &[0, 1_000, 20_000, 33_000, 60_000, 2_000_000];
	let errors: Vec<u8> = if thorough { (1..=255).filter(|x| x & 0x7F != 0).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 0x10, 0x40, 0x7F, 0x81, 0x87, 0xFF] };
	r.sweep("all replies", (KS.len() * rids.len() * delays.len() * (REPLIES + errors.len())) as u64, |i, cx| {
		let mut x = Ix(i);
		let (k, id, d) = (KS[x.take(10)], *x.of(rids), *x.of(delays));
		let kind = x.0 as usize;
		let c = cmd(k, id, 0x84, 0x1397_2E5B, &[0x5B, 0xC1, 0x33]);
		let good = status(c.id, 0, &c.reply);
		let n = c.reply.len();
		let in_time = d < 34_000;
		// The instruction's echo, as seen on a bus without echo suppression.
		let echo = frame(c.id, c.inst, &c.params);
		let mut why = "";
		let script = match kind {
			0 => at(d, &good),
			1 => at(d, &status(c.id, 0x80, &c.reply)),
			2 => {
				let (p, q) = good.split_at(6);
				format!("{},{}", at(d, p), at(d + 200, q))
			},
			3 => at(d, &[&[0x00, 0xFF, 0xFF, 0xFD][..], &good].concat()),
			4 => format!("{},{}", at(d / 2, &[0xFF]), at(d, &good)),
			5 => good.iter().enumerate().map(|(i, b)| at(d + i as u64 * 10, &[*b])).collect::<Vec<_>>().join(","),
			6 => {
				why = "no motor replied";
				String::new()
			},
			7 => {
				why = "another motor replied";
				at(d, &status(c.id ^ 1, 0, &c.reply))
			},
			8 => {
				why = "the reply is too long";
				at(d, &status(c.id, 0, &[&c.reply[..], &[1]].concat()))
			},
			9 if n > 0 => {
				why = "the reply is too short";
				at(d, &status(c.id, 0, &c.reply[1..]))
			},
			10 => {
				why = "the checksum is wrong";
				at(d, &bad_crc(good))
			},
			11 => {
				why = "the reply is incomplete";
				at(d, &good[..good.len() - 1])
			},
			12 => {
				why = "the reply is an instruction";
				at(d, &echo)
			},
			13 => {
				why = "only garbage was received";
				at(d, &[0xAA; 40])
			},
			14 if n > 0 => {
				why = "the reply is empty";
				at(d, &status(c.id, 0, &[]))
			},
			15 => {
				why = "another motor reported an error";
				at(d, &status(c.id ^ 2, 3, &[]))
			},
			16 => {
				why = "the broadcast ID replied";
				at(d, &status(0xFE, 0, &c.reply))
			},
			17 => {
				why = "a bit of the reply is flipped";
				let mut g = good.clone();
				let p = g.len() - 3;
				g[p] ^= 4;
				at(d, &g)
			},
			18 => {
				why = "a motor reported an error with data";
				at(d, &status(c.id, 4, &c.reply))
			},
			19 => {
				why = "";
				at(d, &status(c.id, 0x80, &c.reply))
			},
			20 => {
				why = "the reply is much too long";
				at(d, &status(c.id, 0, &[0x11; 300]))
			},
			21 => {
				why = "the reply has no error field";
				at(d, &frame_raw(c.id, &[STATUS]))
			},
			22 => {
				why = "the reply never ends";
				(0..200).map(|i| at(d + i * 1000, &[0xFF, 0xFF, 0xFD])).collect::<Vec<_>>().join(",")
			},
			23 => {
				why = "the reply stops after the header";
				at(d, &good[..7])
			},
			k if k >= REPLIES => {
				why = "the motor reported an error";
				at(d, &status(c.id, errors[k - REPLIES], &[]))
			},
			_ => return,
		};
		let a = full_args(&c, kind % STYLES, "57600");
		let o = run(e, &a, &script, "");
		cx.trail(|| format!("{}, after {d} us {}: {}", describe(&a), if why.is_empty() { "a good reply" } else { why }, o.text()));
		cx.outcome(&(o.status, kind));
		sane(&o, &a);
		check_sent(&o, &a, &c, 57600);
		if !why.is_empty() {
			failed(&o, &a, why);
		} else if in_time {
			succeeded(&o, &a, &c.shown);
		} else if d > 1_000_000 {
			failed(&o, &a, "the reply came much too late");
		}
	});

	// Scans.
	let all: &[u8] = &[0, 1, 2, 3, 99, 200, 252, 253];
	r.sweep("scans", 256 * 4, |i, cx| {
		let mut x = Ix(i);
		let set = x.take(256);
		let gap = *x.of(&[0u64, 1, 700, 30_000]);
		let who: Vec<u8> = all.iter().enumerate().filter(|(k, _)| set >> k & 1 == 1).map(|x| *x.1).collect();
		let c = cmd(K::Ping, if i % 2 == 0 { "broadcast" } else { "254" }, 0, 0, &[]);
		let model = |id: u8| 0x0406 + id as u16 * 3;
		let fw = |id: u8| id ^ 0x39;
		let script: Vec<String> = who
			.iter()
			.enumerate()
			.map(|(k, id)| at(k as u64 * gap, &status(*id, if *id == 99 { 0x80 } else { 0 }, &[model(*id) as u8, (model(*id) >> 8) as u8, fw(*id)])))
			.collect();
		let a = full_args(&c, (i % 7) as usize, "1000000");
		let o = run(e, &a, &script.join(","), "");
		cx.trail(|| format!("{} with motors {who:?}: {}", describe(&a), o.text()));
		cx.outcome(&(o.status, &who));
		sane(&o, &a);
		check_sent(&o, &a, &c, baud_of((i % 7) as usize, "1000000"));
		succeeded(&o, &a, &[]);
		// Each motor is shown with its own data, in this order.
		let t = o.tokens();
		let mut pos = 0;
		for id in &who {
			for (what, v) in [("ID", *id as u64), ("model", model(*id) as u64), ("firmware", fw(*id) as u64)] {
				match t[pos..].iter().position(|x| *x == v.to_string()) {
					Some(p) => pos += p + 1,
					None => vfail!("scan of motors {who:?}: the {what} {v} of motor {id} is not shown: {}", o.text()),
				}
			}
		}
		// No motor is shown that did not reply.
		let shown = t.windows(3).filter(|w| w[0] == "Motor" && w[1] == "ID").count();
		if t.iter().any(|x| x == "ID") && shown > 0 {
			veq!(shown, who.len(), "motors shown for {who:?}");
		}
	});

	// Scans in which some replies are bad: the good ones are still shown.
	const BAD: usize = 7;
	r.sweep("scans with bad replies", (BAD as u64).pow(4) * 2, |i, cx| {
		let mut x = Ix(i);
		let gap = *x.of(&[0u64, 700]);
		let kinds: Vec<usize> = (0..4).map(|_| x.take(BAD) as usize).collect();
		let c = cmd(K::Ping, "broadcast", 0, 0, &[]);
		let ids = [3u8, 57, 120, 241];
		let reply = |k: usize, id: u8| {
			let d = [0x11 + k as u8, 0x22, id ^ 0x39];
			match kinds[k] {
				0 => status(id, 0, &d),
				1 => status(id, 0x80, &d),
				2 => status(id, 3, &d),
				3 => bad_crc(status(id, 0, &d)),
				4 => status(id, 0, &d[1..]),
				5 => frame(id, 0x03, &d),
				_ => vec![0xAA, 0xFF, 0xFF, 0x00],
			}
		};
		let script: Vec<String> = ids.iter().enumerate().map(|(k, id)| at(k as u64 * gap, &reply(k, *id))).collect();
		let a = full_args(&c, 0, "1000000");
		let o = run(e, &a, &script.join(","), "");
		cx.trail(|| format!("{} with replies {kinds:?}: {}", describe(&a), o.text()));
		cx.outcome(&(o.status, &kinds));
		sane(&o, &a);
		check_sent(&o, &a, &c, baud_of(0, "1000000"));
		let t = o.tokens();
		let mut pos = 0;
		for (k, id) in ids.iter().enumerate().filter(|(k, _)| kinds[*k] < 2) {
			let model = 0x2200 + 0x11 + k as u64;
			for v in [*id as u64, model, (id ^ 0x39) as u64] {
				match t[pos..].iter().position(|x| *x == v.to_string()) {
					Some(p) => pos += p + 1,
					None => vfail!("scan with replies {kinds:?}: motor {id} is not shown with its data: {}", o.text()),
				}
			}
		}
	});

	// Arguments that are rejected.
	let bad: Vec<Vec<&str>> = {
		let mut v: Vec<Vec<&str>> = vec![vec![], vec!["pong", "1"], vec!["ping"], vec!["reboot"], vec!["ping", "1", "2"], vec!["reboot", "1", "2"], vec!["read24", "1", "2"]];
		for id in ["256", "-1", "999", "1000000", "", "x", "0x10", "1.0", "1 ", " 1", "broadcas", "broadcast1", "65537", "4294967297"] {
			v.push(vec!["ping", id]);
			v.push(vec!["reboot", id]);
			for k in ["read8", "read16", "read32"] {
				v.push(vec![k, id, "1"]);
			}
			for k in ["write8", "write16", "write32", "write"] {
				v.push(vec![k, id, "1", "1"]);
			}
			v.push(vec!["read", id, "1", "1"]);
		}
		for k in ["read8", "read16", "read32"] {
			v.push(vec![k]);
			v.push(vec![k, "1"]);
			v.push(vec![k, "1", "2", "3"]);
			for a in ["65536", "-1", "x", "", "4294967296"] {
				v.push(vec![k, "1", a]);
			}
		}
		for k in ["write8", "write16", "write32", "read"] {
			v.push(vec![k]);
			v.push(vec![k, "1"]);
			v.push(vec![k, "1", "2"]);
			v.push(vec![k, "1", "2", "3", "4"]);
			for a in ["65536", "-1", "x", "", "4294967296"] {
				v.push(vec![k, "1", a, "5"]);
			}
			for val in ["4294967296", "-1", "x", "", "1.5", "18446744073709551616"] {
				v.push(vec![k, "1", "2", val]);
			}
		}
		for val in ["256", "257", "300", "65535", "65536"] {
			v.push(vec!["write8", "1", "2", val]);
			v.push(vec!["write", "1", "2", val]);
			v.push(vec!["write", "1", "2", "3", val]);
		}
		for val in ["65536", "65537", "100000"] {
			v.push(vec!["write16", "1", "2", val]);
			v.push(vec!["read", "1", "2", val]);
		}
		for id in ["broadcast", "254", "BROADCAST"] {
			for k in ["read8", "read16", "read32"] {
				v.push(vec![k, id, "2"]);
			}
			v.push(vec!["read", id, "2", "3"]);
		}
		for b in ["0", "-1", "x", "", "4294967296", "57600.5", "9600 "] {
			v.push(vec!["ping", "1", "-b", b]);
			v.push(vec!["-b", b, "write8", "1", "2", "3"]);
		}
		v.push(vec!["--frobnicate", "ping", "1"]);
		v.push(vec!["-b", "57600", "-b", "1000000", "ping", "1"]);
		v
	};
	r.sweep("rejected arguments", bad.len() as u64 * 3, |i, cx| {
		let b = &bad[(i / 3) as usize];
		let mut a: Vec<String> = b.iter().map(|x| x.to_string()).collect();
		match i % 3 {
			0 => a.splice(0..0, ["-s".into(), PORT.into()]).for_each(drop),
			1 => a.extend([format!("--serial-port={PORT}")]),
			_ => a.splice(0..0, ["-v".into(), "-s".into(), PORT.into()]).for_each(drop),
		}
		let o = run(e, &a, &at(300, &status(1, 0, &[1])), "");
		cx.trail(|| format!("{}: {}", describe(&a), o.text()));
		cx.outcome(&(o.status, i / 3));
		sane(&o, &a);
		vassert!(o.tx.is_empty(), "{}: sent {}", describe(&a), hex(&o.tx));
		failed(&o, &a, "its arguments are invalid");
	});

	// A port that does not work.
	let faults: &[&str] = &["open=2", "open=13", "open=16", "get=25", "get=5", "set=22", "set=5", "flush=5", "write=5", "write=32", "stuck=1", "poll=12", "read=5", "read=5@1"];
	r.sweep("port errors", (KS.len() * faults.len() * 3) as u64, |i, cx| {
		let mut x = Ix(i);
		let k = KS[x.take(10)];
		let f = *x.of(faults);
		let id = *x.of(&["1", "77", "broadcast"]);
		if id == "broadcast" && (is_read(k) || f.starts_with("read") || k == K::Ping && f.starts_with("poll")) {
			return;
		}
		let c = cmd(k, id, 5, 0x0102_0304, &[1, 2]);
		let a = full_args(&c, (i % 7) as usize, "9600");
		// Two parts: the second read may fail.
		let good = status(c.id, 0, &c.reply);
		let script = if id == "broadcast" { String::new() } else { format!("{},{}", at(300, &good[..9]), at(700, &good[9..])) };
		let o = run(e, &a, &script, f);
		cx.trail(|| format!("{} with {f}: {}", describe(&a), o.text()));
		cx.outcome(&(o.status, f));
		sane(&o, &a);
		failed(&o, &a, "the port reported an error");
		vassert!(frame(c.id, c.inst, &c.params).starts_with(&o.tx), "{} with {f}: sent {}", describe(&a), hex(&o.tx));
	});
	r.sweep("short writes", (KS.len() * 2) as u64, |i, cx| {
		let c = cmd(KS[i as usize / 2], ["1", "253"][i as usize % 2], 5, 0x0102_0304, &[1, 2]);
		let a = full_args(&c, (i % 7) as usize, "9600");
		let o = run(e, &a, &at(300, &status(c.id, 0, &c.reply)), "short=1");
		cx.outcome(&o.status);
		sane(&o, &a);
		check_sent(&o, &a, &c, baud_of((i % 7) as usize, "9600"));
		succeeded(&o, &a, &c.shown);
	});

	// Shell completion does not touch the port.
	r.sweep("shell completion", 5 * 9, |i, cx| {
		// Files: new, or with more or less in it than what is written.
		let (i, old) = (i % 15, [0usize, 3, 100_000][i as usize / 15]);
		let shell = ["bash", "zsh", "fish", "elvish", "powershell"][i as usize / 3];
		let mut a: Vec<String> = ["-s", PORT, "shell-completion", "--shell", shell].map(String::from).to_vec();
		let file = e.dir.join(format!("completion-{i}-{old}"));
		if old > 0 {
			if let Err(x) = std::fs::write(&file, vec![b'#'; old]) {
				engine_error(format!("cannot write {}: {x}", file.display()));
			}
		}
		let plain = run(e, &a, "", "");
		match i % 3 {
			1 => a.extend(["-o".into(), file.display().to_string()]),
			2 => a.extend(["--output".into(), "-".into()]),
			_ => (),
		}
		let o = run(e, &a, "", "");
		cx.outcome(&o.stdout);
		sane(&o, &a);
		succeeded(&o, &a, &[]);
		vassert!(o.opened == 0 && o.tx.is_empty(), "{}: opened the port", describe(&a));
		vassert!(plain.stdout.contains("read16") && plain.stdout.contains("reboot"), "{}: incomplete: {}", describe(&a), plain.stdout);
		if i % 3 == 1 {
			let t = std::fs::read_to_string(&file).unwrap_or_default();
			vassert!(t == plain.stdout, "{}: the file differs from what is printed", describe(&a));
		} else {
			vassert!(o.stdout == plain.stdout, "{}: differs", describe(&a));
		}
	});

	// The emulated port against the kernel's pseudo terminals.
	match serial2::SerialPort::pair() {
		Err(x) => r.assume(&format!("no pseudo terminal to compare with: {x}")),
		Ok(_) => r.sweep("the same commands on a pseudo terminal", KS.len() as u64 * 3, |i, cx| {
			let k = KS[i as usize / 3];
			let kind = i % 3;
			let c = cmd(k, "11", 0x30, 0x2B67_1A8D, &[9, 8, 7]);
			let mut last = String::new();
			// The machine may be too busy to reply in time.
			for _ in 0..8 {
				match on_pty(e, &c, kind) {
					Ok(()) => return,
					Err(x) => last = x,
				}
			}
			cx.outcome(&i);
			vfail!("{} on a pseudo terminal: {last}", describe(&c.args));
		}),
	}
	r.finish();
}

/// Run a command on a pseudo terminal: 0: good reply, 1: motor error, 2: silence.
fn on_pty(e: &Env, c: &Cmd, kind: u64) -> Result<(), String> {
	use std::os::fd::AsRawFd;
	let (mut master, slave) = serial2::SerialPort::pair().map_err(|x| x.to_string())?;
	let mut b = [0u8; 200];
	let path = unsafe {
		let n = libc::ptsname_r(master.as_raw_fd(), b.as_mut_ptr() as _, b.len());
		if n != 0 {
			return Err("no name".into());
		}
		std::ffi::CStr::from_ptr(b.as_ptr() as _).to_string_lossy().into_owned()
	};
	let mut args = vec!["-s".to_string(), path];
	args.extend(c.args.clone());
	let child = Command::new(&e.exe).args(&args).env_clear().stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn();
	let mut child = child.map_err(|x| x.to_string())?;
	let want = frame(c.id, c.inst, &c.params);
	let mut got = vec![];
	let start = std::time::Instant::now();
	master.set_read_timeout(Duration::from_millis(20)).map_err(|x| x.to_string())?;
	while got.len() < want.len() && start.elapsed() < Duration::from_secs(10) {
		if let Ok(n) = master.read(&mut b) {
			got.extend(&b[..n]);
		}
	}
	match kind {
		0 => drop(master.write_all(&status(c.id, 0, &c.reply))),
		1 => drop(master.write_all(&status(c.id, 7, &[]))),
		_ => (),
	}
	while child.try_wait().map_err(|x| x.to_string())?.is_none() {
		if start.elapsed() > Duration::from_secs(20) {
			let _ = child.kill();
			let _ = child.wait();
			return Err("does not end".into());
		}
		std::thread::sleep(Duration::from_millis(1));
	}
	drop(slave);
	let out = child.wait_with_output().map_err(|x| x.to_string())?;
	let o = Out {
		status: out.status.code(),
		stdout: String::from_utf8_lossy(&out.stdout).into_owned(),
		stderr: String::from_utf8_lossy(&out.stderr).into_owned(),
		tx: got.clone(),
		opened: 1,
		settings: None,
		notes: vec![],
		loose: args.iter().any(|a| a == "ping"),
	};
	if got != want {
		return Err(format!("sent {} instead of {}", hex(&got), hex(&want)));
	}
	if (o.status == Some(0)) != (kind == 0) || kind == 0 && !o.shows(&c.shown) {
		return Err(o.text());
	}
	Ok(())
}

//! Executes numbered executions of the library and prints digests of everything observable in them.
//!
//!     driver list LEVEL                                    the groups and their sizes
//!     driver digest LEVEL KIND GROUP LO HI BLOCK           one digest per block of executions
//!     driver show LEVEL KIND GROUP INDEX                   the transcript of one execution
//!
//! KIND and GROUP are numbers; KIND may be `mix`. On wasm the same is exported as functions.
#[macro_use]
mod env;
mod groups;

use env::*;
use groups::*;

const PRIME: u64 = 0x100_0000_01b3;
/// What an execution that panicked counts as.
const PANICKED: u64 = 0x7061_6E69_6373_2121;

fn kind_of(k: u64, i: u64) -> Kind {
	KINDS[if k < 6 { k } else { (i ^ (i >> 5) ^ (i >> 11)) % 6 } as usize]
}

fn one(level: Level, k: u64, g: usize, i: u64, keep: bool) -> (u64, u64, Option<String>) {
	T.with(|t| *t.borrow_mut() = Transcript::new(keep));
	let run = || (GROUPS[g].run)(level, i, kind_of(k, i));
	#[cfg(target_arch = "wasm32")]
	let panicked = {
		run();
		false
	};
	#[cfg(not(target_arch = "wasm32"))]
	let panicked = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).is_err();
	let t = T.with(|t| std::mem::replace(&mut *t.borrow_mut(), Transcript::new(false)));
	let mut text = t.text;
	if panicked {
		if let Some(text) = &mut text {
			text.push_str("panicked\n");
		}
	}
	(if panicked { PANICKED } else { t.hash }, t.events, text)
}

fn digest(level: Level, k: u64, g: usize, lo: u64, hi: u64, mut each: impl FnMut(u64, u64)) -> u64 {
	let mut h = 0;
	for i in lo..hi {
		let (x, events, _) = one(level, k, g, i, false);
		each(x, events);
		h = (h ^ x).wrapping_mul(PRIME);
	}
	h
}

#[cfg(feature = "log")]
fn logging(on: bool) {
	struct L;
	impl log::Log for L {
		fn enabled(&self, _: &log::Metadata) -> bool {
			true
		}
		fn log(&self, r: &log::Record) {
			std::hint::black_box(format!("{}", r.args()));
		}
		fn flush(&self) {}
	}
	let _ = log::set_logger(&L);
	log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let n = |i: usize| args[i].parse::<u64>().unwrap();
	std::panic::set_hook(Box::new(|_| {}));
	#[cfg(feature = "log")]
	logging(!args.iter().any(|a| a == "nolog"));
	let kind = |s: &str| if s == "mix" { 6 } else { s.parse::<u64>().unwrap() };
	match args[0].as_str() {
		"list" => {
			for g in &GROUPS {
				println!("{} {}", (g.total)(n(1) as Level), g.name);
			}
		},
		"digest" => {
			let (level, k, g, lo, hi, block) = (n(1) as Level, kind(&args[2]), n(3) as usize, n(4), n(5), n(6));
			let mut at = lo;
			let mut total = 0;
			let mut seen = vec![];
			let count = args.iter().any(|a| a == "count");
			while at < hi {
				let end = hi.min(at + block);
				let h = digest(level, k, g, at, end, |x, events| {
					total += events;
					if count {
						seen.push(x);
					}
				});
				println!("{at} {end} {h:016x}");
				at = end;
			}
			if count {
				seen.sort_unstable();
				seen.dedup();
				println!("events {total} distinct {}", seen.len());
			}
		},
		"show" => {
			let (h, _, text) = one(n(1) as Level, kind(&args[2]), n(3) as usize, n(4), true);
			print!("{}", text.unwrap());
			println!("= {h:016x}");
		},
		_ => panic!("unknown command"),
	}
}

#[cfg(target_arch = "wasm32")]
mod exports {
	use super::*;
	use std::sync::atomic::{AtomicU64, Ordering};

	static LEN: AtomicU64 = AtomicU64::new(0);

	#[no_mangle]
	pub extern "C" fn block(level: u32, k: u64, g: u32, lo: u64, hi: u64) -> u64 {
		digest(level as Level, k, g as usize, lo, hi, |_, _| ())
	}

	#[no_mangle]
	pub extern "C" fn single(level: u32, k: u64, g: u32, i: u64) -> u64 {
		one(level as Level, k, g as usize, i, false).0
	}

	#[no_mangle]
	pub extern "C" fn show(level: u32, k: u64, g: u32, i: u64) -> *const u8 {
		let (h, _, text) = one(level as Level, k, g as usize, i, true);
		let text = format!("{}= {h:016x}\n", text.unwrap()).into_bytes();
		LEN.store(text.len() as u64, Ordering::Relaxed);
		Box::leak(text.into_boxed_slice()).as_ptr()
	}

	#[no_mangle]
	pub extern "C" fn show_len() -> u64 {
		LEN.load(Ordering::Relaxed)
	}
}

//! C23: array decoding drops every element exactly once.
use dynamixel2::bus::Data;
use dynamixel2::{BufferTooSmallError, ExpectedCount, InvalidMessage, InvalidParameterCount};
use mc::*;
use std::cell::RefCell;

const MAGIC: u64 = 0x0DD5_EED5_1234_ABCD;
thread_local! {
	/// For every token constructed: the number of times it was dropped.
	static LEDGER: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
	/// Drops of things that are not tokens.
	static WILD: RefCell<u32> = const { RefCell::new(0) };
}

/// An element with an identity. The last encoded byte says what decoding it does: 0xE0 fails, 0xE1 panics.
struct Tok<const SIZE: usize> {
	magic: u64,
	serial: usize,
	bytes: Vec<u8>,
}
impl<const S: usize> Tok<S> {
	fn make(bytes: &[u8]) -> Self {
		LEDGER.with_borrow_mut(|l| {
			l.push(0);
			Tok { magic: MAGIC, serial: l.len() - 1, bytes: bytes.to_vec() }
		})
	}
}
impl<const S: usize> Drop for Tok<S> {
	fn drop(&mut self) {
		let bad = self.magic != MAGIC
			|| LEDGER.with_borrow_mut(|l| match l.get_mut(self.serial) {
				Some(n) => {
					*n += 1;
					false
				},
				None => true,
			});
		if bad {
			WILD.with_borrow_mut(|w| *w += 1);
		}
		// Do not let the damage spread.
		let dropped_before = bad || LEDGER.with_borrow(|l| l[self.serial] > 1);
		if dropped_before {
			std::mem::forget(std::mem::take(&mut self.bytes));
		}
	}
}
impl<const S: usize> Data for Tok<S> {
	const ENCODED_SIZE: u16 = S as u16;
	fn encode(&self, b: &mut [u8]) -> Result<(), BufferTooSmallError> {
		b[..S].copy_from_slice(&self.bytes);
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		vassert!(b.len() == S, "an element of {S} bytes is decoded from {} bytes", b.len());
		match b[S - 1] {
			0xE0 => Err(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 77, expected: ExpectedCount::Min(78) })),
			0xE1 => panic!("token refuses"),
			// Fails and panics after constructing (and dropping) a token of its own.
			0xE2 => {
				let _t = Self::make(b);
				Err(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 77, expected: ExpectedCount::Min(78) }))
			},
			0xE3 => {
				let _t = Self::make(b);
				panic!("token refuses")
			},
			_ => Ok(Self::make(b)),
		}
	}
}

/// Flattening of (nested) arrays of tokens.
trait Flat {
	fn flat(&self, out: &mut Vec<(u64, usize, Vec<u8>)>);
}
impl<const S: usize> Flat for Tok<S> {
	fn flat(&self, out: &mut Vec<(u64, usize, Vec<u8>)>) {
		let owned = self.magic == MAGIC && LEDGER.with_borrow(|l| l.get(self.serial) == Some(&0));
		let bytes = if owned { self.bytes.clone() } else { vec![] };
		out.push((self.magic, if owned { self.serial } else { usize::MAX }, bytes))
	}
}
impl<T: Flat, const N: usize> Flat for [T; N] {
	fn flat(&self, out: &mut Vec<(u64, usize, Vec<u8>)>) {
		for x in self {
			x.flat(out)
		}
	}
}

fn reset() {
	LEDGER.with_borrow_mut(|l| l.clear());
	WILD.with_borrow_mut(|w| *w = 0);
}
fn balance(what: &str, input: &[u8]) {
	let l = LEDGER.with_borrow(|l| l.clone());
	let w = WILD.with_borrow(|w| *w);
	vassert!(w == 0, "{what} from {input:02X?}: {w} drops of something that was never constructed");
	for (k, n) in l.iter().enumerate() {
		vassert!(*n == 1, "{what} from {input:02X?}: element {k} of {} constructed was dropped {n} times", l.len());
	}
}
/// Check a successfully decoded value: in order, each owned once; then drop it.
fn owned<T: Flat>(what: &str, v: T, input: &[u8], elem: usize) {
	let mut f = vec![];
	v.flat(&mut f);
	let want: Vec<Vec<u8>> = input.chunks(elem).map(|c| c.to_vec()).collect();
	let got: Vec<Vec<u8>> = f.iter().map(|x| x.2.clone()).collect();
	vassert!(got == want, "{what} from {input:02X?}: elements {got:02X?}");
	let mut serials: Vec<usize> = f.iter().map(|x| x.1).collect();
	serials.sort();
	serials.dedup();
	vassert!(serials.len() == want.len(), "{what} from {input:02X?}: an element appears twice");
	drop(v);
}
fn is_ok(input: &[u8], elem: usize) -> bool {
	input.chunks(elem).all(|c| c[elem - 1] < 0xE0)
}

fn decode<T: Data + Flat>(cx: &Cx, what: &str, input: &[u8], elem: usize) {
	reset();
	cx.trail(|| format!("{what} from {input:02X?}"));
	let r = cx.catch(|| T::decode(input));
	match r {
		Ok(Ok(v)) => {
			vassert!(is_ok(input, elem), "{what} from {input:02X?}: success although an element fails");
			owned(what, v, input, elem);
			cx.outcome(&"ok");
		},
		Ok(Err(e)) => {
			vassert!(!is_ok(input, elem), "{what} from {input:02X?}: {e:?}");
			vassert!(matches!(&e, InvalidMessage::InvalidParameterCount(c) if c.actual == 77), "{what} from {input:02X?}: another error than that of the element: {e:?}");
			cx.outcome(&"error");
		},
		Err(p) => {
			vassert!(p.contains("token refuses"), "{what} from {input:02X?}: panic {p}");
			cx.outcome(&"panic");
		},
	}
	balance(what, input);
}
/// The same through a client.
fn client_read<T: Data + Flat>(cx: &Cx, what: &str, input: &[u8], elem: usize, sync: bool) {
	reset();
	let port = VPort::new(cx);
	let mut c = client(&port, 64, 64);
	if !sync {
		port.reply_bytes(status(3, 0, input));
		if let Ok(Ok(v)) = cx.catch(|| c.read::<T>(3, 9)) {
			vassert!(is_ok(input, elem), "{what} from {input:02X?}: success although an element fails");
			owned(what, v.data, input, elem);
		}
	} else {
		// Dropping a typed sync read decodes the outstanding replies: a second panic would abort the process.
		let second: Vec<u8> = if input.contains(&0xE1) || input.contains(&0xE3) { vec![1; input.len()] } else { input.to_vec() };
		port.reply_bytes([status(3, 0, input), status(4, 0, &second)].concat());
		let mut got: Vec<T> = vec![];
		let _ = cx.catch(|| {
			for x in c.sync_read::<T>(&[3, 4], 9).unwrap() {
				if let Ok(x) = x {
					got.push(x.data);
				}
			}
		});
		for v in got {
			let mut f = vec![];
			v.flat(&mut f);
			vassert!(f.iter().all(|x| x.1 != usize::MAX), "{what} from {input:02X?}: an element was dropped already");
		}
	}
	balance(what, input);
}

type Case = (&'static str, usize, usize, fn(&Cx, &'static str, &[u8], usize), fn(&Cx, &'static str, &[u8], usize, bool));
macro_rules! cases {
	($($n:literal $e:literal $t:ty),* $(,)?) => { vec![$((
		stringify!($t), $n, $e,
		(|cx, w, i, e| decode::<$t>(cx, w, i, e)) as fn(&Cx, &'static str, &[u8], usize),
		(|cx, w, i, e, s| client_read::<$t>(cx, w, i, e, s)) as fn(&Cx, &'static str, &[u8], usize, bool),
	)),*] };
}

thread_local! {
	/// Elements without any data in memory: constructed, dropped.
	static ZST: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
struct Empty<const SIZE: usize>;
impl<const S: usize> Drop for Empty<S> {
	fn drop(&mut self) {
		let (a, b) = ZST.get();
		ZST.set((a, b + 1));
	}
}
impl<const S: usize> Data for Empty<S> {
	const ENCODED_SIZE: u16 = S as u16;
	fn encode(&self, _: &mut [u8]) -> Result<(), BufferTooSmallError> {
		Ok(())
	}
	fn decode(b: &[u8]) -> Result<Self, InvalidMessage> {
		vassert!(b.len() == S, "an element of {S} bytes is decoded from {} bytes", b.len());
		match b.last() {
			Some(0xE0) => Err(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 77, expected: ExpectedCount::Min(78) })),
			Some(0xE1) => panic!("token refuses"),
			_ => {
				let (a, b) = ZST.get();
				ZST.set((a + 1, b));
				Ok(Empty)
			},
		}
	}
}
fn decode_empty<T: Data>(cx: &Cx, what: &str, n: usize, input: &[u8]) {
	ZST.set((0, 0));
	let bad = input.iter().position(|x| *x >= 0xE0);
	let res = cx.catch(|| T::decode(input));
	let seen = ZST.get();
	let made = bad.map_or(n, |k| k / (input.len() / n));
	match res {
		Ok(Ok(v)) => {
			vassert!(bad.is_none(), "{what} from {input:02X?}: success although an element fails");
			vassert!(seen == (n, 0), "{what} from {input:02X?}: {} elements constructed, {} dropped before they are returned", seen.0, seen.1);
			drop(v);
		},
		Ok(Err(_)) => vassert!(bad.is_some_and(|k| input[k] == 0xE0), "{what} from {input:02X?}: an error"),
		Err(p) => vassert!(bad.is_some_and(|k| input[k] == 0xE1), "{what} from {input:02X?}: panic {p}"),
	}
	vassert!(ZST.get().0 == made, "{what} from {input:02X?}: {} elements constructed instead of {made}", ZST.get().0);
	vassert!(ZST.get().1 == made, "{what} from {input:02X?}: {made} elements constructed, {} dropped", ZST.get().1);
	cx.outcome(&bad.map(|k| input[k]));
}

fn main() {
	let mut r = Runner::new("C23");
	r.assume("elements whose destructor panics are not considered");
	r.assume("two panicking elements in different replies of one typed sync read are not considered (a panic while unwinding aborts)");
	let cases: Vec<Case> = cases![
		0 1 [Tok<1>; 0], 1 1 [Tok<1>; 1], 2 1 [Tok<1>; 2], 3 1 [Tok<1>; 3], 4 1 [Tok<1>; 4], 5 1 [Tok<1>; 5], 6 1 [Tok<1>; 6], 7 1 [Tok<1>; 7], 8 1 [Tok<1>; 8],
		1 2 [Tok<2>; 1], 2 2 [Tok<2>; 2], 3 2 [Tok<2>; 3], 5 2 [Tok<2>; 5], 3 4 [Tok<4>; 3], 2 7 [Tok<7>; 2],
		1 1 [[Tok<1>; 1]; 1], 2 1 [[Tok<1>; 1]; 2], 2 1 [[Tok<1>; 2]; 1], 4 1 [[Tok<1>; 2]; 2], 6 1 [[Tok<1>; 2]; 3], 6 1 [[Tok<1>; 3]; 2],
		0 1 [[Tok<1>; 0]; 3], 0 1 [[Tok<1>; 3]; 0], 4 3 [[Tok<3>; 2]; 2], 8 1 [[Tok<1>; 2]; 4], 8 1 [[Tok<1>; 4]; 2],
		8 1 [[[Tok<1>; 2]; 2]; 2], 4 2 [[[Tok<2>; 1]; 2]; 2], 6 1 [[[Tok<1>; 1]; 3]; 2], 8 1 [[[[Tok<1>; 2]; 1]; 2]; 2],
		9 1 [Tok<1>; 9], 10 1 [Tok<1>; 10], 9 1 [[Tok<1>; 3]; 3], 10 1 [[Tok<1>; 5]; 2],
	];
	let input = |k: u64, n: usize, e: usize| -> Vec<u8> {
		let mut ix = Ix(k);
		let mut v = vec![];
		for j in 0..n {
			for i in 0..e - 1 {
				v.push((0xE0 + i + j) as u8);
			}
			v.push([j as u8 + 1, 0xE0, 0xE1, 0xE2, 0xE3][ix.take(5)]);
		}
		v
	};
	let limit = 5u64.pow(r.by_tier(9, 11));
	r.sweep("every outcome of every element", cases.len() as u64 * limit, |i, cx| {
		let mut ix = Ix(i);
		let (name, n, e, f, _) = cases[ix.take(cases.len())];
		if ix.0 >= 5u64.pow(n as u32) {
			return;
		}
		f(cx, name, &input(ix.0, n, e), e);
	});
	let small: Vec<Case> = cases.iter().filter(|c| c.1 <= 6).cloned().collect();
	r.sweep("through a client", small.len() as u64 * 2 * 5u64.pow(6), |i, cx| {
		let mut ix = Ix(i);
		let (name, n, e, _, f) = small[ix.take(small.len())];
		let sync = ix.take(2) == 1;
		if ix.0 >= 5u64.pow(n as u32) {
			return;
		}
		f(cx, name, &input(ix.0, n, e), e, sync);
	});
	r.sweep("wrong lengths", cases.len() as u64 * 24, |i, cx| {
		let mut ix = Ix(i);
		let (name, n, e, _, _) = cases[ix.take(cases.len())];
		let len = ix.take(24);
		if len == n * e {
			return;
		}
		// Through the generic entry of a representative array: nothing may be left over.
		reset();
		let v = vec![1u8; len];
		let ok = match n {
			2 if e == 1 => cx.catch(|| <[Tok<1>; 2]>::decode(&v).is_ok()),
			3 if e == 2 => cx.catch(|| <[Tok<2>; 3]>::decode(&v).is_ok()),
			6 => cx.catch(|| <[[Tok<1>; 3]; 2]>::decode(&v).is_ok()),
			8 => cx.catch(|| <[[[Tok<1>; 2]; 2]; 2]>::decode(&v).is_ok()),
			_ => return,
		};
		vassert!(ok == Ok(false), "{name} from {len} bytes: {ok:?}");
		balance(name, &v);
	});
	// Large arrays: each single element misbehaves in each way, and some pairs.
	let large: Vec<Case> = cases![
		127 1 [Tok<1>; 127], 128 1 [Tok<1>; 128], 129 1 [Tok<1>; 129], 255 1 [Tok<1>; 255], 256 1 [Tok<1>; 256], 257 1 [Tok<1>; 257], 300 1 [Tok<1>; 300], 600 1 [Tok<1>; 600],
		400 1 [[Tok<1>; 20]; 20], 520 1 [[Tok<1>; 260]; 2], 520 1 [[Tok<1>; 2]; 260], 256 2 [Tok<2>; 256], 300 3 [Tok<3>; 300],
	];
	r.sweep("large arrays", large.len() as u64 * 601 * 5 * 2, |i, cx| {
		let mut ix = Ix(i);
		let (name, n, e, f, _) = large[ix.take(large.len())];
		let at = ix.take(601);
		let kind = ix.take(5);
		if at > n || at == n && kind != 0 {
			return;
		}
		let mut v: Vec<u8> = (0..n * e).map(|k| (k % 200) as u8).collect();
		if kind != 0 {
			v[at * e + e - 1] = 0xDF + kind as u8;
		}
		if ix.take(2) == 1 {
			v[n * e - 1] = 0xE0;
		}
		f(cx, name, &v, e);
	});
	// Elements that only have a destructor; those of size 0 on the bus also.
	r.sweep("elements without data", 12 * 3u64.pow(7), |i, cx| {
		let mut ix = Ix(i);
		let case = ix.take(12);
		let (n, size, f): (usize, usize, fn(&Cx, &str, usize, &[u8])) = match case {
			0 => (0, 1, decode_empty::<[Empty<1>; 0]>),
			1 => (1, 1, decode_empty::<[Empty<1>; 1]>),
			2 => (3, 1, decode_empty::<[Empty<1>; 3]>),
			3 => (7, 1, decode_empty::<[Empty<1>; 7]>),
			4 => (6, 1, decode_empty::<[[Empty<1>; 3]; 2]>),
			5 => (4, 1, decode_empty::<[[[Empty<1>; 1]; 2]; 2]>),
			6 => (300, 1, decode_empty::<[Empty<1>; 300]>),
			7 => (5, 2, decode_empty::<[Empty<2>; 5]>),
			8 => (1, 0, decode_empty::<[Empty<0>; 1]>),
			9 => (7, 0, decode_empty::<[Empty<0>; 7]>),
			10 => (6, 0, decode_empty::<[[Empty<0>; 2]; 3]>),
			_ => (70_000 / 2, 0, decode_empty::<[Empty<0>; 35_000]>),
		};
		let mut v = vec![0u8; n * size];
		for k in 0..7 {
			// In large arrays the special elements are spread.
			let at = if n > 7 { n / 7 * k + n % 7 } else { k };
			let b = [1u8, 0xE0, 0xE1][ix.take(3)];
			if at < n && size > 0 {
				v[at * size + size - 1] = b;
			} else if b != 1 {
				return;
			}
		}
		f(cx, &format!("array {case} of {n} empty elements"), n, &v);
	});
	r.sweep("very large arrays", 3 * 5 * 7, |i, cx| {
		let mut ix = Ix(i);
		let kind = ix.take(5);
		let at = [0usize, 1, 255, 256, 4095, 4096, 4159][ix.take(7)];
		let mut v = vec![7u8; 4160];
		if kind != 0 {
			v[at] = 0xDF + kind as u8;
		}
		match ix.take(3) {
			0 => decode::<[Tok<1>; 4160]>(cx, "[Tok<1>; 4160]", &v, 1),
			1 => decode::<[[Tok<1>; 65]; 64]>(cx, "[[Tok<1>; 65]; 64]", &v, 1),
			_ => decode::<[[Tok<1>; 8]; 520]>(cx, "[[Tok<1>; 8]; 520]", &v, 1),
		}
	});
	r.finish();
}

//! Stands in for `core` while compiling the library and the checker: everything is the real `core`,
//! except that every operation on an atomic first asks the scheduler of the checker.
pub use ::core::*;

/// Control of the atomics.
pub mod control {
	use ::core::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};
	use std::sync::Mutex;

	static HOOK: AtomicPtr<()> = AtomicPtr::new(::core::ptr::null_mut());
	static WEAK: AtomicPtr<()> = AtomicPtr::new(::core::ptr::null_mut());
	static OPS: AtomicU64 = AtomicU64::new(0);
	static RESETS: Mutex<Vec<(usize, fn(usize))>> = Mutex::new(Vec::new());

	/// Call this function before every atomic operation.
	pub fn set_hook(f: fn()) {
		HOOK.store(f as *mut (), SeqCst)
	}
	/// The number of atomic operations so far.
	pub fn ops() -> u64 {
		OPS.load(SeqCst)
	}
	/// Give all atomics that were used their initial values again.
	pub fn reset() {
		for (addr, f) in RESETS.lock().unwrap().iter() {
			f(*addr)
		}
	}
	/// Ask this function whether a weak compare-exchange fails for no reason.
	pub fn set_weak(f: fn() -> bool) {
		WEAK.store(f as *mut (), SeqCst)
	}
	pub(crate) fn weak() -> bool {
		let h = WEAK.load(SeqCst);
		if h.is_null() {
			return false;
		}
		let f: fn() -> bool = unsafe { ::core::mem::transmute(h) };
		f()
	}
	pub(crate) fn op(addr: usize, reset: fn(usize)) {
		OPS.fetch_add(1, SeqCst);
		let mut g = RESETS.lock().unwrap();
		if !g.iter().any(|x| x.0 == addr) {
			g.push((addr, reset));
		}
		drop(g);
		let h = HOOK.load(SeqCst);
		if !h.is_null() {
			let f: fn() = unsafe { ::core::mem::transmute(h) };
			f()
		}
	}
}

pub mod sync {
	pub use ::core::sync::*;
	pub mod atomic {
		pub use ::core::sync::atomic::*;
		use ::core::sync::atomic as real;

		macro_rules! shim {
			($($N:ident $T:ty { $($arith:tt)* })*) => {$(
				pub struct $N { inner: real::$N, init: $T }
				impl $N {
					pub const fn new(v: $T) -> Self { Self { inner: real::$N::new(v), init: v } }
					fn op(&self) {
						crate::control::op(self as *const Self as usize, |a| {
							let me = unsafe { &*(a as *const Self) };
							me.inner.store(me.init, Ordering::SeqCst)
						})
					}
					pub fn load(&self, _: Ordering) -> $T { self.op(); self.inner.load(Ordering::SeqCst) }
					pub fn store(&self, v: $T, _: Ordering) { self.op(); self.inner.store(v, Ordering::SeqCst) }
					pub fn swap(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.swap(v, Ordering::SeqCst) }
					pub fn compare_exchange(&self, a: $T, b: $T, _: Ordering, _: Ordering) -> Result<$T, $T> {
						self.op();
						self.inner.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst)
					}
					pub fn compare_exchange_weak(&self, a: $T, b: $T, x: Ordering, y: Ordering) -> Result<$T, $T> {
						if crate::control::weak() {
							self.op();
							return Err(self.inner.load(Ordering::SeqCst));
						}
						self.compare_exchange(a, b, x, y)
					}
					pub fn fetch_update(&self, _: Ordering, _: Ordering, mut f: impl FnMut($T) -> Option<$T>) -> Result<$T, $T> {
						self.op();
						let mut cur = self.inner.load(Ordering::SeqCst);
						while let Some(n) = f(cur) {
							self.op();
							match self.inner.compare_exchange(cur, n, Ordering::SeqCst, Ordering::SeqCst) {
								Ok(x) => return Ok(x),
								Err(x) => cur = x,
							}
						}
						Err(cur)
					}
					pub fn fetch_and(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_and(v, Ordering::SeqCst) }
					pub fn fetch_nand(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_nand(v, Ordering::SeqCst) }
					pub fn fetch_or(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_or(v, Ordering::SeqCst) }
					pub fn fetch_xor(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_xor(v, Ordering::SeqCst) }
					shim!(@ $T; $($arith)*);
				}
			)*};
			(@ $T:ty;) => {
				pub fn fetch_not(&self, _: Ordering) -> bool { self.op(); self.inner.fetch_xor(true, Ordering::SeqCst) }
			};
			(@ $T:ty; arith) => {
				pub fn fetch_add(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_add(v, Ordering::SeqCst) }
				pub fn fetch_sub(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_sub(v, Ordering::SeqCst) }
				pub fn fetch_max(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_max(v, Ordering::SeqCst) }
				pub fn fetch_min(&self, v: $T, _: Ordering) -> $T { self.op(); self.inner.fetch_min(v, Ordering::SeqCst) }
			};
		}
		shim! {
			AtomicBool bool {}
			AtomicU8 u8 { arith } AtomicU16 u16 { arith } AtomicU32 u32 { arith } AtomicU64 u64 { arith } AtomicUsize usize { arith }
			AtomicI8 i8 { arith } AtomicI16 i16 { arith } AtomicI32 i32 { arith } AtomicI64 i64 { arith } AtomicIsize isize { arith }
		}
	}
}

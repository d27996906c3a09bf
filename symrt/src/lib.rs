//! Harness API. Under the symbolic engine every function marked `intercepted` is replaced by a native
//! model (mirsym/src/models.rs); with feature `native` the same harness runs on concrete inputs.
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(unused_variables)]
extern crate alloc;

#[cfg(not(feature = "native"))]
mod imp {
	macro_rules! ext { ($($(#[$m:meta])* fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => { $(
		#[inline(never)] pub fn $n($($a: $t),*) $(-> $r)? { loop {} }
	)* } }
	ext! {
		fn any(name: &'static str, lo: u128, hi: u128) -> u128;
		fn choice(name: &'static str, n: u32) -> u32;
		fn assume(b: bool);
		fn check(b: bool, msg: &'static str);
		fn reach(name: &'static str);
		fn observe(name: &'static str, v: u128);
		fn end();
		fn dbg(name: &'static str, v: u128);
		fn is_symbolic(v: u128) -> bool;
		fn conc(v: u128) -> u128;
		fn st_len(key: &[u8]) -> usize;
		fn st_read(key: &[u8], dst: *mut u8, off: usize, n: usize);
		fn st_set(key: &[u8], val: &[u8]);
		fn st_clear(key: &[u8]);
		fn st_next(key: &[u8], out: *mut u8) -> usize;
		fn tx_start();
		fn tx_rollback();
		fn tx_commit();
	}
}

#[cfg(feature = "native")]
mod imp {
	use std::cell::RefCell;
	thread_local! {
		pub static INPUTS: RefCell<Vec<(String, u128)>> = const { RefCell::new(vec![]) };
		pub static POS: RefCell<usize> = const { RefCell::new(0) };
		pub static OUT: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
	}
	/// Payload of the unwinding used to leave a harness early.
	pub struct Leave;
	fn next(name: &str, lo: u128, hi: u128) -> u128 {
		let i = POS.with(|p| {
			let mut p = p.borrow_mut();
			*p += 1;
			*p - 1
		});
		let v = INPUTS.with(|v| v.borrow().get(i).cloned());
		match v {
			Some((n, v)) if n == name && v >= lo && v <= hi => v,
			Some((n, v)) => {
				OUT.with(|o| o.borrow_mut().push(format!("DIVERGED input {i}: {n}={v} where {name} in {lo}..={hi} was asked")));
				std::panic::panic_any(Leave)
			},
			None => {
				OUT.with(|o| o.borrow_mut().push(format!("DIVERGED no input {i} for {name}")));
				std::panic::panic_any(Leave)
			},
		}
	}
	pub fn any(name: &'static str, lo: u128, hi: u128) -> u128 {
		next(name, lo, hi)
	}
	pub fn choice(name: &'static str, n: u32) -> u32 {
		next(name, 0, n.max(1) as u128 - 1) as u32
	}
	pub fn assume(b: bool) {
		if !b {
			OUT.with(|o| o.borrow_mut().push("ASSUME-FAIL".into()));
			std::panic::panic_any(Leave)
		}
	}
	fn other_prop(msg: &str) -> bool {
		let b = msg.as_bytes();
		b.len() > 4
			&& b[0].is_ascii_uppercase()
			&& b[1].is_ascii_digit()
			&& std::env::var("VERIF_PROP").map_or(false, |p| {
				!p.is_empty() && !msg.split(':').next().unwrap_or("").split('+').any(|x| x == p)
			})
	}
	pub fn check(b: bool, msg: &'static str) {
		if !b && !other_prop(msg) {
			OUT.with(|o| o.borrow_mut().push(format!("CHECK-FAIL {msg}")));
			std::panic::panic_any(Leave)
		}
	}
	pub fn reach(name: &'static str) {
		OUT.with(|o| o.borrow_mut().push(format!("REACH {name}")));
	}
	pub fn observe(name: &'static str, v: u128) {
		OUT.with(|o| o.borrow_mut().push(format!("OBS {name} {v}")));
	}
	pub fn end() {
		OUT.with(|o| o.borrow_mut().push("END".into()));
		std::panic::panic_any(Leave)
	}
	pub fn dbg(_name: &'static str, _v: u128) {}
	pub fn is_symbolic(_v: u128) -> bool {
		false
	}
	pub fn conc(v: u128) -> u128 {
		v
	}
}
pub use imp::*;

/// Replacements for host functions; the engine redirects `a::b::c` to `redir::a__b__c`.
#[cfg(not(feature = "native"))]
#[allow(non_snake_case)]
pub mod redir {
	use super::*;
	use alloc::vec::Vec;
	fn fetch(key: &[u8]) -> Option<Vec<u8>> {
		let n = st_len(key);
		if n == usize::MAX {
			return None;
		}
		let mut v: Vec<u8> = Vec::with_capacity(n);
		if n > 0 {
			st_read(key, v.as_mut_ptr(), 0, n);
			unsafe { v.set_len(n) };
		}
		Some(v)
	}
	pub fn sp_io__storage__get(key: &[u8]) -> Option<bytes::Bytes> {
		match fetch(key) {
			Some(v) => Some(bytes::Bytes::from(v)),
			None => None,
		}
	}
	pub fn sp_io__storage__read(key: &[u8], value_out: &mut [u8], value_offset: u32) -> Option<u32> {
		let n = st_len(key);
		if n == usize::MAX {
			return None;
		}
		let off = value_offset as usize;
		let rest = if off > n { 0 } else { n - off };
		let m = if value_out.len() < rest { value_out.len() } else { rest };
		if m > 0 {
			st_read(key, value_out.as_mut_ptr(), off, m);
		}
		Some(rest as u32)
	}
	pub fn sp_io__storage__set(key: &[u8], value: &[u8]) {
		st_set(key, value)
	}
	pub fn sp_io__storage__clear(key: &[u8]) {
		st_clear(key)
	}
	pub fn sp_io__storage__exists(key: &[u8]) -> bool {
		st_len(key) != usize::MAX
	}
	fn next(key: &[u8]) -> Option<Vec<u8>> {
		let mut b: Vec<u8> = Vec::with_capacity(256);
		let n = st_next(key, b.as_mut_ptr());
		if n == usize::MAX {
			return None;
		}
		unsafe { b.set_len(n) };
		Some(b)
	}
	pub fn sp_io__storage__next_key(key: &[u8]) -> Option<Vec<u8>> {
		next(key)
	}
	pub fn sp_io__storage__clear_prefix(prefix: &[u8], limit: Option<u32>) -> sp_io::KillStorageResult {
		let mut n = 0u32;
		if st_len(prefix) != usize::MAX {
			st_clear(prefix);
			n += 1;
		}
		let mut cur: Vec<u8> = prefix.to_vec();
		while let Some(k) = next(&cur) {
			if k.len() < prefix.len() || &k[..prefix.len()] != prefix {
				break;
			}
			if let Some(l) = limit {
				if n >= l {
					return sp_io::KillStorageResult::SomeRemaining(n);
				}
			}
			st_clear(&k);
			n += 1;
			cur = k;
		}
		sp_io::KillStorageResult::AllRemoved(n)
	}
	pub fn sp_io__storage__append(key: &[u8], value: Vec<u8>) {
		// SCALE append to an encoded Vec (short lengths only)
		match fetch(key) {
			None => {
				let mut v = Vec::with_capacity(1 + value.len());
				v.push(4u8);
				v.extend_from_slice(&value);
				st_set(key, &v);
			},
			Some(old) => {
				assert!(!old.is_empty() && old[0] & 3 == 0 && old[0] < 252, "append: long vector");
				let mut v = Vec::with_capacity(old.len() + value.len());
				v.push(old[0] + 4);
				v.extend_from_slice(&old[1..]);
				v.extend_from_slice(&value);
				st_set(key, &v);
			},
		}
	}
	pub fn sp_io__storage__start_transaction() {
		tx_start()
	}
	pub fn sp_io__storage__rollback_transaction() {
		tx_rollback()
	}
	pub fn sp_io__storage__commit_transaction() {
		tx_commit()
	}
}

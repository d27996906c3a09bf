//! Symbolic harnesses over pallet-funding.
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all)]
extern crate alloc;

pub mod base;
pub mod mock;

macro_rules! harnesses {
	($($m:ident: $($f:ident)*;)*) => {
		$(pub mod $m;)*
		/// Every harness by name (`module::function`).
		pub fn find(n: &str) -> Option<fn()> {
			match n {
				$($(concat!(stringify!($m), "::", stringify!($f)) => Some($m::$f as fn()),)*)*
				_ => None,
			}
		}
	};
}
harnesses! {
	app: valid valid_price create edit start;
	ev: evaluate end;
	auc: bid split reuse decide wap wap_over;
	con: contribute;
	fin: end fees reward;
	set: start bid contribution evaluation mark;
	life: step confirm;
	mig: open accepted recheck answer send done;
}

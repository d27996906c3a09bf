//! Symbolic harnesses over linear-release, proxy-bonding and polimec-common.
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all)]
extern crate alloc;

pub mod mock;

macro_rules! harnesses {
	($($m:ident: $($f:ident)*;)*) => {
		$(pub mod $m;)*
		/// Every harness by name (`module::function`).
		pub fn find(n: &str) -> Option<fn()> {
			match n {
				$($(concat!(stringify!($m), "::", stringify!($f)) => Some($m::$f as fn()),)*)*
				_ => None,
			}
		}
	};
}
harnesses! {
	lr: curve ending merge vest vest_extra vest_all merge_call transfer transfer_full add remove;
	pb: fee bond refund release fees;
	common: price price_none investor migrations;
}

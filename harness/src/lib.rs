//! Symbolic harnesses over the real pallets.
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all)]
extern crate alloc;

pub mod mock;
pub mod util;

macro_rules! harnesses {
	($($m:ident: $($f:ident)*;)*) => {
		$(pub mod $m;)*
		/// Every harness by name (`module::function`).
		pub fn find(n: &str) -> Option<fn()> {
			match n {
				$($(concat!(stringify!($m), "::", stringify!($f)) => Some($m::$f as fn()),)*)*
				_ => None,
			}
		}
	};
}
harnesses! {
	smoke: s1 s2 s3;
	dem_vote: vote_quick vote_deep remove_step delegate_quick delegate_deep undelegate_step unlock_step vote_list lock_time redelegate_time frozen_funds;
	dem_gov: propose second slash_proposal slash_nothing launch launch_deep guards metadata fast_track veto external cancel blacklist bake bake_deep;
	elec: election_two election_deep when submit submit_full submit_over renounce remove vote leave defunct;
	slash: one two none six tuple;
	dem_arith: thr_quick thr_deep thr_simple thr_wide conviction_power vote_codec tally_step tally_delegation lock_rule locked_cover;
}

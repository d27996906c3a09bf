//! Helpers shared by the harnesses.
use crate::mock::*;
use alloc::vec::Vec;
use frame_support::{traits::fungible::Mutate, BoundedVec};
use pallet_democracy::{AccountVote, Conviction, Vote};
use parity_scale_codec::{Decode, Encode};
use symrt::*;

pub const CONV: [Conviction; 7] = [
	Conviction::None,
	Conviction::Locked1x,
	Conviction::Locked2x,
	Conviction::Locked3x,
	Conviction::Locked4x,
	Conviction::Locked5x,
	Conviction::Locked6x,
];
pub const PERIODS: [u64; 7] = [0, 1, 2, 4, 8, 16, 32];

/// any of the first `n` of the convictions None, 6x, 1x, 3x, 2x, 4x, 5x
pub fn conviction(n: u32) -> usize {
	[0, 6, 1, 3, 2, 4, 5][choice("conviction", n) as usize]
}
/// specification of the voting power of `capital` under conviction number `c`
pub fn power(c: usize, capital: u128) -> u128 {
	if c == 0 {
		capital / 10
	} else {
		capital.saturating_mul(c as u128)
	}
}
/// a vote in specification terms: (ayes, nays, capital, standard direction)
#[derive(Clone, Copy)]
pub struct SVote {
	pub kind: u8, // 0 standard aye, 1 standard nay, 2 split
	pub conv: usize,
	pub a: u128,
	pub b: u128,
}
impl SVote {
	pub fn any(ncv: u32, max: u128) -> SVote {
		let kind = choice("vote kind", 3) as u8;
		let conv = if kind == 2 { 0 } else { conviction(ncv) };
		let a = any("amount", 0, max);
		let b = if kind == 2 { any("amount b", 0, max) } else { 0 };
		SVote { kind, conv, a, b }
	}
	pub fn real(&self) -> AccountVote<u128> {
		match self.kind {
			2 => AccountVote::Split { aye: self.a, nay: self.b },
			k => AccountVote::Standard { vote: Vote { aye: k == 0, conviction: CONV[self.conv] }, balance: self.a },
		}
	}
	pub fn balance(&self) -> u128 {
		if self.kind == 2 {
			self.a.saturating_add(self.b)
		} else {
			self.a
		}
	}
	/// contribution to (ayes, nays, turnout), with the voter's received delegations (votes, capital)
	pub fn contrib(&self, d: (u128, u128)) -> (u128, u128, u128) {
		match self.kind {
			0 => (power(self.conv, self.a) + d.0, 0, self.a + d.1),
			1 => (0, power(self.conv, self.a) + d.0, self.a + d.1),
			_ => (self.a / 10, self.b / 10, self.a + self.b),
		}
	}
	/// lock periods if the referendum ended with `approved`
	pub fn lock_if(&self, approved: bool) -> Option<(u64, u128)> {
		if self.kind == 2 || (self.kind == 0) != approved {
			None
		} else {
			Some((PERIODS[self.conv], self.a))
		}
	}
}
pub fn fund(who: u64, v: u128) {
	if v > 0 || is_symbolic(v) {
		let _ = <Balances as Mutate<u64>>::mint_into(&who, v);
	}
}
pub fn recode<A: Encode, B: Decode>(a: &A) -> B {
	match B::decode(&mut &a.encode()[..]) {
		Ok(b) => b,
		Err(_) => panic!("recode"),
	}
}
pub fn bv<T, S: frame_support::traits::Get<u32>>(v: Vec<T>) -> BoundedVec<T, S> {
	match v.try_into() {
		Ok(b) => b,
		Err(_) => panic!("bound"),
	}
}

/// a call as dispatched: a failing one is rolled back
pub fn tx<T, E: From<sp_runtime::DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	frame_support::storage::with_storage_layer(f)
}

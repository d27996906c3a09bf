//! on-slash-vesting: what a slash does to the vesting schedules of an account.
use crate::{mock::*, util::*};
use alloc::{vec, vec::Vec};
use frame_support::traits::{
	fungible::Inspect,
	tokens::{Fortitude, Preservation},
	LockableCurrency, WithdrawReasons,
};
use on_slash_vesting::OnSlash;
use pallet_vesting::{Vesting as Schedules, VestingInfo};
use symrt::*;

type Info = VestingInfo<u128, u64>;

fn put(who: u64, l: Vec<Info>) {
	Schedules::<Test>::insert(who, bv::<Info, pallet_vesting::MaxVestingSchedulesGet<Test>>(l));
}
/// the lock from when the schedules were last looked at: any amount, since they may have shrunk since
fn old_lock() {
	let v = any("old lock", 1, 1 << 110);
	Balances::set_lock(*b"vesting ", &1, v, WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
fn of(who: u64) -> Vec<Info> {
	Schedules::<Test>::get(who).map_or(vec![], |x| x.into_inner())
}
fn lock_of(who: u64) -> Option<u128> {
	Balances::locks(who).iter().find(|l| l.id == *b"vesting ").map(|l| l.amount)
}
fn usable(who: u64) -> u128 {
	Balances::reducible_balance(&who, Preservation::Expendable, Fortitude::Polite)
}
/// a schedule of `d` blocks that began `k` blocks ago (or begins later, k < 0) with any amount
fn schedule(now: u64, n: u32) -> (Info, u128, i64, i64) {
	let p = [7u128, 1, 1_000_000_007, 1 << 90][choice("per block", if n > 3 { 4 } else { 2 }) as usize];
	let d = [1i64, 4, 50, 100_000, 7][choice("duration", n) as usize];
	let k = [0, 1, d - 1, d, d + 3, -3, d / 2][choice("elapsed", if n > 3 { 7 } else { 6 }) as usize];
	let locked = any("locked", p * (d as u128 - 1) + 1, p * d as u128);
	(Info::new(locked, p, if k < 0 { now + (-k) as u64 } else { now - k as u64 }), locked, d, k)
}
fn slash(n: usize, ds: u32) {
	let now = any("now", 1 << 20, 1 << 40) as u64;
	set_now(now);
	let total = any("balance", 1, 1 << 110); // the account exists
	fund(1, total);
	fund(2, 500);
	let l: Vec<_> = (0..n).map(|_| schedule(now, ds)).collect();
	put(1, l.iter().map(|x| x.0).collect());
	old_lock();
	let other = vec![Info::new(100, 10, now - 2)];
	put(2, other.clone());
	let amount = any("slashed", 0, u128::MAX);
	<Vesting as OnSlash<u64, u128>>::on_slash(&1, amount);
	// what the specification leaves locked
	let mut want = vec![];
	let mut sum = 0;
	for (s, locked, d, k) in l {
		let vested = s.per_block() * (k.max(0) as u128);
		let left = if locked > vested { locked - vested } else { 0 };
		let left = if left > amount { left - amount } else { 0 };
		let rest = d - k;
		let pb = if rest > 0 { left / rest as u128 } else { 0 };
		if pb > 0 {
			want.push(Info::new(left, pb, now));
			sum += left;
		}
	}
	let got = of(1);
	check(got == want, "S01: every schedule keeps what is left after the slash, vesting over its remaining blocks");
	check(lock_of(1) == if want.is_empty() { None } else { Some(sum) }, "S02: the lock is exactly what is still vesting");
	check(usable(1) == if total > sum { total - sum } else { 0 }, "S02: everything vested or slashed from the lock is usable");
	check(<Balances as Inspect<u64>>::total_balance(&1) == total, "S02: the adjustment moves no money");
	check(of(2) == other && lock_of(2).is_none() && usable(2) == 500, "S02: nobody else's vesting changes");
	reach(if want.is_empty() { "all vested" } else { "still vesting" });
	observe("lock", sum);
}
pub fn one() {
	slash(1, 5)
}
pub fn two() {
	slash(2, 2)
}
/// an account without schedules
pub fn none() {
	let total = any("balance", 0, 1 << 60);
	fund(1, total);
	<Vesting as OnSlash<u64, u128>>::on_slash(&1, any("slashed", 0, u128::MAX));
	check(Schedules::<Test>::get(1).is_none() && lock_of(1).is_none() && usable(1) == total, "S02: without schedules nothing happens");
	reach("none");
}

/// six schedules (the maximum), most of them ongoing
pub fn six() {
	let now = 5_000;
	set_now(now);
	let total = any("balance", 1, 1 << 100);
	fund(1, total);
	let amount = any("slashed", 0, 1 << 90);
	let (mut l, mut want, mut sum) = (vec![], vec![], 0);
	for (i, d) in [(0u64, 3u64), (1, 10), (2, 1), (3, 200), (4, 30), (5, 77)] {
		let p = 1 << 40;
		let locked = any("locked", p * (d as u128 - 1) + 1, p * d as u128);
		let k = [0, d, 2][(i % 3) as usize];
		l.push(Info::new(locked, p, now - k));
		let v = p * k as u128;
		let left = if locked > v { locked - v } else { 0 };
		let left = if left > amount { left - amount } else { 0 };
		if d > k && left >= (d - k) as u128 {
			want.push(Info::new(left, left / (d - k) as u128, now));
			sum += left;
		}
	}
	put(1, l);
	old_lock();
	<Vesting as OnSlash<u64, u128>>::on_slash(&1, amount);
	check(of(1) == want, "S01: every schedule keeps what is left after the slash, vesting over its remaining blocks");
	check(lock_of(1) == if want.is_empty() { None } else { Some(sum) }, "S02: the lock is exactly what is still vesting");
	reach("six");
}
pub struct Other;
impl OnSlash<u64, u128> for Other {
	fn on_slash(who: &u64, amount: u128) {
		frame_support::storage::unhashed::put(b"other", &(*who, amount));
	}
}
/// several handlers all get the same slash
pub fn tuple() {
	set_now(10);
	fund(1, 1000);
	let locked = any("locked", 91, 100);
	let amount = any("slashed", 0, u128::MAX);
	put(1, vec![Info::new(locked, 10, 8)]);
	old_lock();
	<(Vesting, Other, ()) as OnSlash<u64, u128>>::on_slash(&1, amount);
	check(frame_support::storage::unhashed::get(b"other") == Some((1u64, amount)), "S02: every slash handler is told the slash");
	let left = (locked - 20).saturating_sub(amount);
	check(lock_of(1) == if left / 8 > 0 { Some(left) } else { None }, "S02: the lock is exactly what is still vesting");
	reach("told");
}

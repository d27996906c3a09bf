//! linear-release: schedules that release held money linearly, per hold reason.
use crate::mock::*;
use alloc::{vec, vec::Vec};
use frame_support::BoundedVec;
use pallet_linear_release::{Vesting, VestingInfo};
use polimec_common::ReleaseSchedule;
use sp_runtime::traits::ConvertInto;
use symrt::*;

type Info = VestingInfo<u128, u64>;

fn put(who: u128, r: Reason, l: Vec<Info>) {
	if !l.is_empty() {
		let b: BoundedVec<_, _> = l.try_into().unwrap();
		Vesting::<Test>::insert(who, r, b);
	}
}
fn of(who: u128, r: Reason) -> Vec<Info> {
	Vesting::<Test>::get(who, r).map_or(vec![], |x| x.into_inner())
}
/// specification: what a schedule still locks at `now`
fn locked_at(s: &Info, now: u64) -> u128 {
	let pb = s.per_block;
	let el = now.saturating_sub(s.starting_block) as u128;
	let v = el * pb;
	if v >= s.locked {
		0
	} else {
		s.locked - v
	}
}
const PB: [u128; 5] = [7, 1, 1_000_000_007, 1 << 70, 10];
/// any start and amount, one of several rates
fn sched(rates: u32) -> Info {
	let pb = PB[choice("per block", rates) as usize];
	Info::new(any("locked", 1, 1 << 90), pb, any("start", 0, 1 << 40) as u64)
}
/// a schedule with a known duration, relative to `now`
fn timed(now: u64, n: u32) -> (Info, i64, i64) {
	let pb = [7u128, 1 << 60][choice("per block", 2) as usize];
	let d = [4i64, 1, 50, 1000][choice("duration", n) as usize];
	let k = [0, 1, d - 1, d, -3][choice("elapsed", 5) as usize];
	let locked = any("locked", pb * (d as u128 - 1) + 1, pb * d as u128);
	(Info::new(locked, pb, if k < 0 { now + (-k) as u64 } else { now - k as u64 }), d, k)
}

/// locked and releasable amounts of one schedule over time
pub fn curve() {
	let pb = [7u128, 1, 1_000_000_007, 1 << 90, 1 << 127, u128::MAX, 0][choice("per block", 7) as usize];
	let s = Info::new(any("locked", 0, u128::MAX), pb, any("start", 0, (1 << 64) - 1) as u64);
	let t = any("t", 0, (1 << 64) - 1) as u64;
	let u = any("u", 0, (1 << 64) - 1) as u64;
	assume(t <= u);
	let (lt, lu) = (s.locked_at::<ConvertInto>(t), s.locked_at::<ConvertInto>(u));
	check(lt <= s.locked() && lu <= lt, "L01: the locked amount only falls");
	if t <= s.starting_block {
		check(lt == s.locked(), "L01: nothing is released before the start");
		reach("early");
	}
	check(lt + s.releaseble_at::<ConvertInto>(t) == s.locked(), "L01: every unit is either locked or releasable");
	let p = if pb == 0 { 1 } else { pb };
	let el = t.saturating_sub(s.starting_block) as u128;
	if p <= 1 << 63 {
		let v = el * p;
		check(lt == if v >= s.locked { 0 } else { s.locked - v }, "L01: `per_block` is released every block, and no more than is there");
		reach("linear");
	} else if el > 3 {
		check(lt == 0 || p <= 1 << 90, "L01: a rate of more than is locked ends the schedule");
	}
	check(s.is_valid() == ((s.locked != 0) & (pb != 0)), "L01: a schedule is valid when it has an amount and a rate");
	reach("curve");
}
/// the block where a schedule ends is the first where nothing is locked
pub fn ending() {
	let pb = [7u128, 1, 1_000_000_007, 1 << 70][choice("per block", 4) as usize];
	let s = Info::new(any("locked", 1, 1 << 100), pb, any("start", 0, 1 << 40) as u64);
	let e = s.ending_block_as_balance::<ConvertInto>();
	check(e > s.starting_block as u128, "L01: a schedule ends after its start");
	if e < 1 << 60 {
		let e = e as u64;
		check(s.locked_at::<ConvertInto>(e) == 0 && s.locked_at::<ConvertInto>(e - 1) > 0, "L01: a schedule ends at the first block where nothing is locked");
		reach("ends");
	}
}
fn spec_merge(now: u64, a: (Info, i64, i64), b: (Info, i64, i64)) -> Option<Info> {
	match (a.1 <= a.2, b.1 <= b.2) {
		(true, true) => None,
		(true, false) => Some(b.0),
		(false, true) => Some(a.0),
		_ => {
			let l = locked_at(&a.0, now) + locked_at(&b.0, now);
			// ends and starts relative to now
			let end = (a.1 - a.2).max(b.1 - b.2);
			let start = 0.max(-a.2).max(-b.2);
			let pb = l / ((end - start).max(1) as u128);
			Some(Info::new(l, if pb == 0 { 1 } else { pb }, now + start as u64))
		},
	}
}
/// merging two schedules
pub fn merge() {
	let now = any("now", 1 << 20, 1 << 40) as u64;
	let (a, b) = (timed(now, 4), timed(now, 4));
	let want = spec_merge(now, a, b);
	let got = Release::merge_vesting_info(now, a.0, b.0);
	check(got == want, "L03: a merged schedule locks what both still lock, spread over the time to the later end");
	if let Some(g) = got {
		check(locked_at(&g, now) == locked_at(&a.0, now) + locked_at(&b.0, now), "L03: merging neither releases nor locks anything");
		reach("merged");
	} else {
		reach("ended");
	}
}
pub fn merge_call() {
	let now = any("now", 1 << 20, 1 << 40) as u64;
	set_now(now);
	let (a, b) = (timed(now, 2), timed(now, 1));
	let c = Info::new(any("locked c", 100, 1 << 60), 9, now - 5);
	let mut l = vec![a.0, b.0];
	if flag("three") {
		l.insert(1, c)
	}
	put(1, Reason::A, l.clone());
	let still: u128 = l.iter().map(|s| locked_at(s, now)).sum();
	let most: u128 = l.iter().map(|s| s.locked).sum();
	let free0 = any("free", 1, 1 << 100);
	let h = any("held", 1, 1 << 100);
	assume(h >= still && h <= most);
	fund(1, free0 + h);
	hold(1, Reason::A, h);
	let last = l.len() as u32 - 1;
	let (i, j) = [(0, last), (last, 0), (0, 0), (0, 5)][choice("indices", 4) as usize];
	let r = tx(|| Release::merge_schedules(RuntimeOrigin::signed(1), i, j, Reason::A));
	if i == j {
		check(r.is_ok() && of(1, Reason::A) == l && held(1, Reason::A) == h, "L03: merging a schedule with itself changes nothing");
		reach("same");
		return;
	}
	if j == 5 {
		check(r.is_err() && of(1, Reason::A) == l && held(1, Reason::A) == h, "L03: a schedule that is not there cannot be merged");
		reach("out of bounds");
		return;
	}
	check(r.is_ok(), "L03: two schedules can be merged");
	let mut want = vec![];
	if l.len() == 3 && locked_at(&c, now) > 0 {
		want.push(c)
	}
	if let Some(m) = if i == 0 { spec_merge(now, a, b) } else { spec_merge(now, b, a) } {
		want.push(m)
	}
	check(of(1, Reason::A) == want, "L03: the two schedules are replaced by the merged one, the others stay");
	check(held(1, Reason::A) == still && free(1) == free0 + h - still, "L03: after a merge exactly what is still locked is held");
	reach("merged");
}
/// vest of up to three schedules: exactly what they no longer lock is released
pub fn vest() {
	let now = any("now", 0, 1 << 40) as u64;
	set_now(now);
	let n = choice("schedules", 4) as usize;
	let l: Vec<_> = (0..n).map(|i| sched(if i == 0 { 3 } else { 1 })).collect();
	let still: u128 = l.iter().map(|s| locked_at(s, now)).sum();
	let most: u128 = l.iter().map(|s| s.locked).sum();
	put(1, Reason::A, l.clone());
	put(1, Reason::B, vec![Info::new(9, 1, 0)]);
	put(2, Reason::A, vec![Info::new(9, 1, 0)]);
	let free0 = any("free", 1, 1 << 100);
	let h = if n == 0 { 5 } else { any("held", 1, 1 << 100) };
	assume(n == 0 || (h >= still && h <= most));
	fund(1, free0 + h + 9);
	fund(2, 50);
	hold(1, Reason::A, h);
	hold(1, Reason::B, 9);
	hold(2, Reason::A, 9);
	let how = choice("how", 5);
	if n > 0 && how == 0 {
		check(Release::vesting_balance(&1, Reason::A) == Some(most - still), "L02: the reported vesting balance is what is releasable");
		check(Release::total_scheduled_amount(&1, Reason::A) == Some(most), "L02: the reported scheduled amount is the sum of the schedules");
	}
	let r = match how {
		0 => tx(|| <Release as ReleaseSchedule<u128, Reason>>::vest(1, Reason::A)).map(Some),
		1 => tx(|| Release::vest(RuntimeOrigin::signed(1), Reason::A)).map(|_| None),
		2 => tx(|| Release::vest_other(RuntimeOrigin::signed(7), 1, Reason::A)).map(|_| None),
		3 => tx(|| Release::vest_other(RuntimeOrigin::none(), 1, Reason::A)).map(|_| None),
		_ => tx(|| Release::vest(RuntimeOrigin::root(), Reason::A)).map(|_| None),
	};
	let keep: Vec<_> = l.iter().filter(|s| locked_at(s, now) > 0).cloned().collect();
	if n > 0 && how < 3 {
		check(r.is_ok(), "L02: anybody can release what has vested");
		check(of(1, Reason::A) == keep, "L02: finished schedules go, the others stay as they are");
		check(held(1, Reason::A) == still, "L02: exactly what the schedules still lock stays held");
		check(free(1) == free0 + h - still, "L02: everything that has vested is usable");
		if let Ok(Some(v)) = r {
			check(v == h - still, "L02: the reported release is what was released");
		}
		reach(if still == 0 { "completed" } else { "vested" });
	} else {
		check(r.is_err(), "L02: without schedules or a signature nothing is released");
		check(of(1, Reason::A) == l && held(1, Reason::A) == h, "L02: a refused release changes nothing");
		reach("refused");
	}
	check(total(1) == free0 + h + 9, "L02: releasing moves no money");
	check(held(1, Reason::B) == 9 && held(2, Reason::A) == 9 && of(1, Reason::B).len() == 1 && of(2, Reason::A).len() == 1,
		"L02: other reasons and accounts are untouched");
	observe("still", still);
}
/// money held under the same reason that no schedule covers (another, unsettled, participation)
pub fn vest_extra() {
	let now = any("now", 0, 1 << 40) as u64;
	set_now(now);
	let s = sched(2);
	let extra = any("extra", 1, 1 << 90);
	put(1, Reason::A, vec![s]);
	fund(1, s.locked + extra + 10);
	hold(1, Reason::A, s.locked + extra);
	let r = tx(|| Release::vest(RuntimeOrigin::signed(1), Reason::A));
	check(r.is_ok(), "L02: anybody can release what has vested");
	reach("vested");
	check(held(1, Reason::A) == locked_at(&s, now) + extra, "L02: money held under the reason without a schedule stays held");
}
/// all reasons at once
pub fn vest_all() {
	let now = any("now", 0, 1 << 40) as u64;
	set_now(now);
	let rs = [Reason::A, Reason::B, Reason::C];
	let mut h = [0u128; 3];
	let mut still = [0u128; 3];
	let mut ls = vec![];
	for i in 0..3 {
		let l: Vec<_> = (0..if i == 1 { 2 } else { 1 }).map(|_| sched(1)).collect();
		still[i] = l.iter().map(|s| locked_at(s, now)).sum();
		let most: u128 = l.iter().map(|s| s.locked).sum();
		h[i] = any("held", 1, 1 << 100);
		assume(h[i] >= still[i] && h[i] <= most);
		put(1, rs[i], l.clone());
		ls.push(l);
	}
	let all = h[0] + h[1] + h[2] + 5;
	fund(1, all);
	for i in 0..3 {
		hold(1, rs[i], h[i]);
	}
	put(2, Reason::A, vec![Info::new(9, 1, 0)]);
	fund(2, 50);
	hold(2, Reason::A, 9);
	let r = if flag("own") { tx(|| Release::vest_all(RuntimeOrigin::signed(1))) } else { tx(|| Release::vest_all_other(RuntimeOrigin::signed(7), 1)) };
	check(r.is_ok(), "L02: everything can be released at once");
	for i in 0..3 {
		let keep: Vec<_> = ls[i].iter().filter(|s| locked_at(s, now) > 0).cloned().collect();
		check(of(1, rs[i]) == keep && held(1, rs[i]) == still[i], "L02: every reason is released to what it still locks");
	}
	check(total(1) == all && held(2, Reason::A) == 9, "L02: other reasons and accounts are untouched");
	reach("all");
}
/// a vested transfer, by the sender or by root
pub fn transfer() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let min = any("minimum", 1, 1 << 90);
	MinTransfer::set(min);
	let ed = any("ed", 1, 1 << 20);
	Ed::set(ed);
	let amount = any("amount", 0, 1 << 100);
	let pb = [7u128, 0, 1 << 60][choice("per block", 3) as usize];
	let start = any("start", 0, 1 << 40) as u64;
	let s = Info::new(amount, pb, start);
	let from = any("sender", 0, 1 << 110);
	let to = any("receiver", 0, 1 << 110);
	assume((from == 0 || from >= ed) && to >= ed);
	fund(1, from);
	fund(2, to);
	let old = Info::new(50, 1, now);
	let had = flag("had");
	if had {
		fund(2, 50);
		hold(2, Reason::A, 50);
		put(2, Reason::A, vec![old]);
	}
	let h0 = if had { 50 } else { 0 };
	let how = choice("how", 4);
	let r = match how {
		0 => tx(|| Release::vested_transfer(RuntimeOrigin::signed(1), 2, s, Reason::A)),
		1 => tx(|| Release::force_vested_transfer(RuntimeOrigin::root(), 1, 2, s, Reason::A)),
		2 => tx(|| Release::force_vested_transfer(RuntimeOrigin::signed(1), 1, 2, s, Reason::A)),
		_ => tx(|| Release::vested_transfer(RuntimeOrigin::root(), 2, s, Reason::A)),
	};
	let valid = amount >= min && amount > 0 && pb > 0 && how < 2;
	if r.is_ok() {
		check(valid, "L04: only valid schedules above the minimum, from the sender or root");
		check(from >= amount && (from == amount || from - amount >= ed || total(1) == 0), "L04: the sender has the money");
		let still = locked_at(&s, now);
		let mut want = if had { vec![old] } else { vec![] };
		if still > 0 {
			want.push(s)
		}
		check(of(2, Reason::A) == want, "L04: the receiver gets exactly this schedule");
		check(held(2, Reason::A) == h0 + still && free(2) == to + amount - still, "L04: the receiver gets the amount, held as far as it is locked");
		check(total(1) == from - amount || (from - amount < ed && total(1) == 0), "L04: the sender pays exactly the amount");
		reach("transferred");
	} else {
		check(!valid || from < amount + ed, "L04: a valid transfer that the sender can pay is made");
		check(total(1) == from && total(2) == to + h0 && held(2, Reason::A) == h0 && of(2, Reason::A).len() == had as usize, "L04: a refused transfer moves nothing");
		reach("refused");
	}
}
/// no more schedules than the maximum
pub fn transfer_full() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let l: Vec<_> = (0..3).map(|_| Info::new(any("locked", 1, 1 << 40), 5, any("start", 0, 1 << 40) as u64)).collect();
	put(2, Reason::A, l.clone());
	fund(2, 1 << 50);
	fund(1, 1000);
	let s = Info::new(100, 1, now);
	let r = match choice("how", 3) {
		0 => tx(|| Release::vested_transfer(RuntimeOrigin::signed(1), 2, s, Reason::A)),
		1 => tx(|| Release::add_release_schedule(&2, 100, 1, now, Reason::A)),
		_ => tx(|| Release::set_release_schedule(&2, 100, 1, now, Reason::A)),
	};
	check(r.is_err() && of(2, Reason::A) == l && total(1) == 1000, "L04: an account cannot get more than the maximum of schedules");
	check(Release::can_add_release_schedule(&2, 100, 1, now, Reason::A).is_err(), "L04: the check beforehand agrees");
	check(Release::can_add_release_schedule(&2, 100, 1, now, Reason::B).is_ok(), "L04: the maximum is per reason");
	reach("full");
}
/// adding schedules for money that is already held
pub fn add() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let n = choice("had", 3) as usize;
	let l: Vec<_> = (0..n).map(|_| sched(1)).collect();
	put(1, Reason::A, l.clone());
	let amount = any("amount", 0, 1 << 90);
	let pb = [7u128, 0][choice("per block", 2) as usize];
	let start = any("start", 0, 1 << 40) as u64;
	let s = Info::new(amount, pb, start);
	let still: u128 = l.iter().map(|s| locked_at(s, now)).sum();
	let most: u128 = l.iter().map(|s| s.locked).sum();
	let h = any("held", 1, 1 << 100);
	assume(h >= still + amount && h <= most + amount);
	let all = h + 10;
	fund(1, all);
	hold(1, Reason::A, h);
	let set = flag("set");
	let r = if set { tx(|| Release::set_release_schedule(&1, amount, pb, start, Reason::A)) } else { tx(|| Release::add_release_schedule(&1, amount, pb, start, Reason::A)) };
	if amount == 0 {
		check(r.is_ok() && of(1, Reason::A) == l && held(1, Reason::A) == h, "L04: an empty schedule is not added");
		reach("empty");
	} else if pb == 0 {
		check(r.is_err() && of(1, Reason::A) == l && held(1, Reason::A) == h, "L04: a schedule without a rate is refused");
		reach("invalid");
	} else {
		check(r.is_ok(), "L04: a valid schedule is added");
		let ls = locked_at(&s, now);
		let mut want: Vec<_> = l.iter().filter(|s| locked_at(s, now) > 0).cloned().collect();
		if ls > 0 {
			want.push(s)
		} else if !set {
			want = l.clone();
		}
		check(of(1, Reason::A) == want, "L04: the schedule is added to those that still run");
		check(held(1, Reason::A) == if set { still + ls } else if ls > 0 { h } else { h - amount }, "L04: adding releases nothing but what ended before, setting releases what has vested");
		reach("added");
	}
	check(total(1) == all, "L04: no money moves");
}
/// removing one or all schedules frees what they locked
pub fn remove() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let n = choice("schedules", 4) as usize;
	let l: Vec<_> = (0..n).map(|_| sched(1)).collect();
	put(1, Reason::A, l.clone());
	let still: u128 = l.iter().map(|s| locked_at(s, now)).sum();
	let h = any("held", 1, 1 << 100);
	let most: u128 = l.iter().map(|s| s.locked).sum();
	assume(n == 0 || (h >= still && h <= most));
	fund(1, h + 10);
	hold(1, Reason::A, h);
	if flag("all") {
		let r = tx(|| Release::remove_all_vesting_schedules(&1, Reason::A));
		check(r.is_ok() == (n > 0), "L04: schedules can be removed from an account that has some");
		if r.is_ok() {
			check(of(1, Reason::A).is_empty() && held(1, Reason::A) == 0 && free(1) == h + 10, "L04: removing all schedules frees everything");
			reach("all removed");
		}
		return;
	}
	let i = choice("index", 4) as usize;
	let r = tx(|| Release::remove_vesting_schedule(&1, i as u32, Reason::A));
	check(r.is_ok() == (n > 0), "L04: schedules can be removed from an account that has some");
	if r.is_ok() {
		let want: Vec<_> = l.iter().enumerate().filter(|(j, s)| *j != i && locked_at(s, now) > 0).map(|x| *x.1).collect();
		let left: u128 = want.iter().map(|s| locked_at(s, now)).sum();
		check(of(1, Reason::A) == want, "L04: exactly the schedule asked for is removed");
		check(held(1, Reason::A) == left && free(1) == h + 10 - left, "L04: what the removed schedule locked is free, the rest stays held");
		reach("removed");
	}
}

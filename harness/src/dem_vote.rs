//! Democracy voting state: one operation from an arbitrary consistent state.
//! Accounts: 1 acts, 2 and 3 are possible delegates; everyone else is folded into symbolic totals.
use crate::{mock::*, util::*};
use alloc::{vec, vec::Vec};
use frame_support::traits::fungible::{Inspect, InspectFreeze, MutateFreeze};
use pallet_democracy::*;
use parity_scale_codec::Encode;
use symrt::*;

pub type V = Voting<u128, u64, u64, frame_support::traits::ConstU32<3>>;
type Dl = Delegations<u128>;
type Tri = (u128, u128, u128);
pub const M: u128 = 1 << 96;
const R: u32 = 4;

pub fn dl(votes: u128, capital: u128) -> Dl {
	Delegations { votes, capital }
}
pub fn prior_of(until: u64, amount: u128) -> PriorL {
	let mut v = V::default();
	if let Voting::Direct { ref mut prior, .. } = v {
		prior.accumulate(until, amount);
	}
	PriorL(v)
}
/// carries a prior lock (its type is private to the pallet)
pub struct PriorL(V);
impl PriorL {
	pub fn direct(&self, votes: Vec<(u32, AccountVote<u128>)>, d: Dl) -> V {
		match self.0.clone() {
			Voting::Direct { prior, .. } => Voting::Direct { votes: bv(votes), delegations: d, prior },
			_ => panic!("direct"),
		}
	}
	pub fn delegating(&self, balance: u128, target: u64, c: usize, d: Dl) -> V {
		match self.0.clone() {
			Voting::Direct { prior, .. } =>
				Voting::Delegating { balance, target, conviction: CONV[c], delegations: d, prior },
			_ => panic!("direct"),
		}
	}
}
pub fn status(end: u64, t: Tri, thr: VoteThreshold, delay: u64) -> ReferendumStatus<u64, BoundedCallOf<Test>, u128> {
	ReferendumStatus { end, proposal: bounded(7), threshold: thr, delay, tally: Tally { ayes: t.0, nays: t.1, turnout: t.2 } }
}
pub fn put_ongoing(i: u32, t: Tri) {
	ReferendumInfoOf::<Test>::insert(i, ReferendumInfo::Ongoing(status(1000, t, VoteThreshold::SimpleMajority, 1)));
}
pub fn tally_of(i: u32) -> Tri {
	match ReferendumInfoOf::<Test>::get(i) {
		Some(ReferendumInfo::Ongoing(s)) => (s.tally.ayes, s.tally.nays, s.tally.turnout),
		_ => {
			check(false, "the referendum is still ongoing");
			(0, 0, 0)
		},
	}
}
fn conv_index(c: Conviction) -> usize {
	match c {
		Conviction::None => 0,
		Conviction::Locked1x => 1,
		Conviction::Locked2x => 2,
		Conviction::Locked3x => 3,
		Conviction::Locked4x => 4,
		Conviction::Locked5x => 5,
		Conviction::Locked6x => 6,
	}
}
pub fn svote(v: &AccountVote<u128>) -> SVote {
	match v {
		AccountVote::Split { aye, nay } => SVote { kind: 2, conv: 0, a: *aye, b: *nay },
		AccountVote::Standard { vote, balance } =>
			SVote { kind: if vote.aye { 0 } else { 1 }, conv: conv_index(vote.conviction), a: *balance, b: 0 },
	}
}
/// what `who` adds to the tally of referendum `i`, from its voting record
pub fn contribution(who: u64, i: u32) -> Tri {
	match VotingOf::<Test>::get(who) {
		Voting::Direct { votes, delegations, .. } => {
			for (j, v) in votes.iter() {
				if *j == i {
					return svote(v).contrib((delegations.votes, delegations.capital));
				}
			}
			(0, 0, 0)
		},
		_ => (0, 0, 0),
	}
}
pub fn received(who: u64) -> (u128, u128) {
	match VotingOf::<Test>::get(who) {
		Voting::Direct { delegations, .. } => (delegations.votes, delegations.capital),
		Voting::Delegating { delegations, .. } => (delegations.votes, delegations.capital),
	}
}
/// what `who` delegates to `to`, from its voting record
pub fn delegated(who: u64, to: u64) -> (u128, u128) {
	match VotingOf::<Test>::get(who) {
		Voting::Delegating { balance, target, conviction, .. } if target == to => (power(conv_index(conviction), balance), balance),
		_ => (0, 0),
	}
}
fn add3(a: Tri, b: Tri) -> Tri {
	(a.0 + b.0, a.1 + b.1, a.2 + b.2)
}
pub fn frozen(who: u64) -> u128 {
	Balances::balance_frozen(&FreezeReason::Vote.into(), &who)
}
pub fn freeze(who: u64, v: u128) {
	let _ = Balances::set_freeze(&FreezeReason::Vote.into(), &who, v);
}

/// what the voting record of `who` needs locked at `now`: the largest of its votes, its delegation and its running lock
pub fn need_at(who: u64, now: u64) -> u128 {
	let v = VotingOf::<Test>::get(who);
	let (until, amount): (u64, u128) = recode(v.prior());
	let mut n = if now < until { amount } else { 0 };
	match v {
		Voting::Direct { votes, .. } =>
			for (_, x) in votes.iter() {
				n = n.max(svote(x).balance());
			},
		Voting::Delegating { balance, .. } => n = n.max(balance),
	}
	n
}
/// the same with the lock on record counted even if it has run out: it is only dropped together with the freeze
pub fn need(who: u64) -> u128 {
	need_at(who, 0).max(recode::<_, (u64, u128)>(VotingOf::<Test>::get(who).prior()).1)
}

pub struct W {
	base: [Tri; 2],
	base2: (u128, u128),
	base3: (u128, u128),
	recv1: (u128, u128),
	f1: u128,
	total: u128,
	pre: u32,
}
/// referendum indices used: `rs[0]` votable, `rs[1]` another ongoing one
const RS: [u32; 2] = [R, R + 3];

/// 2's state: 0 no vote, 1 standard aye, 2 standard nay, 3 split, 4 delegating to 3; votes are on RS[0], or on both
fn target_state(who: u64, st: u32, d: (u128, u128)) {
	let p = prior_of(0, 0);
	let a = if st == 0 { 0 } else { any("target vote", 0, M) };
	let sv = SVote { kind: if st == 2 { 1 } else if st == 3 { 2 } else { 0 }, conv: 1, a, b: if st == 3 { any("target vote b", 0, M) } else { 0 } };
	let v = match st {
		0 => p.direct(vec![], dl(d.0, d.1)),
		1 => p.direct(vec![(RS[0], sv.real()), (RS[1], sv.real())], dl(d.0, d.1)),
		2 | 3 => p.direct(vec![(RS[0], sv.real())], dl(d.0, d.1)),
		_ => p.delegating(a, 3, 2, dl(d.0, d.1)),
	};
	VotingOf::<Test>::insert(who, v);
}
/// `pre`: 0 nothing, 1 vote on RS[0], 2 vote on RS[1], 3 votes on a finished referendum and RS[0], 4 delegating to 2
fn setup(pre: u32, ncv: u32, tstates: u32) -> W {
	set_now(50);
	let total = any("total", 2, M);
	fund(1, total);
	fund(2, 10);
	fund(3, 10);
	let base = [
		(any("base ayes", 0, M), any("base nays", 0, M), any("base turnout", 0, M)),
		(any("base2 ayes", 0, M), any("base2 nays", 0, M), any("base2 turnout", 0, M)),
	];
	let base2 = (any("others delegate to 2", 0, M), any("others' capital to 2", 0, M));
	let base3 = (any("others delegate to 3", 0, M), any("others' capital to 3", 0, M));
	let recv1 = (any("delegated to 1", 0, M), any("capital to 1", 0, M));
	let p = prior_of(any("prior until", 0, 200) as u64, any("prior amount", 0, M));
	let d1 = dl(recv1.0, recv1.1);
	let rec = match pre {
		0 => p.direct(vec![], d1),
		1 => p.direct(vec![(RS[0], SVote::any(ncv, M).real())], d1),
		2 => p.direct(vec![(RS[1], SVote::any(1, M).real())], d1),
		3 => p.direct(vec![(1, SVote::any(1, M).real()), (RS[0], SVote::any(1, M).real())], d1),
		_ => p.delegating(any("delegated balance", 0, M), 2, conviction(ncv), d1),
	};
	VotingOf::<Test>::insert(1, rec);
	ReferendumInfoOf::<Test>::insert(1, ReferendumInfo::Finished { end: 40, approved: true });
	let out = delegated(1, 2);
	target_state(2, if tstates == 0 { 0 } else { choice("delegate", tstates) }, (base2.0 + out.0, base2.1 + out.1));
	let via = delegated(2, 3);
	VotingOf::<Test>::insert(3, prior_of(0, 0).direct(vec![(RS[0], SVote { kind: 1, conv: 0, a: 10, b: 0 }.real())], dl(base3.0 + via.0, base3.1 + via.1)));
	for k in 0..2 {
		let t = add3(base[k], add3(contribution(1, RS[k]), add3(contribution(2, RS[k]), contribution(3, RS[k]))));
		put_ongoing(RS[k], t);
	}
	let f1 = any("frozen", 0, 2 * M);
	assume(f1 >= need(1));
	freeze(1, f1);
	W { base, base2, base3, recv1, f1, total, pre }
}
impl W {
	/// the invariants that every operation has to keep
	fn verify(&self) {
		for k in 0..2 {
			let want = add3(self.base[k], add3(contribution(1, RS[k]), add3(contribution(2, RS[k]), contribution(3, RS[k]))));
			let got = tally_of(RS[k]);
			check(got.0 == want.0, "D01: ayes are the sum of the current votes and delegations");
			check(got.1 == want.1, "D01: nays are the sum of the current votes and delegations");
			check(got.2 == want.2, "D01: turnout is the sum of the current votes and delegations");
		}
		let r2 = received(2);
		let d2 = delegated(1, 2);
		check(r2.0 == self.base2.0 + d2.0 && r2.1 == self.base2.1 + d2.1, "D10: a delegate holds exactly what is delegated to it");
		let r3 = received(3);
		let d3 = delegated(1, 3);
		let e3 = delegated(2, 3);
		check(
			r3.0 == self.base3.0 + d3.0 + e3.0 && r3.1 == self.base3.1 + d3.1 + e3.1,
			"D10: a delegate holds exactly what is delegated to it (second delegate)",
		);
		let r1 = received(1);
		check(r1 == self.recv1, "D10: delegations received are unaffected by the receiver's own operations");
		check(frozen(1) >= need(1), "D02: everything voted or delegated stays frozen");
		check(matches!(ReferendumInfoOf::<Test>::get(1), Some(ReferendumInfo::Finished { end: 40, approved: true })), "D01: a finished referendum is final");
	}
}
fn vote_on(who: u64, i: u32) -> Option<SVote> {
	match VotingOf::<Test>::get(who) {
		Voting::Direct { votes, .. } => {
			let mut r = None;
			for (j, v) in votes.iter() {
				if *j == i {
					r = Some(svote(v));
				}
			}
			r
		},
		_ => None,
	}
}
fn same(a: &SVote, b: &SVote) -> bool {
	a.kind == b.kind && a.conv == b.conv && a.a == b.a && a.b == b.b
}
/// voting on an ongoing referendum, from any record
fn vote_step(ncv: u32, tstates: u32) {
	let pre = choice("record", 5);
	let w = setup(pre, ncv, tstates);
	let v = SVote::any(ncv, M);
	let before = VotingOf::<Test>::get(1);
	let r = tx(|| Democracy::vote(RuntimeOrigin::signed(1), RS[0], v.real()));
	observe("ok", r.is_ok() as u128);
	if r.is_ok() {
		reach("voted");
		check(v.balance() <= w.total, "D02: a vote cannot exceed the total balance");
		check(w.pre != 4, "D10: an account that delegates cannot vote");
		match vote_on(1, RS[0]) {
			Some(x) => check(same(&x, &v), "D01: the vote is recorded as given"),
			None => check(false, "D01: the vote is recorded"),
		}
		check(frozen(1) == w.f1.max(v.balance()), "D02: voting extends the freeze to the vote's balance");
	} else {
		reach("refused");
		check(v.balance() > w.total || w.pre == 4, "D01: a funded vote on an ongoing referendum is accepted");
		check(VotingOf::<Test>::get(1).encode() == before.encode(), "D01: a refused vote changes nothing");
		check(frozen(1) == w.f1, "D02: a refused vote freezes nothing");
	}
	w.verify();
}
pub fn vote_quick() {
	vote_step(2, 1)
}
pub fn vote_deep() {
	vote_step(3, 3)
}
/// removing a vote on an ongoing referendum, by its owner or by somebody else
pub fn remove_step() {
	let pre = choice("record", 5);
	let w = setup(pre, 2, 2);
	let by = choice("by other", 2);
	let before = VotingOf::<Test>::get(1);
	let had = vote_on(1, RS[0]).is_some();
	let r = if by == 0 {
		tx(|| Democracy::remove_vote(RuntimeOrigin::signed(1), RS[0]))
	} else {
		tx(|| Democracy::remove_other_vote(RuntimeOrigin::signed(9), 1, RS[0]))
	};
	observe("ok", r.is_ok() as u128);
	check(frozen(1) == w.f1, "D02: removing a vote does not unfreeze by itself");
	if r.is_ok() {
		check(by == 0 || (w.pre == 4), "D01: nobody else removes a vote on an ongoing referendum");
		if w.pre == 4 {
			reach("delegating");
			check(VotingOf::<Test>::get(1).encode() == before.encode(), "D10: removing a vote leaves a delegation alone");
		} else {
			reach("removed");
			check(had, "D01: only an existing vote can be removed");
			check(vote_on(1, RS[0]).is_none(), "D01: a removed vote is gone");
		}
	} else {
		reach("refused");
		check(!had || by == 1, "D01: an owner can remove a vote on an ongoing referendum");
		check(VotingOf::<Test>::get(1).encode() == before.encode(), "D01: a refused removal changes nothing");
	}
	w.verify();
}
fn delegate_step(ncv: u32, tstates: u32) {
	let pre = choice("record", 5);
	let w = setup(pre, ncv, tstates);
	let to = [2u64, 3, 1, 7][choice("to", 4) as usize];
	let c = conviction(ncv);
	let amt = any("delegate", 0, M);
	let before = VotingOf::<Test>::get(1);
	let r = tx(|| Democracy::delegate(RuntimeOrigin::signed(1), to, CONV[c], amt));
	observe("ok", r.is_ok() as u128);
	if r.is_ok() {
		reach("delegated");
		check(to != 1, "D10: nobody delegates to themselves");
		check(amt <= w.total, "D02: a delegation cannot exceed the total balance");
		check(w.pre == 0 || w.pre == 4, "D10: an account with votes cannot delegate");
		check(delegated(1, to) == (power(c, amt), amt), "D10: the delegation is recorded as given");
		check(frozen(1) == w.f1.max(amt), "D02: delegating extends the freeze to the delegated balance");
		if to == 7 {
			check(received(7) == (power(c, amt), amt), "D10: a new delegate receives the delegation");
		}
	} else {
		reach("refused");
		check(to == 1 || amt > w.total || !(w.pre == 0 || w.pre == 4), "D10: a funded delegation by an idle account is accepted");
		check(VotingOf::<Test>::get(1).encode() == before.encode(), "D10: a refused delegation changes nothing");
		check(frozen(1) == w.f1, "D02: a refused delegation freezes nothing");
	}
	w.verify();
}
pub fn delegate_quick() {
	delegate_step(2, 5)
}
pub fn delegate_deep() {
	delegate_step(4, 5)
}
pub fn undelegate_step() {
	let pre = choice("record", 5);
	let w = setup(pre, 3, 5);
	let before = VotingOf::<Test>::get(1);
	let r = tx(|| Democracy::undelegate(RuntimeOrigin::signed(1)));
	observe("ok", r.is_ok() as u128);
	check(frozen(1) == w.f1, "D02: undelegating does not unfreeze by itself");
	if r.is_ok() {
		reach("undelegated");
		check(w.pre == 4, "D10: only a delegation can be undone");
		check(delegated(1, 2) == (0, 0) && delegated(1, 3) == (0, 0), "D10: the delegation is gone");
		check(matches!(VotingOf::<Test>::get(1), Voting::Direct { .. }), "D10: the account votes directly again");
	} else {
		reach("refused");
		check(w.pre != 4, "D10: a delegation can always be undone");
		check(VotingOf::<Test>::get(1).encode() == before.encode(), "D10: a refused undelegation changes nothing");
	}
	w.verify();
}
/// `unlock` by anyone sets the freeze to exactly what is still needed
pub fn unlock_step() {
	let pre = choice("record", 5);
	let w = setup(pre, 2, 0);
	let who = [1u64, 9][choice("by", 2) as usize];
	let now = any("now", 50, 300) as u64;
	set_now(now);
	let want = need_at(1, now);
	let r = tx(|| Democracy::unlock(RuntimeOrigin::signed(who), 1));
	check(r.is_ok(), "D02: anyone can trigger an unlock");
	check(frozen(1) == want, "D02: unlocking leaves exactly what votes, delegations and running locks need");
	check(frozen(1) <= w.f1, "D02: unlocking never freezes more");
	reach("unlocked");
	w.verify();
}
/// votes stay sorted and unique, other votes are untouched, and there are at most MaxVotes of them
pub fn vote_list() {
	set_now(50);
	fund(1, 1 << 60);
	let n = choice("votes", 4) as usize;
	let idx: [u32; 3] = [2, 5, 9];
	let mut votes = vec![];
	for k in 0..n {
		let a = any("old vote", 0, 1 << 50);
		votes.push((idx[k], SVote { kind: (k % 3) as u8, conv: 1, a, b: 0 }.real()));
		put_ongoing(idx[k], add3((1, 1, 1), svote(&votes[k].1).contrib((0, 0))));
	}
	let target = [1u32, 2, 3, 5, 7, 9, 11, 20][choice("target", 8) as usize];
	let known = votes.iter().any(|x| x.0 == target);
	if !known && target != 20 {
		put_ongoing(target, (1, 1, 1));
	}
	if target == 11 {
		ReferendumInfoOf::<Test>::insert(target, ReferendumInfo::Finished { end: 10, approved: choice("passed", 2) == 1 });
	}
	VotingOf::<Test>::insert(1, prior_of(0, 0).direct(votes.clone(), dl(0, 0)));
	freeze(1, 1 << 50);
	let nv = SVote { kind: 0, conv: 0, a: any("new vote", 0, 1 << 50), b: 0 };
	let r = tx(|| Democracy::vote(RuntimeOrigin::signed(1), target, nv.real()));
	let can = target < 11 && (known || n < 3);
	check(r.is_ok() == can, "D01: a vote is accepted exactly on an ongoing referendum with room for it");
	let post = match VotingOf::<Test>::get(1) {
		Voting::Direct { votes, .. } => votes.to_vec(),
		_ => vec![],
	};
	for k in 1..post.len() {
		check(post[k - 1].0 < post[k].0, "D01: votes are sorted by referendum without duplicates");
	}
	check(post.len() == n + (can && !known) as usize, "D01: one vote per referendum");
	for (i, v) in votes.iter() {
		if *i != target {
			check(post.iter().any(|x| x.0 == *i && x.1 == *v), "D01: other votes are untouched");
		}
	}
	if can {
		reach("accepted");
		check(tally_of(target) == add3((1, 1, 1), nv.contrib((0, 0))), "D01: replacing a vote replaces its contribution");
	} else {
		reach("refused");
	}
}
/// the lock of a vote or delegation over time: removal keeps what the outcome demands, and no more
pub fn lock_time() {
	let m = 1u128 << 80;
	let total = any("total", 2, m);
	fund(1, total);
	let period = any("lock period", 0, 1 << 20) as u64;
	VoteLockingPeriod::set(period);
	let now = any("now", 1, 1 << 30) as u64;
	set_now(now);
	let (pu, pa) = (any("prior until", 0, 1 << 30) as u64, any("prior amount", 0, m));
	let p = prior_of(pu, pa);
	let mode = choice("mode", 4); // 0 finished, 1 cancelled, 2 delegation, 3 ongoing
	let mut lock_until = 0u64;
	let mut lock_amt = 0u128;
	let end = any("end", 0, 1 << 30) as u64;
	let mut foreign = false;
	if mode == 2 {
		let c = conviction(7);
		let a = any("delegated", 0, m);
		VotingOf::<Test>::insert(2, prior_of(0, 0).direct(vec![], dl(power(c, a), a)));
		VotingOf::<Test>::insert(1, p.delegating(a, 2, c, dl(0, 0)));
		freeze(1, a.max(pa));
		check(tx(|| Democracy::undelegate(RuntimeOrigin::signed(1))).is_ok(), "D02: a delegation can be undone");
		lock_until = now + period * PERIODS[c];
		lock_amt = a;
	} else {
		let v = SVote::any(7, m);
		let other = if choice("other vote", 2) == 1 { vec![(R, v.real()), (R + 1, SVote { kind: 2, conv: 0, a: 3, b: 4 }.real())] } else { vec![(R, v.real())] };
		let more = other.len() == 2;
		VotingOf::<Test>::insert(1, p.direct(other, dl(0, 0)));
		freeze(1, v.balance().max(pa).max(7));
		match mode {
			0 => {
				assume(end <= now);
				let approved = choice("approved", 2) == 1;
				ReferendumInfoOf::<Test>::insert(R, ReferendumInfo::Finished { end, approved });
				if let Some((k, b)) = v.lock_if(approved) {
					let u = end + period * k;
					if now < u {
						lock_until = u;
						lock_amt = b;
					}
				}
			},
			1 => {},
			_ => put_ongoing(R, v.contrib((0, 0))),
		}
		foreign = choice("foreign", 2) == 1;
		let r = if foreign {
			tx(|| Democracy::remove_other_vote(RuntimeOrigin::signed(9), 1, R))
		} else {
			tx(|| Democracy::remove_vote(RuntimeOrigin::signed(1), R))
		};
		let locked = lock_until > now;
		if foreign && (mode == 3 || locked) {
			reach("not for others");
			check(r.is_err(), "D02: others can only remove votes that lock nothing any more");
			return;
		}
		check(r.is_ok(), "D02: a vote can be removed by its owner, or by anyone once it locks nothing");
		if more {
			lock_amt = lock_amt.max(0);
		}
		// the other vote still needs 7
		let later = any("later", 0, 1 << 40) as u64;
		assume(later >= now);
		set_now(later);
		check(tx(|| Democracy::unlock(RuntimeOrigin::signed(1), 1)).is_ok(), "D02: unlock works");
		let f = frozen(1);
		if more {
			check(f >= 7, "D02: the remaining vote keeps its lock");
		}
		if later < lock_until {
			reach("locked by conviction");
			check(f >= lock_amt, "D02: a winning vote stays locked for its conviction's periods after the end");
		}
		if later < pu {
			check(f >= pa, "D02: earlier locks run their course");
		}
		let u = pu.max(lock_until);
		if later >= u {
			reach("free again");
			check(f == if more { 7 } else { 0 }, "D02: nothing stays locked without a reason");
		} else {
			check(f == lock_amt.max(pa).max(if more { 7 } else { 0 }), "D02: the lock is the largest of its reasons");
		}
		return;
	}
	let later = any("later", 0, 1 << 40) as u64;
	assume(later >= now);
	set_now(later);
	check(tx(|| Democracy::unlock(RuntimeOrigin::signed(9), 1)).is_ok(), "D02: unlock works");
	let f = frozen(1);
	if later < lock_until {
		reach("locked by delegation");
		check(f >= lock_amt, "D02: an undone delegation stays locked for its conviction's periods");
	}
	if later < pu {
		check(f >= pa, "D02: earlier locks run their course (delegation)");
	}
	if later >= pu.max(lock_until) {
		reach("free after delegation");
		check(f == 0, "D02: nothing stays locked without a reason (delegation)");
	}
	let _ = (foreign, total);
}
/// changing the delegation: the old one locks like an undone one
pub fn redelegate_time() {
	let m = 1u128 << 80;
	fund(1, m);
	let period = any("lock period", 0, 1 << 20) as u64;
	VoteLockingPeriod::set(period);
	let now = any("now", 1, 1 << 30) as u64;
	set_now(now);
	let (pu, pa) = (any("prior until", 0, 1 << 30) as u64, any("prior amount", 0, m));
	let c = conviction(7);
	let a = any("delegated", 0, m);
	VotingOf::<Test>::insert(2, prior_of(0, 0).direct(vec![], dl(power(c, a), a)));
	VotingOf::<Test>::insert(1, prior_of(pu, pa).delegating(a, 2, c, dl(0, 0)));
	freeze(1, a.max(pa));
	let b = any("new amount", 0, m);
	let to = [2u64, 3][choice("to", 2) as usize];
	check(tx(|| Democracy::delegate(RuntimeOrigin::signed(1), to, CONV[1], b)).is_ok(), "D02: a delegation can be changed");
	let until = now + period * PERIODS[c];
	let later = any("later", 0, 1 << 40) as u64;
	assume(later >= now);
	set_now(later);
	check(tx(|| Democracy::unlock(RuntimeOrigin::signed(9), 1)).is_ok(), "D02: unlock works");
	let f = frozen(1);
	check(f >= b, "D02: the new delegation is locked");
	if later < until {
		reach("old lock");
		check(f >= a, "D02: the replaced delegation stays locked for its conviction's periods");
	}
	if later < pu {
		check(f >= pa, "D02: earlier locks run their course");
	}
	if later >= pu.max(until) {
		reach("only new");
		check(f == b, "D02: only the new delegation is locked afterwards");
	}
}
/// frozen balance cannot be transferred away
pub fn frozen_funds() {
	use frame_support::traits::{fungible::Mutate, tokens::Preservation};
	let total = any("total", 2, M);
	fund(1, total);
	fund(5, 10);
	set_now(1);
	put_ongoing(R, (0, 0, 0));
	let v = SVote::any(1, M);
	assume(v.balance() <= total);
	check(tx(|| Democracy::vote(RuntimeOrigin::signed(1), R, v.real())).is_ok(), "D02: vote accepted");
	let x = any("transfer", 1, M);
	let r = <Balances as Mutate<u64>>::transfer(&1, &5, x, Preservation::Expendable);
	if r.is_ok() {
		reach("moved");
		check(<Balances as Inspect<u64>>::total_balance(&1) >= v.balance(), "D02: voted balance cannot be moved away");
	} else {
		reach("kept");
	}
}

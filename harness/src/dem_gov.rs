//! Democracy proposals, referenda life cycle and permissions: one operation from an arbitrary consistent state.
use crate::{
	dem_vote::status,
	mock::*,
	util::*,
};
use alloc::{vec, vec::Vec};
use frame_support::traits::{fungible::{Inspect, InspectHold, MutateHold}, Hooks};
use pallet_democracy::*;
use parity_scale_codec::Encode;
use sp_core::H256;
use symrt::*;

const M: u128 = 1 << 90;
fn held(who: u64) -> u128 {
	Balances::balance_on_hold(&HoldReason::Proposal.into(), &who)
}
fn hash_of(id: u8) -> H256 {
	bounded(id).hash()
}
/// what the deposit records say `who` has on hold
fn recorded(who: u64) -> u128 {
	let mut t = 0;
	for p in 0..6u32 {
		if let Some((l, d)) = DepositOf::<Test>::get(p) {
			for x in l.iter() {
				if *x == who {
					t += d;
				}
			}
		}
	}
	t
}
const WHO: [u64; 3] = [1, 2, 3];
/// two public proposals (indices 2 and 4), each with one to three deposits by accounts 1..3
fn proposals(n: u32, deps: u32) -> [u128; 2] {
	let mut ds = [0u128; 2];
	let mut pp = vec![];
	for k in 0..n {
		let d = any("deposit", 1, M);
		ds[k as usize] = d;
		let who: Vec<u64> = match choice("depositors", deps) {
			0 => vec![1],
			1 => vec![2, 1],
			2 => vec![1, 1, 3],
			_ => vec![3, 2],
		};
		let first = who[0];
		for x in who.iter() {
			let ok = Balances::hold(&HoldReason::Proposal.into(), x, d).is_ok();
			check(ok, "the deposit fits");
		}
		DepositOf::<Test>::insert(2 + 2 * k, (bv::<u64, frame_support::traits::ConstU32<3>>(who), d));
		pp.push((2 + 2 * k, bounded(20 + k as u8), first));
	}
	PublicProps::<Test>::put(bv::<_, frame_support::traits::ConstU32<3>>(pp));
	PublicPropCount::<Test>::put(5);
	ds
}
struct Bal {
	held: [u128; 3],
	total: [u128; 3],
}
fn money() {
	for w in WHO {
		fund(w, any("funds", 1 << 100, 1 << 101));
	}
	set_now(50);
}
fn pre() -> Bal {
	let mut p = Bal { held: [0; 3], total: [0; 3] };
	for k in 0..3 {
		p.held[k] = held(WHO[k]);
		p.total[k] = <Balances as Inspect<u64>>::total_balance(&WHO[k]);
		check(p.held[k] == recorded(WHO[k]), "the pre-state is consistent");
	}
	p
}
fn deposits_match() {
	for w in WHO {
		check(held(w) == recorded(w), "D05: what is on hold is exactly the account's recorded deposits");
	}
}
fn props() -> Vec<(u32, u8)> {
	let mut v = vec![];
	for (i, p, _) in PublicProps::<Test>::get().iter() {
		let mut id = 0;
		for k in 0..40u8 {
			if p.hash() == hash_of(k) {
				id = k;
			}
		}
		v.push((*i, id));
	}
	v
}
/// proposing
pub fn propose() {
	money();
	MinDeposit::set(any("minimum deposit", 0, M));
	let n = choice("proposals", 4);
	let _ = proposals(n.min(2), 3);
	if n == 3 {
		// a full queue
		let mut v = PublicProps::<Test>::get().to_vec();
		v.push((1, bounded(33), 2));
		PublicProps::<Test>::put(bv::<_, frame_support::traits::ConstU32<3>>(v));
		DepositOf::<Test>::insert(1, (bv::<u64, frame_support::traits::ConstU32<3>>(vec![]), 0));
	}
	let black = choice("blacklisted", 2) == 1;
	let until = any("until", 0, 100) as u64;
	if black {
		Blacklist::<Test>::insert(hash_of(30), (until, bv::<u64, frame_support::traits::ConstU32<3>>(vec![111])));
	}
	let p = pre();
	let before = props();
	let v = any("value", 0, 1 << 102);
	let r = tx(|| Democracy::propose(RuntimeOrigin::signed(1), bounded(30), v));
	observe("ok", r.is_ok() as u128);
	deposits_match();
	if r.is_ok() {
		reach("proposed");
		check(v >= MinDeposit::value(), "D05: a proposal needs the minimum deposit");
		check(!black || 50 >= until, "D07: a blacklisted proposal cannot be proposed before its cool-off ends");
		check(n < 3, "D05: the queue of proposals is bounded");
		check(held(1) == p.held[0] + v, "D05: the proposer's deposit is put on hold");
		let mut want = before;
		want.push((5, 30));
		check(props() == want, "D05: the proposal is queued under the next index");
		check(PublicPropCount::<Test>::get() == 6, "D05: proposal indices are never reused");
		check(DepositOf::<Test>::get(5).map(|x| (x.0.to_vec(), x.1)) == Some((vec![1], v)), "D05: the proposer is the first depositor");
	} else {
		reach("refused");
		check(held(1) == p.held[0], "D05: a refused proposal holds nothing");
		check(props() == before, "D05: a refused proposal is not queued");
		check(DepositOf::<Test>::get(5).is_none(), "D05: a refused proposal has no deposit record");
		let min = MinDeposit::value();
		let can = v >= min && n < 3 && !(black && 50 < until) && v <= p.total[0] - p.held[0] - 1;
		check(!can, "D05: a funded proposal with room for it is accepted");
	}
	check(<Balances as Inspect<u64>>::total_balance(&1) == p.total[0], "D05: proposing moves no money");
}
/// seconding
pub fn second() {
	money();
	let d = proposals(2, 4);
	let p = pre();
	let who = choice("who", 2) as usize; // 1 or 2
	let i = [2u32, 4, 3][choice("proposal", 3) as usize];
	let before = DepositOf::<Test>::get(i);
	let other = DepositOf::<Test>::get(6 - i);
	let r = tx(|| Democracy::second(RuntimeOrigin::signed(WHO[who]), i));
	observe("ok", r.is_ok() as u128);
	deposits_match();
	if r.is_ok() {
		reach("seconded");
		let (l, dd) = before.unwrap();
		let mut l = l.to_vec();
		l.push(WHO[who]);
		check(dd == d[if i == 2 { 0 } else { 1 }], "the deposit");
		check(held(WHO[who]) == p.held[who] + dd, "D05: seconding holds the proposal's deposit");
		check(DepositOf::<Test>::get(i).map(|x| (x.0.to_vec(), x.1)) == Some((l, dd)), "D05: a second is recorded with the same deposit");
	} else {
		reach("refused");
		check(before == DepositOf::<Test>::get(i), "D05: a refused second changes nothing");
		let full = before.as_ref().map_or(false, |x| x.0.len() >= 3);
		check(before.is_none() || full, "D05: an existing proposal with room for it can be seconded");
	}
	if i != 3 {
		check(DepositOf::<Test>::get(6 - i) == other, "D05: other proposals keep their deposits");
	}
	for k in 0..3 {
		if k != who {
			check(held(WHO[k]) == p.held[k], "D05: others' deposits are untouched");
		}
	}
}
/// removing a proposal by cancellation or blacklisting slashes exactly its deposits
pub fn slash_proposal() {
	money();
	let n = choice("proposals", 2) + 1;
	let d = proposals(n, 4);
	let p = pre();
	let k = choice("proposal", n) as usize;
	let i = 2 + 2 * k as u32;
	let mut want = [0u128; 3];
	let mut slash = 0;
	for x in DepositOf::<Test>::get(i).unwrap().0.iter() {
		want[*x as usize - 1] += d[k];
		slash += d[k];
	}
	MetadataOf::<Test>::insert(MetadataOwner::Proposal(i), H256::repeat_byte(1));
	MetadataOf::<Test>::insert(MetadataOwner::Proposal(9), H256::repeat_byte(2));
	let before = props();
	let r = if choice("blacklist", 2) == 0 {
		tx(|| Democracy::cancel_proposal(RuntimeOrigin::signed(108), i))
	} else {
		tx(|| Democracy::blacklist(RuntimeOrigin::signed(107), hash_of(20 + k as u8), None))
	};
	check(r.is_ok(), "D06: the privileged origin can remove a proposal");
	deposits_match();
	for j in 0..3 {
		check(held(WHO[j]) == p.held[j] - want[j], "D05: exactly the proposal's deposits are taken from hold");
		check(<Balances as Inspect<u64>>::total_balance(&WHO[j]) == p.total[j] - want[j], "D05: the deposits of a removed proposal are slashed");
	}
	check(slashed() == slash, "D05: slashed deposits all reach the slash handler");
	check(DepositOf::<Test>::get(i).is_none(), "D05: a removed proposal keeps no deposit record");
	let want: Vec<(u32, u8)> = before.into_iter().filter(|x| x.0 != i).collect();
	check(props() == want, "D05+D07: exactly the removed proposal leaves the queue");
	check(MetadataOf::<Test>::get(MetadataOwner::Proposal(i)).is_none(), "D06: metadata of a removed proposal is cleared");
	check(MetadataOf::<Test>::get(MetadataOwner::Proposal(9)).is_some(), "D06: other metadata stays");
	reach("slashed");
}
/// cancelling something that is not queued costs nobody anything
pub fn slash_nothing() {
	money();
	let _ = proposals(2, 4);
	let p = pre();
	let before = props();
	let r = if choice("blacklist", 2) == 0 {
		tx(|| Democracy::cancel_proposal(RuntimeOrigin::signed(108), [0, 1, 3, 5][choice("index", 4) as usize]))
	} else {
		tx(|| Democracy::blacklist(RuntimeOrigin::signed(107), hash_of(30), None))
	};
	let _ = r;
	for j in 0..3 {
		check(held(WHO[j]) == p.held[j], "D05: no deposit is touched");
		check(<Balances as Inspect<u64>>::total_balance(&WHO[j]) == p.total[j], "D05: nobody is slashed");
	}
	check(props() == before, "D05: the queue is untouched");
	reach("nothing");
}

/// Which referendum does the launch create, from which queue; deposits of the launched proposal come back
fn launch_with(nprop: u32, deps: u32) {
	money();
	let n = choice("proposals", nprop);
	let d = proposals(n, deps);
	let p = pre();
	let ext = choice("external", 4); // none or a threshold
	let thr = [VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority];
	if ext > 0 {
		NextExternal::<Test>::put((bounded(31), thr[ext as usize - 1]));
	}
	MetadataOf::<Test>::insert(MetadataOwner::External, H256::repeat_byte(1));
	MetadataOf::<Test>::insert(MetadataOwner::Proposal(2), H256::repeat_byte(2));
	MetadataOf::<Test>::insert(MetadataOwner::Proposal(4), H256::repeat_byte(4));
	let last_ext = choice("last was external", 2) == 1;
	LastTabledWasExternal::<Test>::put(last_ext);
	let period = any("launch period", 1, 60) as u64;
	LaunchPeriod::set(period);
	VotingPeriod::set(any("voting period", 1, 1 << 30) as u64);
	EnactmentPeriod::set(any("enactment period", 0, 1 << 30) as u64);
	let (vp, ep) = (VotingPeriod::value(), EnactmentPeriod::value());
	ReferendumCount::<Test>::put(3);
	LowestUnbaked::<Test>::put(3);
	let now = 60u64;
	set_now(now);
	let before = props();
	let due = choice("due", 2) == 1;
	if due {
		// period divides now
		let k = [1u64, 2, 3, 6, 20, 60][choice("period", 6) as usize];
		assume(period == k);
	} else {
		assume(period != 1 && period != 2 && period != 3 && period != 4 && period != 5 && period != 6 && period != 10 && period != 12 && period != 15 && period != 20 && period != 30 && period != 60);
	}
	<Democracy as Hooks<u64>>::on_initialize(now);
	deposits_match();
	let launched = if ReferendumCount::<Test>::get() == 4 {
		match ReferendumInfoOf::<Test>::get(3) {
			Some(ReferendumInfo::Ongoing(s)) => Some(s),
			_ => None,
		}
	} else {
		check(ReferendumCount::<Test>::get() == 3, "D09: at most one referendum is launched per period");
		None
	};
	let back = |k: usize| d[k] * DepositOf::<Test>::get(2 + 2 * k as u32).map_or(0, |x| x.0.len()) as u128;
	let _ = back;
	if !due || (n == 0 && ext == 0) {
		reach("nothing launched");
		check(launched.is_none(), "D09: referenda are launched only at launch periods and from the queues");
		check(props() == before, "D09: nothing leaves the queue");
		check(NextExternal::<Test>::exists() == (ext > 0), "D09: the external proposal stays");
		return;
	}
	check(launched.is_some(), "D09: a waiting proposal is launched at the launch period");
	let s = launched.unwrap();
	check(s.end == now + vp && s.delay == ep, "D08: a launched referendum runs for the voting period with the enactment delay");
	check(s.tally.ayes == 0 && s.tally.nays == 0 && s.tally.turnout == 0, "D08: a referendum starts without votes");
	let use_ext = ext > 0 && (n == 0 || !last_ext);
	check(LastTabledWasExternal::<Test>::get() == use_ext, "D09: what was tabled last is remembered");
	if use_ext {
		reach("external");
		check(s.proposal.hash() == hash_of(31), "D09: external proposals have their turn");
		check(s.threshold == thr[ext as usize - 1], "D09: an external proposal keeps its threshold");
		check(!NextExternal::<Test>::exists(), "D09: the launched external proposal leaves the queue");
		check(props() == before, "D09: public proposals stay");
		check(MetadataOf::<Test>::get(MetadataOwner::Referendum(3)) == Some(H256::repeat_byte(1)), "D09: metadata moves to the referendum");
		check(MetadataOf::<Test>::get(MetadataOwner::External).is_none(), "D09: metadata moves to the referendum (2)");
		for j in 0..3 {
			check(held(WHO[j]) == p.held[j], "D05: no deposit is touched by an external launch");
		}
	} else {
		reach("public");
		check(s.threshold == VoteThreshold::SuperMajorityApprove, "D09: public proposals need a super majority");
		check(NextExternal::<Test>::exists() == (ext > 0), "D09: the external proposal stays queued");
		let mut which = 9;
		for k in 0..n as usize {
			if s.proposal.hash() == hash_of(20 + k as u8) {
				which = k;
			}
		}
		check(which < n as usize, "D09: the launched proposal was queued");
		let i = 2 + 2 * which as u32;
		check(DepositOf::<Test>::get(i).is_none(), "D05: a launched proposal keeps no deposit record");
		let want: Vec<(u32, u8)> = before.into_iter().filter(|x| x.0 != i).collect();
		check(props() == want, "D09: exactly the launched proposal leaves the queue");
		check(MetadataOf::<Test>::get(MetadataOwner::Referendum(3)) == Some(H256::repeat_byte(i as u8)), "D09: metadata of the proposal moves to the referendum");
		check(MetadataOf::<Test>::get(MetadataOwner::External) == Some(H256::repeat_byte(1)), "D09: other metadata stays");
		// refunds: the backing of the launched one
		let mut freed = 0;
		for j in 0..3 {
			check(held(WHO[j]) <= p.held[j], "D05: launching only releases deposits");
			freed += p.held[j] - held(WHO[j]);
		}
		for k in 0..n as usize {
			if k != which {
				check(back(k) <= freed, "D09: the proposal with the highest backing is launched");
			}
		}
		check(slashed() == 0, "D05: nobody is slashed by a launch");
	}
	for j in 0..3 {
		check(<Balances as Inspect<u64>>::total_balance(&WHO[j]) == p.total[j], "D05: a launch moves no money");
	}
}
pub fn launch() {
	launch_with(3, 3)
}

pub fn launch_deep() {
	launch_with(3, 4)
}

const ROOT: u64 = 900;
const NONE: u64 = 901;
fn origin(o: u64) -> RuntimeOrigin {
	match o {
		ROOT => RuntimeOrigin::root(),
		NONE => RuntimeOrigin::none(),
		x => RuntimeOrigin::signed(x),
	}
}
const ORIGINS: [u64; 12] = [ROOT, NONE, 1, 101, 102, 103, 104, 105, 106, 107, 108, 111];
const THR: [VoteThreshold; 3] =
	[VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority];
fn ongoing(i: u32, id: u8) {
	let mut s = status(1000, (5, 6, 7), VoteThreshold::SimpleMajority, 1);
	s.proposal = bounded(id);
	ReferendumInfoOf::<Test>::insert(i, ReferendumInfo::Ongoing(s));
}
fn is_ongoing(i: u32) -> bool {
	matches!(ReferendumInfoOf::<Test>::get(i), Some(ReferendumInfo::Ongoing(_)))
}
fn meta(o: MetadataOwner) {
	MetadataOf::<Test>::insert(o, H256::repeat_byte(9));
}
fn has_meta(o: MetadataOwner) -> bool {
	MetadataOf::<Test>::contains_key(o)
}
/// every privileged call against every origin, in a state where the call is otherwise possible
pub fn guards() {
	set_now(50);
	fund(1, 1000);
	let c = choice("call", 14);
	let o = ORIGINS[choice("origin", 12) as usize];
	ongoing(3, 30);
	ReferendumCount::<Test>::put(4);
	let ext = bounded(31);
	PublicProps::<Test>::put(bv::<_, frame_support::traits::ConstU32<3>>(vec![(2u32, bounded(20), 1u64)]));
	DepositOf::<Test>::insert(2, (bv::<u64, frame_support::traits::ConstU32<3>>(vec![]), 0));
	let h = hash_of(31);
	Pre::note(H256::repeat_byte(9), b"x");
	let md = Some(H256::repeat_byte(9));
	InstantAllowed::set(true);
	FastTrackPeriod::set(4);
	let next = |t: usize| NextExternal::<Test>::put((ext.clone(), THR[t]));
	let (r, allowed): (bool, &[u64]) = match c {
		0 => (tx(|| Democracy::emergency_cancel(origin(o), 3)).is_ok(), &[106]),
		1 => (tx(|| Democracy::external_propose(origin(o), bounded(31))).is_ok(), &[101]),
		2 => (tx(|| Democracy::external_propose_majority(origin(o), bounded(31))).is_ok(), &[102]),
		3 => (tx(|| Democracy::external_propose_default(origin(o), bounded(31))).is_ok(), &[103]),
		4 => {
			next(2);
			(tx(|| Democracy::fast_track(origin(o), h, 4, 1)).is_ok(), &[104, 105])
		},
		5 => {
			next(2);
			(tx(|| Democracy::fast_track(origin(o), h, 3, 1)).is_ok(), &[105])
		},
		6 => {
			next(0);
			(tx(|| Democracy::veto_external(origin(o), h)).is_ok(), &[111])
		},
		7 => (tx(|| Democracy::cancel_referendum(origin(o), 3)).is_ok(), &[ROOT]),
		8 => (tx(|| Democracy::clear_public_proposals(origin(o))).is_ok(), &[ROOT]),
		9 => (tx(|| Democracy::blacklist(origin(o), h, Some(3))).is_ok(), &[107]),
		10 => (tx(|| Democracy::cancel_proposal(origin(o), 2)).is_ok(), &[108]),
		11 => {
			let t = choice("threshold", 3) as usize;
			next(t);
			let a: [&[u64]; 3] = [&[101], &[103], &[102]];
			(tx(|| Democracy::set_metadata(origin(o), MetadataOwner::External, md)).is_ok(), a[t])
		},
		12 => (tx(|| Democracy::set_metadata(origin(o), MetadataOwner::Proposal(2), md)).is_ok(), &[1]),
		_ => (tx(|| Democracy::set_metadata(origin(o), MetadataOwner::Referendum(3), md)).is_ok(), &[ROOT]),
	};
	let want = allowed.contains(&o);
	if want {
		reach("permitted");
	} else {
		reach("forbidden");
		check(is_ongoing(3), "D06: a forbidden call leaves referenda alone");
		check(PublicProps::<Test>::get().len() == 1, "D06: a forbidden call leaves proposals alone");
		check(!Blacklist::<Test>::contains_key(h), "D06: a forbidden call blacklists nothing");
	}
	check(r == want, "D06: a privileged call succeeds for exactly its origins");
}
/// who may set or clear which metadata
pub fn metadata() {
	set_now(50);
	let o = [ROOT, 1, 2, 101, 102, 103][choice("origin", 6) as usize];
	let which = choice("owner", 6);
	let owner = match which {
		0 => MetadataOwner::External,
		1 => MetadataOwner::Proposal(2),
		2 => MetadataOwner::Proposal(3),
		3 => MetadataOwner::Referendum(3),
		4 => MetadataOwner::Referendum(1),
		_ => MetadataOwner::Referendum(7),
	};
	ongoing(3, 30);
	ReferendumInfoOf::<Test>::insert(1, ReferendumInfo::Finished { end: 10, approved: true });
	PublicProps::<Test>::put(bv::<_, frame_support::traits::ConstU32<3>>(vec![(2u32, bounded(20), 1u64)]));
	let ext = choice("external", 4) as usize;
	if ext > 0 {
		NextExternal::<Test>::put((bounded(31), THR[ext - 1]));
	}
	let set = choice("set", 3); // clear, set, set without preimage
	let h = H256::repeat_byte(9);
	if set == 1 {
		Pre::note(h, b"x");
	}
	let had = choice("had", 2) == 1;
	if had {
		MetadataOf::<Test>::insert(&owner, H256::repeat_byte(8));
	}
	let r = tx(|| Democracy::set_metadata(origin(o), owner.clone(), if set == 0 { None } else { Some(h) }));
	let may = match which {
		0 => ext > 0 && o == [101u64, 103, 102][ext - 1],
		1 => o == 1,
		2 => false,
		3 => o == ROOT,
		_ => o == ROOT || set == 0,
	};
	let want = may && set != 2;
	check(r.is_ok() == want, "D06: metadata is set and cleared by exactly the owners, for noted preimages");
	let now = MetadataOf::<Test>::get(&owner);
	if want {
		reach("done");
		check(now == if set == 1 { Some(h) } else { None }, "D06: metadata is as requested");
	} else {
		reach("refused");
		check(now == if had { Some(H256::repeat_byte(8)) } else { None }, "D06: refused metadata changes nothing");
	}
}
/// fast tracking
pub fn fast_track() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let vp = any("voting period", 0, 1 << 40) as u64;
	let ft = any("fast track period", 0, 1 << 40) as u64;
	let delay = any("delay", 0, 1 << 40) as u64;
	FastTrackPeriod::set(ft);
	let instant = choice("instant allowed", 2) == 1;
	InstantAllowed::set(instant);
	let o = [104u64, 105, 1, 101, ROOT][choice("origin", 5) as usize];
	let ext = choice("external", 4) as usize;
	if ext > 0 {
		NextExternal::<Test>::put((bounded(31), THR[ext - 1]));
		meta(MetadataOwner::External);
	}
	let id = [31u8, 30][choice("hash", 2) as usize];
	ReferendumCount::<Test>::put(6);
	LowestUnbaked::<Test>::put(4);
	ongoing(4, 29);
	let r = tx(|| Democracy::fast_track(origin(o), hash_of(id), vp, delay));
	let may = (o == 104 && vp >= ft) || (o == 105 && instant);
	let want = may && vp > 0 && ext > 1 && id == 31;
	check(r.is_ok() == want, "D06: fast tracking needs the right origin, period, threshold and hash");
	if want {
		reach("tracked");
		match ReferendumInfoOf::<Test>::get(6) {
			Some(ReferendumInfo::Ongoing(s)) => {
				check(s.end == now + vp && s.delay == delay, "D06+D08: a fast-tracked referendum runs for the given period with the given delay");
				check(s.threshold == THR[ext - 1], "D09: a fast-tracked referendum keeps its threshold");
				check(s.proposal.hash() == hash_of(31), "D09: the external proposal is put to the vote");
			},
			_ => check(false, "D09: a fast-tracked referendum starts"),
		}
		check(ReferendumCount::<Test>::get() == 7, "D08: referendum indices are consecutive");
		check(!NextExternal::<Test>::exists(), "D09: a fast-tracked proposal leaves the queue");
		check(has_meta(MetadataOwner::Referendum(6)) && !has_meta(MetadataOwner::External), "D09: metadata moves along");
		decided(&[4, 6]);
	} else {
		reach("refused");
		check(NextExternal::<Test>::exists() == (ext > 0), "D06: a refused fast track changes nothing");
		check(ReferendumCount::<Test>::get() == 6 && ReferendumInfoOf::<Test>::get(6).is_none(), "D06: a refused fast track starts nothing");
	}
}
/// vetoing
pub fn veto() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let cool = any("cooloff", 0, 1 << 40) as u64;
	Cooloff::set(cool);
	let ext = choice("external", 4) as usize;
	if ext > 0 {
		NextExternal::<Test>::put((bounded(31), THR[ext - 1]));
		meta(MetadataOwner::External);
	}
	let who = [111u64, 112, 1][choice("who", 3) as usize];
	let id = [31u8, 30][choice("hash", 2) as usize];
	let bl = choice("blacklist", 5);
	let old: Vec<u64> = match bl {
		1 => vec![111],
		2 => vec![112],
		3 => vec![111, 112],
		_ => vec![],
	};
	let until = if bl == 4 { u64::MAX } else { any("until", 0, 1 << 41) as u64 };
	if bl > 0 {
		Blacklist::<Test>::insert(hash_of(31), (until, bv::<u64, frame_support::traits::ConstU32<3>>(old.clone())));
	}
	let r = tx(|| Democracy::veto_external(RuntimeOrigin::signed(who), hash_of(id)));
	let want = who != 1 && ext > 0 && id == 31 && !old.contains(&who);
	check(r.is_ok() == want, "D07: each vetoer can veto the waiting external proposal once");
	let b = Blacklist::<Test>::get(hash_of(31));
	if want {
		reach("vetoed");
		let (u, l) = b.unwrap();
		check(u >= now + cool, "D07: a vetoed proposal is blocked for the cool-off period");
		check(u <= (now + cool).max(if bl > 0 { until } else { 0 }), "D07: a veto blocks for the cool-off period only");
		check(bl != 4 || u == u64::MAX, "D07: a permanently blacklisted proposal stays blacklisted");
		let mut l2 = old;
		l2.push(who);
		l2.sort();
		check(l.to_vec() == l2, "D07: the veto is recorded, sorted");
		check(!NextExternal::<Test>::exists(), "D07: a vetoed proposal is withdrawn");
		check(!has_meta(MetadataOwner::External), "D07: its metadata is cleared");
		// and it cannot come back through the plain external route until then
		let later = any("later", 0, 1 << 42) as u64;
		set_now(later);
		let r = tx(|| Democracy::external_propose(RuntimeOrigin::signed(101), bounded(31)));
		check(r.is_ok() == (later >= u), "D07: a vetoed proposal can be proposed again exactly after its cool-off");
		check(tx(|| Democracy::veto_external(RuntimeOrigin::signed(who), hash_of(31))).is_err(), "D07: nobody vetoes a proposal twice");
	} else {
		reach("refused");
		check(NextExternal::<Test>::exists() == (ext > 0), "D07: a refused veto changes nothing");
		check(b.map(|x| (x.0, x.1.to_vec())) == if bl > 0 { Some((until, old)) } else { None }, "D07: a refused veto blacklists nothing");
	}
}
/// external proposals of the three kinds
pub fn external() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	let kind = choice("kind", 3) as usize;
	let ext = choice("external", 2) == 1;
	if ext {
		NextExternal::<Test>::put((bounded(30), THR[0]));
	}
	let bl = choice("blacklisted", 3);
	let until = if bl == 2 { u64::MAX } else { any("until", 0, 1 << 41) as u64 };
	if bl > 0 {
		Blacklist::<Test>::insert(hash_of(31), (until, bv::<u64, frame_support::traits::ConstU32<3>>(vec![])));
	}
	let r = match kind {
		0 => tx(|| Democracy::external_propose(origin(101), bounded(31))),
		1 => tx(|| Democracy::external_propose_default(origin(103), bounded(31))),
		_ => tx(|| Democracy::external_propose_majority(origin(102), bounded(31))),
	};
	let want = kind > 0 || (!ext && (bl == 0 || now >= until));
	check(r.is_ok() == want, "D07: an external proposal is refused exactly while blacklisted or while another one waits");
	match NextExternal::<Test>::get() {
		Some((p, t)) =>
			if want {
				reach("queued");
				check(p.hash() == hash_of(31) && t == THR[kind], "D07+D09: an external proposal is queued with its threshold");
			} else {
				check(ext && p.hash() == hash_of(30), "D07+D09: a refused external proposal leaves the waiting one");
			},
		None => check(!want && !ext, "D07+D09: an accepted external proposal is queued"),
	}
	if !want {
		reach("refused");
	}
}
/// cancelling referenda
/// these referenda are running, and are decided when their time comes
fn decided(refs: &[u32]) {
	LaunchPeriod::set(u64::MAX);
	let mut ends = vec![];
	for i in refs {
		match ReferendumInfoOf::<Test>::get(i) {
			Some(ReferendumInfo::Ongoing(s)) => ends.push(s.end),
			_ => check(false, "D08: other referenda keep running"),
		}
	}
	for (i, end) in refs.iter().zip(ends) {
		if is_ongoing(*i) {
			set_now(end);
			<Democracy as Hooks<u64>>::on_initialize(end);
		}
		check(matches!(ReferendumInfoOf::<Test>::get(i), Some(ReferendumInfo::Finished { .. })), "D08: a running referendum is decided at its end");
	}
}
pub fn cancel() {
	set_now(50);
	let st = choice("state", 3); // ongoing, finished, none
	match st {
		0 => ongoing(3, 30),
		1 => ReferendumInfoOf::<Test>::insert(3, ReferendumInfo::Finished { end: 10, approved: true }),
		_ => {},
	}
	ongoing(4, 30);
	ongoing(2, 29);
	LowestUnbaked::<Test>::put(2);
	ReferendumCount::<Test>::put(5);
	meta(MetadataOwner::Referendum(3));
	meta(MetadataOwner::Referendum(4));
	let before = choice("cancelled before", 2) == 1;
	if before {
		Cancellations::<Test>::insert(hash_of(30), true);
	}
	let op = choice("op", 4);
	let ok = match op {
		0 => {
			let r = tx(|| Democracy::emergency_cancel(origin(106), 3)).is_ok();
			check(r == (st == 0 && !before), "D06: emergency cancellation works once per proposal, on ongoing referenda");
			if r {
				check(Cancellations::<Test>::get(hash_of(30)), "D06: an emergency cancellation is remembered");
				check(tx(|| Democracy::emergency_cancel(origin(106), 4)).is_err(), "D06: the same proposal is never cancelled twice");
			}
			r
		},
		1 => {
			let r = tx(|| Democracy::cancel_referendum(origin(ROOT), 3)).is_ok();
			check(r, "D06: root cancels any referendum");
			true
		},
		2 => {
			check(tx(|| Democracy::blacklist(origin(107), hash_of(30), Some(3))).is_ok(), "D07: blacklisting works");
			check(Blacklist::<Test>::get(hash_of(30)).map(|x| x.0) == Some(u64::MAX), "D07: blacklisting is permanent");
			st == 0
		},
		_ => {
			check(tx(|| Democracy::blacklist(origin(107), hash_of(29), Some(3))).is_ok(), "D07: blacklisting works");
			false
		},
	};
	if ok {
		reach("cancelled");
		check(ReferendumInfoOf::<Test>::get(3).is_none(), "D06+D07+D08: a cancelled referendum is gone");
		check(!has_meta(MetadataOwner::Referendum(3)), "D08: its metadata is cleared");
	} else {
		reach("kept");
		check(is_ongoing(3) == (st == 0), "D06+D08: nothing else cancels a referendum");
		check(ReferendumInfoOf::<Test>::get(3).is_some() == (st < 2), "D06+D08: a finished referendum is not cancelled by its hash");
		check(has_meta(MetadataOwner::Referendum(3)), "D08: metadata stays");
	}
	check(is_ongoing(4) && has_meta(MetadataOwner::Referendum(4)), "D08: other referenda are untouched");
	check(is_ongoing(2), "D08: other referenda are untouched");
	decided(&[2, 4]);
}
/// permanent blacklisting removes the queued proposals and keeps the proposal out
pub fn blacklist() {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	fund(1, 1000);
	fund(2, 1000);
	let same = choice("same", 2) == 1;
	let id = if same { 31 } else { 30 };
	let thr = THR[choice("threshold", 3) as usize];
	NextExternal::<Test>::put((bounded(id), thr));
	meta(MetadataOwner::External);
	let bl = choice("blacklist", 3);
	if bl > 0 {
		let u = if bl == 1 { any("until", 0, 1 << 41) as u64 } else { u64::MAX };
		Blacklist::<Test>::insert(hash_of(31), (u, bv::<u64, frame_support::traits::ConstU32<3>>(vec![111])));
	}
	check(tx(|| Democracy::blacklist(origin(107), hash_of(31), None)).is_ok(), "D07: blacklisting works");
	check(NextExternal::<Test>::exists() == !same, "D07: exactly the blacklisted external proposal is withdrawn");
	check(has_meta(MetadataOwner::External) == !same, "D07: exactly its metadata is cleared");
	NextExternal::<Test>::kill();
	let later = any("later", 0, u64::MAX as u128 - 1) as u64;
	set_now(later);
	check(tx(|| Democracy::propose(origin(1), bounded(31), 100)).is_err(), "D07: a blacklisted proposal can never be proposed");
	check(tx(|| Democracy::external_propose(origin(101), bounded(31))).is_err(), "D07: a blacklisted proposal can never be proposed externally");
	check(tx(|| Democracy::propose(origin(2), bounded(32), 100)).is_ok(), "D07: other proposals can");
	reach("blacklisted");
}

/// one block: exactly the referenda that end now are decided, and passed ones are scheduled
fn bake_with(n: u32, states: u32) {
	let now = any("now", 1, 1 << 40) as u64;
	set_now(now);
	Electorate::set(16); // square root 4
	LaunchPeriod::set(u64::MAX);
	let low = 2u32;
	LowestUnbaked::<Test>::put(low);
	ReferendumCount::<Test>::put(low + n);
	let mut recs = vec![];
	// an older one that is already finished
	ReferendumInfoOf::<Test>::insert(1, ReferendumInfo::Finished { end: 1, approved: false });
	for k in 0..n {
		let st = choice("state", states); // ongoing, finished, cancelled
		let i = low + k;
		match st {
			0 => {
				let t = if k == 0 { choice("threshold", 3) as usize } else { 2 };
				let turnout = [0u128, 25, 4][if k == 0 && t < 2 { choice("turnout", 3) as usize } else { 1 }];
				let end = any("end", 0, 1 << 41) as u64;
				assume(end >= now);
				let delay = any("delay", 0, 1 << 41) as u64;
				let m = if t < 2 { 1 << 20 } else { 1 << 100 };
				let (a, b) = (any("ayes", 0, m), any("nays", 0, m));
				let mut s = status(end, (a, b, turnout), THR[t], delay);
				s.proposal = bounded(10 + k as u8);
				ReferendumInfoOf::<Test>::insert(i, ReferendumInfo::Ongoing(s));
				let sq = [0u128, 5, 2][if turnout == 0 { 0 } else if turnout == 25 { 1 } else { 2 }];
				let pass = match t {
					0 => (turnout > 0) & (b * 4 < a * sq),
					1 => (turnout > 0) & (b * sq < a * 4),
					_ => a > b,
				};
				recs.push((i, st, end, delay, pass));
			},
			1 => {
				ReferendumInfoOf::<Test>::insert(i, ReferendumInfo::Finished { end: 1, approved: true });
				recs.push((i, st, 0, 0, true));
			},
			_ => recs.push((i, st, 0, 0, false)),
		}
	}
	<Democracy as Hooks<u64>>::on_initialize(now);
	let log = sched_log();
	let mut nlog = 0;
	for (i, st, end, delay, pass) in recs.iter() {
		match ReferendumInfoOf::<Test>::get(i) {
			Some(ReferendumInfo::Ongoing(s)) => {
				reach("still running");
				check(*st == 0 && *end != now, "D08: a referendum is decided exactly at its end");
				check(s.end == *end && s.delay == *delay, "D08: a running referendum is unchanged");
			},
			Some(ReferendumInfo::Finished { end: e, approved }) =>
				if *st == 0 {
					check(*end == now, "D08: no referendum ends early");
					check(e == now, "D08: the end is recorded");
					check(approved == *pass, "D08: the outcome is the threshold's verdict on the tally");
					if approved {
						reach("passed");
						nlog += 1;
						let when = now + (*delay).max(1);
						let id: [u8; 32] = {
							let mut x = [0u8; 32];
							let e = (*b"democrac", *i).encode();
							x[..e.len()].copy_from_slice(&e);
							x
						};
						let want = bounded(10 + (*i - low) as u8).encode();
						let mut hit = false;
						for l in log.iter() {
							if l.2 == id {
								hit = true;
								check(l.0 == 0 && l.1 == when, "D08: a passed referendum is enacted after its delay, at least one block later");
								check(l.3 == want, "D08: the referendum's own proposal is enacted");
							}
						}
						check(hit, "D08: a passed referendum is scheduled");
					} else {
						reach("rejected");
					}
				} else {
					check(*st == 1 && e == 1 && approved, "D08: a finished referendum is final");
				},
			None => check(*st == 2, "D08: no referendum disappears"),
		}
	}
	check(log.len() == nlog, "D08: only passed referenda are scheduled, once");
	// nothing below LowestUnbaked is running, so no ongoing referendum is skipped later
	let l = LowestUnbaked::<Test>::get();
	check(l >= low && l <= low + n, "D08: the window of running referenda only moves forward");
	for k in 0..n {
		if low + k < l {
			check(!is_ongoing(low + k), "D08: no running referendum is ever skipped");
		}
	}
	check(l == low + n || is_ongoing(l), "D08: the window starts at a running referendum");
	check(matches!(ReferendumInfoOf::<Test>::get(1), Some(ReferendumInfo::Finished { end: 1, approved: false })), "D08: old results stay");
	check(ReferendumCount::<Test>::get() == low + n, "D08: deciding referenda starts none");
}
pub fn bake() {
	bake_with(2, 3)
}
pub fn bake_deep() {
	bake_with(3, 3)
}

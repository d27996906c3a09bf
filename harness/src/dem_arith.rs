//! Democracy arithmetic: thresholds, conviction, tallies, vote encoding.
use crate::util::*;
use alloc::vec::Vec;
use parity_scale_codec::{Decode, Encode};
use pallet_democracy::{AccountVote, Approved, Conviction, Delegations, Tally, Vote, VoteThreshold, Voting};
use sp_runtime::traits::IntegerSquareRoot;
use symrt::*;

const THR: [VoteThreshold; 3] =
	[VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority];

fn thr(max: u128) {
	let k = choice("threshold", 2) as usize;
	let turnout = any("turnout", 0, max);
	let electorate = any("electorate", 1, max);
	let ayes = any("ayes", 0, 1 << 110);
	let nays = any("nays", 0, 1 << 110);
	let sv = conc(turnout.integer_sqrt());
	let se = conc(electorate.integer_sqrt());
	let got = THR[k].approved(Tally { ayes, nays, turnout }, electorate);
	let want = if sv == 0 {
		false
	} else if k == 0 {
		nays * se < ayes * sv
	} else {
		nays * sv < ayes * se
	};
	if got {
		reach("approved");
	} else {
		reach("rejected");
	}
	observe("got", got as u128);
	check(got == want, "supermajority threshold decides nays/sqrt(.) < ayes/sqrt(.) exactly");
}
/// square roots up to 5
pub fn thr_quick() {
	thr(35)
}
/// square roots up to 9
pub fn thr_deep() {
	thr(99)
}
/// simple majority and the empty turnout, for every value of every amount
pub fn thr_simple() {
	let k = choice("threshold", 3) as usize;
	let ayes = any("ayes", 0, u128::MAX);
	let nays = any("nays", 0, u128::MAX);
	let electorate = any("electorate", 1, u128::MAX);
	let turnout = any("turnout", 0, u128::MAX);
	if k < 2 {
		assume(turnout == 0);
	}
	let got = THR[k].approved(Tally { ayes, nays, turnout }, electorate);
	if turnout == 0 {
		check(!got, "nothing passes without turnout");
	} else {
		check(got == (ayes > nays), "simple majority passes exactly when ayes outnumber nays");
		reach("simple");
	}
}
/// full range, decided by the integer parts of the two ratios
pub fn thr_wide() {
	let k = choice("threshold", 2) as usize;
	let turnout = any("turnout", 1, 1 << 100);
	let electorate = any("electorate", 1, 1 << 100);
	let ayes = any("ayes", 0, 1 << 103);
	let nays = any("nays", 0, 1 << 103);
	let sv = turnout.integer_sqrt();
	let se = electorate.integer_sqrt();
	let (dn, da) = if k == 0 { (sv, se) } else { (se, sv) };
	// nays/dn and ayes/da have different integer parts q1, q2
	let q1 = nays / dn;
	let q2 = ayes / da;
	assume(q1 != q2);
	let got = THR[k].approved(Tally { ayes, nays, turnout }, electorate);
	check(got == (q1 < q2), "supermajority threshold orders the integer parts of the ratios");
	reach("wide");
}

/// voting power and lock time of each conviction, for every capital
pub fn conviction_power() {
	let c = choice("conviction", 7) as usize;
	let cap = any("capital", 0, u128::MAX);
	let d: Delegations<u128> = CONV[c].votes(cap);
	check(d.capital == cap, "conviction leaves the capital alone");
	if c == 0 {
		check(d.votes <= cap && d.votes == cap / 10, "no conviction counts a tenth");
	} else {
		let exact = if cap > u128::MAX / c as u128 { u128::MAX } else { cap * c as u128 };
		check(d.votes == exact, "conviction n counts n times the capital");
	}
	check(CONV[c].lock_periods() as u64 == PERIODS[c], "lock periods double with conviction");
	observe("votes", d.votes);
	reach("done");
}

/// one-byte vote encoding
pub fn vote_codec() {
	let b = any("byte", 0, 255) as u8;
	let v: Vec<u8> = alloc::vec![b];
	let r = Vote::decode(&mut &v[..]);
	let valid = b % 128 <= 6;
	match r {
		Ok(x) => {
			reach("valid");
			check(valid, "only convictions 0..=6 decode");
			check(x.aye == (b >= 128), "direction bit");
			check(u8::from(x.conviction) == b % 128, "conviction bits");
			let e = x.encode();
			check(e.len() == 1 && e[0] == b, "vote encoding round-trips");
			observe("aye", x.aye as u128);
		},
		Err(_) => {
			reach("invalid");
			check(!valid, "valid convictions decode");
		},
	}
}

/// adding and removing a vote are exact inverses and move the tally by the vote's contribution
pub fn tally_step() {
	let max = u128::MAX;
	let t0 = (any("ayes", 0, max), any("nays", 0, max), any("turnout", 0, max));
	let v = SVote::any(7, max);
	let mut t = Tally { ayes: t0.0, nays: t0.1, turnout: t0.2 };
	let r = t.add(v.real());
	if r.is_some() {
		reach("added");
		// in range, so plain arithmetic
		let p = |c: usize, x: u128| if c == 0 { x / 10 } else { x.saturating_mul(c as u128) };
		let (ea, en) = match v.kind {
			0 => (p(v.conv, v.a), 0),
			1 => (0, p(v.conv, v.a)),
			_ => (v.a / 10, v.b / 10),
		};
		check(t.ayes - t0.0 == ea && t.nays - t0.1 == en, "a vote adds its power to its side only");
		check(t.turnout - t0.2 == v.a + v.b, "a vote adds its capital to the turnout");
		let r = t.remove(v.real());
		check(r.is_some(), "an added vote can be removed");
		check(t.ayes == t0.0 && t.nays == t0.1 && t.turnout == t0.2, "removal undoes addition");
	} else {
		reach("overflow");
		// refusal only when something really does not fit
		let fits = |x: u128, y: u128| x <= max - y;
		let (ea, en) = match v.kind {
			0 => (power(v.conv, v.a), 0),
			1 => (0, power(v.conv, v.a)),
			_ => (v.a / 10, v.b / 10),
		};
		let cap_ok = fits(t0.2, v.a) && fits(t0.2 + v.a, v.b);
		check(!(cap_ok && fits(t0.0, ea) && fits(t0.1, en)), "an addition is refused only on overflow");
	}
}
/// delegated power added with `increase` is taken out by `reduce`
pub fn tally_delegation() {
	let m = 1u128 << 120;
	let t0 = (any("ayes", 0, m), any("nays", 0, m), any("turnout", 0, m));
	let d = Delegations { votes: any("votes", 0, m), capital: any("capital", 0, m) };
	let aye = choice("aye", 2) == 1;
	let mut t = Tally { ayes: t0.0, nays: t0.1, turnout: t0.2 };
	let _ = t.increase(aye, d);
	let (ea, en) = if aye { (d.votes, 0) } else { (0, d.votes) };
	check(t.ayes == t0.0 + ea && t.nays == t0.1 + en && t.turnout == t0.2 + d.capital, "delegated power goes to the delegate's side");
	let _ = t.reduce(aye, d);
	check(t.ayes == t0.0 && t.nays == t0.1 && t.turnout == t0.2, "reduce undoes increase");
	reach("done");
}
/// a vote locks exactly when it is a standard vote on the winning side, for its conviction's periods
pub fn lock_rule() {
	let v = SVote::any(7, u128::MAX);
	let approved = choice("approved", 2) == 1;
	let r = v.real().locked_if(approved);
	match (r, v.lock_if(approved)) {
		(Some((p, b)), Some((wp, wb))) => {
			reach("winning");
			check(p as u64 == wp && b == wb, "winning votes lock their balance for the conviction's periods");
		},
		(None, None) => reach("free"),
		_ => check(false, "exactly the winning standard votes lock"),
	}
	check(v.real().balance() == v.balance(), "balance of a vote");
	check(v.real().as_standard() == if v.kind == 2 { None } else { Some(v.kind == 0) }, "direction of a vote");
}
/// the amount an account must keep locked covers each of its votes, its delegation and its earlier locks
pub fn locked_cover() {
	let m = u128::MAX;
	let now = any("now", 0, 1 << 40) as u64;
	let u1 = any("until1", 0, 1 << 40) as u64;
	let a1 = any("amount1", 0, m);
	let u2 = any("until2", 0, 1 << 40) as u64;
	let a2 = any("amount2", 0, m);
	let del = choice("delegating", 2) == 1;
	type V = Voting<u128, u64, u64, frame_support::traits::ConstU32<3>>;
	let mut prior = match V::default() {
		Voting::Direct { prior, .. } => prior,
		_ => unreachable!(),
	};
	prior.accumulate(u1, a1);
	prior.accumulate(u2, a2);
	let d0 = Delegations { votes: 0, capital: 0 };
	let (mut v, own): (V, u128) = if del {
		let b = any("balance", 0, m);
		(Voting::Delegating { balance: b, target: 2, conviction: Conviction::Locked1x, delegations: d0, prior }, b)
	} else {
		let x = SVote::any(1, m);
		let y = SVote::any(1, m);
		let l = bv(alloc::vec![(0u32, x.real()), (4u32, y.real())]);
		(Voting::Direct { votes: l, delegations: d0, prior }, x.balance().max(y.balance()))
	};
	v.rejig(now);
	let l = v.locked_balance();
	check(l >= own, "the lock covers current votes and delegations");
	check(!(now < u1) || l >= a1, "an unexpired earlier lock is kept (1)");
	check(!(now < u2) || l >= a2, "an unexpired earlier lock is kept (2)");
	let both = u1.max(u2);
	if now >= both {
		reach("expired");
		check(l == own, "expired locks are dropped");
	} else {
		reach("running");
		check(l == own.max(a1.max(a2)), "the lock is the largest of its reasons");
	}
}
#[allow(unused)]
fn _keep(_: AccountVote<u128>) {}

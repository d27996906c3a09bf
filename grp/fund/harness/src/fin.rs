//! The end of the funding, the protocol's fee and the evaluators' rewards.
use crate::{base::*, mock::*};
use pallet_funding::*;
use sp_runtime::Perquintill;
use symrt::*;

const M: u128 = 1_000_000 * USD;
/// 10 % of the first million, 8 % of the next four, 6 % of the rest
pub fn fee_of(x: u128) -> u128 {
	let a = if x < M { x } else { M };
	let b = if x < 5 * M { x - a } else { 4 * M };
	let c = x - a - b;
	pct(10, a) + pct(8, b) + pct(6, c)
}
pub fn share(p: u64, x: u128) -> u128 {
	Perquintill::from_percent(p) * x
}
/// the fee in tokens
pub fn fee_tokens(reached: u128, sold: u128) -> u128 {
	Perquintill::from_rational(fee_of(reached), reached) * sold
}
pub fn end() {
	let part = choice("part", 2);
	let target = pick("target", &[3 * M, 12_345_678_901]);
	// a third: 33 of 100 parts
	let exact = (target * 33 + 99) / 100;
	let reached = pick("reached", &[0, exact - 1, exact, exact + 1, target, 7 * M + 1]);
	let state = if part == 0 { choice("state", 12) } else { 3 };
	let status = statuses(state);
	let alloc = any("allocation", 1 << 30, 1 << 62);
	let left = if part == 0 { [0u128, 7][choice("left", 2) as usize] } else { any("left", 0, 1 << 62) };
	assume(left <= alloc);
	let now = if part == 0 { any("now", 0, 60) as u64 } else { 30 };
	let bonded = any("evaluated", 0, 1 << 60);
	set_now(now);
	let mut d = details(status, target, left);
	d.round_duration = BlockNumberPair::new(Some(10), Some(24));
	d.funding_amount_reached_usd = reached;
	d.evaluation_round_info.total_bonded_usd = bonded;
	let m = meta(alloc, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	DidWithActiveProjects::<Test>::insert(did(1), P);
	DidWithActiveProjects::<Test>::insert(did(2), Q);
	let r = tx(|| Funding::end_funding(signed(7), P));
	let due = state == 3 && (left == 0 || now >= 24);
	if r.is_ok() {
		check(state == 3, "F06: only a community round is ended as one");
		check(due, "F06: the round is not cut short before everything is sold");
		let ok = reached >= exact;
		let mut e = moved(d.clone(), now, if ok { ProjectStatus::FundingSuccessful } else { ProjectStatus::FundingFailed }, None);
		e.evaluation_round_info.evaluators_outcome = Some(if ok {
			let fee = fee_tokens(reached, alloc - left);
			let pot = share(30, fee);
			let early = pct(10, target);
			EvaluatorsOutcome::Rewarded(RewardInfo {
				early_evaluator_reward_pot: share(20, pot),
				normal_evaluator_reward_pot: share(80, pot),
				early_evaluator_total_bonded_usd: if bonded < early { bonded } else { early },
				normal_evaluator_total_bonded_usd: bonded,
			})
		} else {
			EvaluatorsOutcome::Slashed
		});
		let n = get(P);
		check(n.status == e.status, "F06: funding succeeds from a third of the target on, and fails below");
		check(n == e, "F06: evaluators are slashed on failure, and get their part of the fee on success");
		check(DidWithActiveProjects::<Test>::get(did(1)) == None, "F06: the issuer may start another project");
		reach("ended");
	} else {
		check(!due, "F06: anyone can end a community round that is over or sold out");
		check(get(P) == d && DidWithActiveProjects::<Test>::get(did(1)) == Some(P), "F06: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&{ let mut q = d.clone(); q.issuer_did = did(1); q }) && DidWithActiveProjects::<Test>::get(did(2)) == Some(Q), "F06: other projects are not touched");
}
pub fn statuses(n: u32) -> Status {
	use ProjectStatus::*;
	[
		Application,
		EvaluationRound,
		AuctionRound,
		CommunityRound(18),
		FundingFailed,
		FundingSuccessful,
		SettlementStarted(FundingOutcome::Success),
		SettlementStarted(FundingOutcome::Failure),
		SettlementFinished(FundingOutcome::Success),
		SettlementFinished(FundingOutcome::Failure),
		CTMigrationStarted,
		CTMigrationFinished,
	][n as usize]
		.clone()
}
/// the fee never exceeds a tenth of what was sold, and the parts never exceed the fee
pub fn fees() {
	let reached = pick("reached", &[1, 999_999, M / 2 + 7, M - 1, M, M + 1, M + M / 5, 2 * M + 1, 4 * M, 5 * M - 1, 5 * M, 5 * M + 1, 6 * M, 11 * M + 3, 123_456_789 * USD + 13]);
	let alloc = any("allocation", 1 << 30, 1 << 64);
	let left = any("left", 0, 1 << 64);
	assume(left <= alloc);
	let mut d = details(ProjectStatus::FundingSuccessful, reached, left);
	d.funding_amount_reached_usd = reached;
	put(P, &meta(alloc, price(10_000)), &d);
	let sold = alloc - left;
	let fee = fee_tokens(reached, sold);
	let (lp, lth) = Funding::generate_liquidity_pools_and_long_term_holder_rewards(P).unwrap();
	let i = Funding::generate_evaluator_rewards_info(P).unwrap();
	check(lp == share(50, fee) && lth == share(20, fee), "F06: half of the fee goes to liquidity pools, a fifth to long-term holders");
	let e = share(30, fee);
	check(i.early_evaluator_reward_pot == share(20, e) && i.normal_evaluator_reward_pot == share(80, e), "F06: three tenths of the fee go to evaluators, a fifth of them to the early ones");
	check(lp + lth + i.early_evaluator_reward_pot + i.normal_evaluator_reward_pot <= fee + 4, "F06: the parts of the fee add up to it");
	check(reached < M - 1 || fee <= sold / 10 + sold / 1_000_000_000 + 1, "F06: the fee is at most a tenth of what was sold");
	reach("fees");
}
/// an evaluator's reward: the part of the pots that the evaluation is of all evaluations
pub fn reward() {
	let (te, tn) = pick("totals", &[(300_000u128 * USD, 700_000 * USD), (1_000_003, 1_000_003), (300_000 * USD, 300_001 * USD)]);
	let pe = any("early pot", 0, 1 << 60);
	let pn = any("normal pot", 0, 1 << 60);
	let e = pick("early", &[0, 1, 1000, te / 3, te]);
	let l = pick("late", &[0, 1, (tn - te) / 2, tn - te]);
	let info = RewardInfo {
		early_evaluator_reward_pot: pe,
		normal_evaluator_reward_pot: pn,
		early_evaluator_total_bonded_usd: te,
		normal_evaluator_total_bonded_usd: tn,
	};
	let ev = EvaluationInfo {
		id: 1,
		did: did(2),
		project_id: P,
		evaluator: 2u128,
		original_plmc_bond: 5,
		current_plmc_bond: 5,
		early_usd_amount: e,
		late_usd_amount: l,
		when: 1u64,
	};
	let x = Funding::calculate_evaluator_reward(&ev, &info);
	check(x == Perquintill::from_rational(e, te) * pe + Perquintill::from_rational(e + l, tn) * pn, "F08: an evaluator gets the part of the pots that the evaluation is of all");
	check(x <= pe + pn, "F08: no evaluator gets more than there is");
	if e == te && l == tn - te {
		check(x == pe + pn, "F08: an evaluator gets the part of the pots that the evaluation is of all");
	}
	reach("reward");
}

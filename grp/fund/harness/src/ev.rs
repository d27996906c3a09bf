//! Evaluations.
use crate::{base::*, mock::*};
use pallet_funding::*;
use symrt::*;

pub fn evaluate() {
	let mk = market(3);
	let target = any("target", 0, 1 << 60);
	let bonded = any("bonded", 0, 1 << 60);
	let usd = any("usd", 0, 1 << 60);
	let money = any("money", 0, 1 << 70);
	let now = any("now", 0, 40) as u64;
	let state = choice("state", 3);
	let who = choice("who", 3);
	let mine = choice("mine", 3);
	let all = any("evaluations", mine as u128, 4) as u32;
	set_now(now);
	let mut d = details(if state == 2 { ProjectStatus::AuctionRound } else { ProjectStatus::EvaluationRound }, target, 1);
	d.round_duration = BlockNumberPair::new(Some(10), if state == 1 { None } else { Some(19) });
	d.evaluation_round_info.total_bonded_usd = bonded;
	d.evaluation_round_info.total_bonded_plmc = 77;
	let m = meta(1, price(1000));
	put(P, &m, &d);
	neighbour(&m, &d);
	let q = d.clone();
	for i in 0..mine {
		// earlier evaluations, of nothing
		let e = EvaluationInfo {
			id: i,
			did: did(2),
			project_id: P,
			evaluator: 2,
			original_plmc_bond: 0,
			current_plmc_bond: 0,
			early_usd_amount: 0,
			late_usd_amount: 0,
			when: 1,
		};
		Evaluations::<Test>::insert((P, 2, i), e);
	}
	EvaluationCounts::<Test>::insert(P, all);
	NextEvaluationId::<Test>::put(8);
	// the issuer, another policy, or a proper evaluator
	cred(2, if who == 0 { 1 } else { 2 }, 0, if who == 1 { 2 } else { 1 });
	fund(2, money);
	let money = free(2);
	let r = tx(|| Funding::evaluate(signed(2), jwt(), P, usd));
	let bond = at(mk.plmc, usd);
	let round = state == 0 && now >= 10 && now < 19;
	let may = round && who == 2 && mine < 2 && all < 3 && usd >= 100 * USD;
	if r.is_ok() {
		check(round, "F02: evaluations are only taken in the evaluation round");
		check(who != 0, "F02: nobody evaluates their own project");
		check(who != 1, "F02: an evaluator needs the project's policy");
		check(usd >= 100 * USD, "F02: an evaluation has a minimum");
		check(mine < 2 && all < 3, "F02: the number of evaluations is limited, per user and project");
		let e = Evaluations::<Test>::get((P, 2, 8)).unwrap();
		let t = pct(10, target);
		let early = if bonded >= t { 0 } else if usd <= t - bonded { usd } else { t - bonded };
		check(e.original_plmc_bond == bond && e.current_plmc_bond == bond, "F02: the bond is worth the evaluation");
		check(e.early_usd_amount == early, "F02: what fills the threshold is early, nothing else");
		check(e.late_usd_amount == usd - early, "F02: what is not early is late");
		check(e.id == 8 && e.did == did(2) && e.project_id == P && e.evaluator == 2 && e.when == now, "F02: an evaluation is recorded as made");
		check(held(2, HoldReason::Evaluation) == bond && total(2) == money, "F02: exactly the bond is held");
		d.evaluation_round_info.total_bonded_usd = bonded + usd;
		d.evaluation_round_info.total_bonded_plmc = 77 + bond;
		check(get(P) == d, "F02: an evaluation adds to the totals, and to nothing else");
		check(EvaluationCounts::<Test>::get(P) == all + 1 && NextEvaluationId::<Test>::get() == 9, "F02: evaluations are counted");
		reach("evaluated");
	} else {
		check(!(may && money > bond), "F02: an evaluation within the rules is taken");
		check(held(2, HoldReason::Evaluation) == 0 && get(P) == d, "F02: a refused evaluation changes nothing");
		reach("refused");
	}
	check(untouched(&q), "F02: other projects are not touched");
}

pub fn end() {
	let target = any("target", 0, 1 << 60);
	let bonded = any("bonded", 0, 1 << 60);
	let now = any("now", 0, 40) as u64;
	let state = choice("state", 3);
	set_now(now);
	let s = [ProjectStatus::EvaluationRound, ProjectStatus::AuctionRound, ProjectStatus::Application][state as usize].clone();
	let mut d = details(s, target, 1);
	d.round_duration = BlockNumberPair::new(Some(10), Some(19));
	d.evaluation_round_info.total_bonded_usd = bonded;
	let m = meta(1, price(1000));
	put(P, &m, &d);
	neighbour(&m, &d);
	DidWithActiveProjects::<Test>::insert(did(1), P);
	DidWithActiveProjects::<Test>::insert(did(2), Q);
	let r = tx(|| Funding::end_evaluation(signed(7), P));
	let active = DidWithActiveProjects::<Test>::get(did(1));
	if r.is_ok() {
		check(state == 0, "F02: only an evaluation round ends as one");
		check(now >= 19, "F02: the evaluation round is not cut short");
		if bonded >= pct(10, target) {
			check(get(P) == moved(d.clone(), now, ProjectStatus::AuctionRound, Some(15)), "F02: a project that reaches the threshold goes to auction");
			check(active == Some(P), "F02: a project in auction is active");
			reach("auction");
		} else {
			check(get(P) == moved(d.clone(), now, ProjectStatus::FundingFailed, Some(1)), "F02: a project below the threshold fails");
			check(active.is_none(), "F02: the issuer of a failed project may start another");
			reach("failed");
		}
	} else {
		check(state != 0 || now < 19, "F02: anyone can end an evaluation round that is over");
		check(get(P) == d && active == Some(P), "F02: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&d) && DidWithActiveProjects::<Test>::get(did(2)) == Some(Q), "F02: other projects are not touched");
}

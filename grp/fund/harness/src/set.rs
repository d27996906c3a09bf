//! Settlement: refunds, contribution tokens, releases of bonds, evaluators.
use crate::{auc::a_bid, auc::sub_account, base::*, con::a_con, fin::*, mock::*};
use pallet_funding::*;
use pallet_proxy_bonding::ReleaseType;
use polimec_common::migration_types::*;
use sp_runtime::{traits::Convert, FixedU128, Perbill};
use symrt::*;

const USDT: u32 = 1984;
/// weeks = 2.167 * (multiplier - 1), in blocks; at least one
fn duration(mult: u128) -> u64 {
	let weeks = FixedU128::from_inner(U * 2167 / 1000 * (mult - 1));
	let b: u64 = pallet_funding::DaysToBlocks::convert(weeks * FixedU128::from_u32(7));
	if b < 1 {
		1
	} else {
		b
	}
}
fn started(ok: bool, d: &mut Details) {
	d.status = ProjectStatus::SettlementStarted(if ok { FundingOutcome::Success } else { FundingOutcome::Failure });
	d.funding_end_block = Some(20);
	d.weighted_average_price = Some(price(10_350));
}
/// the only migration of a user
fn migration(who: u128, id: u32, t: ParticipationType, ct: u128, time: u64) -> bool {
	use xcm::v4::prelude::*;
	let Some((s, v)) = UserMigrations::<Test>::get((P, who)) else { return false };
	let o = MigrationOrigin { user: Location::new(0, AccountId32 { network: None, id: Acc32::convert(who) }), id, participation_type: t };
	s == MigrationStatus::NotStarted && v.len() == 1 && v[0] == Migration::new(o, (ct, time).into())
}
fn schedule(who: u128) -> Option<(u128, u128, u64)> {
	let v = pallet_linear_release::Vesting::<Test>::get(who, RuntimeHoldReason::from(HoldReason::Participation))?;
	(v.len() == 1).then(|| (v[0].locked, v[0].per_block, v[0].starting_block))
}
/// whether the bond is released over the duration, from the end of the funding
fn vesting(who: u128, bond: u128, dur: u64, now: u64) -> bool {
	match schedule(who) {
		None => bond == 0 || over(bond, dur, now),
		Some((l, p, s)) => !over(bond, dur, now) && l == bond && bond > 0 && s == 20 && p == pace(bond, dur),
	}
}
fn pace(bond: u128, dur: u64) -> u128 {
	if bond < dur as u128 {
		1
	} else {
		bond / dur as u128
	}
}
/// whether all of the bond has vested by now
fn over(bond: u128, dur: u64, now: u64) -> bool {
	dur == 1 || now > 20 && pace(bond, dur) * (now as u128 - 20) >= bond
}
/// when the settlement happens: mostly at once, but perhaps after years
fn settled_at(mode: ParticipationMode) -> u64 {
	if mode == ParticipationMode::Classic(2) {
		20 + any("later", 0, 1 << 30) as u64
	} else {
		22
	}
}
fn tokens() {
	Cts::make(P, pot(P));
	Cts::make(Q, pot(Q));
}

pub fn start() {
	let state = choice("state", 12);
	let reached = pick("reached", &[M_, 7 * M_ + 1]);
	let alloc = any("allocation", 1 << 30, 1 << 62);
	let left = any("left", 0, 1 << 62);
	assume(left <= alloc);
	let mut d = details(statuses(state), 3 * M_, left);
	d.funding_amount_reached_usd = reached;
	d.round_duration = BlockNumberPair::new(Some(10), None);
	d.weighted_average_price = Some(price(10_350));
	let m = meta(alloc, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	set_now(20);
	// what creating the token and accounts costs
	fund(pot(P), 1 << 60);
	fund(92, 1 << 60);
	let r = tx(|| Funding::start_settlement(signed(7), P));
	let rule = pallet_proxy_bonding::Releases::<Test>::get(P, RuntimeHoldReason::from(HoldReason::Participation));
	if r.is_ok() {
		check(state == 4 || state == 5, "F07: settlement starts once, after the funding");
		let ok = state == 5;
		let mut e = moved(d.clone(), 20, ProjectStatus::SettlementStarted(if ok { FundingOutcome::Success } else { FundingOutcome::Failure }), None);
		e.funding_end_block = Some(20);
		check(get(P) == e, "F07: the end of the funding and its outcome are kept");
		if ok {
			let fee = fee_tokens(reached, alloc - left);
			check(Cts::owner_of(P) == Some(pot(P)) && Cts::meta(P) == Some((alloc::vec![65], alloc::vec![66], 10)), "F07: the contribution token is created as the issuer described it");
			check(Cts::of(P, 92) == share(50, fee) + share(20, fee) && Cts::issued(P) == Cts::of(P, 92), "F07: the treasury gets the liquidity pools' and the long-term holders' tokens");
			check(matches!(rule, Some(ReleaseType::Locked(b)) if b == 20 + duration(5)), "F07: bonds of the treasury are released as its multiplier says");
			reach("success");
		} else {
			check(Cts::owner_of(P) == None, "F07: a failed project has no token");
			check(matches!(rule, Some(ReleaseType::Refunded)), "F07: bonds of the treasury are free after a failure");
			reach("failure");
		}
	} else {
		check(state != 4 && state != 5, "F07: anyone can start the settlement of a project whose funding has ended");
		check(get(P) == d && rule.is_none() && Cts::owner_of(P) == None, "F07: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&d) && Cts::owner_of(Q) == None, "F07: other projects are not touched");
}
const M_: u128 = 1_000_000 * USD;

pub fn bid() {
	let mk = market(1);
	let state = choice("state", 3);
	let ok = state == 0;
	let (mode, asset) = pick(
		"mode",
		&[
			(ParticipationMode::OTM, AcceptedFundingAsset::USDT),
			(ParticipationMode::Classic(1), AcceptedFundingAsset::USDT),
			(ParticipationMode::Classic(2), AcceptedFundingAsset::DOT),
			(ParticipationMode::Classic(25), AcceptedFundingAsset::USDT),
		],
	);
	let high = flag("high");
	let ct = any("ct", 1, 1 << 60);
	let st = choice("decision", 3);
	let won = if st == 2 { any("won", 1, 1 << 60) } else { ct };
	assume(won <= ct);
	let status = [BidStatus::Accepted, BidStatus::Rejected, BidStatus::PartiallyAccepted(won)][st as usize];
	let bond = any("bond", 0, 1 << 60);
	let lock = any("lock", 0, 1 << 60);
	let spare = any("others", 0, 1 << 60);
	let mut d = details(ProjectStatus::FundingSuccessful, 1 << 50, 7);
	started(ok, &mut d);
	if state == 2 {
		d.status = ProjectStatus::CommunityRound(18);
	}
	let m = meta(1 << 70, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	tokens();
	let now = if mode == ParticipationMode::Classic(2) { pick("now", &[22, 20 + duration(2) - 1, 20 + duration(2), 1 << 40]) } else { 22 };
	set_now(now);
	let p = price(if high { 12_000 } else { 10_000 });
	let mut b = a_bid(8, 2, 2, ct, p);
	b.status = status;
	b.mode = mode;
	b.funding_asset = asset;
	b.plmc_bond = bond;
	b.funding_asset_amount_locked = lock;
	Bids::<Test>::insert((P, 2, 8), &b);
	Bids::<Test>::insert((P, 2, 9), &b);
	Bids::<Test>::insert((Q, 2, 8), &b);
	let otm = mode == ParticipationMode::OTM;
	let mine = if otm { spare } else { bond + spare };
	fund(2, mine + 1_000_000);
	hold(2, HoldReason::Participation, mine);
	let sub = sub_account();
	if otm {
		fund(sub, bond + 1_000_000);
		hold(sub, HoldReason::Participation, bond);
	}
	let plmc = free(2);
	let more = any("escrow", 1, 1 << 70);
	Assets::give(asset.id(), pot(P), lock + more);
	Assets::give(USDT, sub, 1 << 90);
	let pay = 1u128 << 90;
	let r = tx(|| Funding::settle_bid(signed(7), P, 2, 8));
	let wins = ok && st != 1;
	let (nb, nl) = if wins {
		let usd = at(if high { price(10_350) } else { p }, won);
		(mk.bond(mode.multiplier() as u128, usd), mk.asset(asset, usd))
	} else {
		(0, 0)
	};
	let keep_b = if nb < bond { nb } else { bond };
	let keep_l = if nl < lock { nl } else { lock };
	let back = bond - keep_b;
	let fee = if otm && back > <Balances as frame_support::traits::fungible::Inspect<u128>>::minimum_balance() {
		at(mk.usdt, Perbill::from_percent(5) * at(FixedU128::from_inner(U / 2 / 10_000), back))
	} else {
		0
	};
	let due = state < 2 || st == 1;
	let gone = Bids::<Test>::get((P, 2, 8)).is_none();
	let got = Assets::of(asset.id(), 2);
	if r.is_ok() {
		check(due, "F07: bids are settled in the settlement, rejected ones before");
		check(gone, "F07: a bid is settled once");
		check(got == lock - keep_l + fee && Assets::of(asset.id(), DEST) == keep_l, "F07: the issuer gets the price of what was won, the bidder the rest");
		check(Assets::of(asset.id(), pot(P)) == more, "F07: only this bid's money leaves the escrow account");
		check(Assets::of(USDT, sub) == pay - fee, "F07: the fee for a bond that is not needed is paid back");
		let dur = duration(mode.multiplier() as u128);
		if otm {
			check(held(sub, HoldReason::Participation) == bond && held(2, HoldReason::Participation) == spare && free(2) == plmc, "F07: the treasury's bonds do not go to bidders");
			check(schedule(2).is_none(), "F07: the treasury's bonds do not go to bidders");
		} else {
			let free_now = if wins && !over(keep_b, dur, now) { back } else { bond };
			check(held(2, HoldReason::Participation) == mine - free_now && free(2) == plmc + free_now, "F07: the bond that is not needed is freed, the rest stays held for its time");
			check(vesting(2, if wins { keep_b } else { 0 }, dur, now), "F07: the rest of the bond is released over the time of its multiplier");
		}
		check(Cts::of(P, 2) == if wins { won } else { 0 } && Cts::issued(P) == Cts::of(P, 2), "F07: exactly the tokens that were won are minted, to the bidder");
		check(if wins { migration(2, 8, ParticipationType::Bid, won, dur) } else { UserMigrations::<Test>::get((P, 2)).is_none() }, "F07: the tokens will migrate with the time they are locked for");
		check(UnmigratedCounter::<Test>::get(P) == wins as u32, "F07: users with tokens to migrate are counted");
		reach("settled");
	} else {
		check(!due, "F07: anyone can settle a bid when it is due");
		check(!gone && got == 0 && free(2) == plmc && Cts::issued(P) == 0, "F07: a refused call changes nothing");
		reach("refused");
	}
	check(get(P) == d && untouched(&d) && Cts::issued(Q) == 0, "F07: other projects are not touched");
	check(Bids::<Test>::get((P, 2, 9)) == Some(b.clone()) && Bids::<Test>::get((Q, 2, 8)) == Some(b), "F07: other bids are not touched");
}
pub fn contribution() {
	let mk = market(1);
	let state = choice("state", 3);
	let ok = state == 0;
	let (mode, asset) = pick(
		"mode",
		&[
			(ParticipationMode::OTM, AcceptedFundingAsset::USDT),
			(ParticipationMode::Classic(1), AcceptedFundingAsset::DOT),
			(ParticipationMode::Classic(2), AcceptedFundingAsset::USDT),
			(ParticipationMode::Classic(10), AcceptedFundingAsset::USDT),
		],
	);
	let ct = any("ct", 1, 1 << 60);
	let bond = any("bond", 0, 1 << 60);
	let lock = any("lock", 0, 1 << 60);
	let spare = any("others", 0, 1 << 60);
	let mut d = details(ProjectStatus::FundingSuccessful, 1 << 50, 7);
	started(ok, &mut d);
	if state == 2 {
		d.status = ProjectStatus::FundingSuccessful;
	}
	let m = meta(1 << 70, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	tokens();
	let now = settled_at(mode);
	set_now(now);
	let mut c = a_con(8, 2, 2, ct);
	c.mode = mode;
	c.funding_asset = asset;
	c.plmc_bond = bond;
	c.funding_asset_amount = lock;
	Contributions::<Test>::insert((P, 2, 8), &c);
	Contributions::<Test>::insert((P, 2, 9), &c);
	Contributions::<Test>::insert((Q, 2, 8), &c);
	// an earlier settlement of the same user, perhaps
	let old = flag("second");
	if old && ok {
		Cts::make(P, pot(P));
		let o = MigrationOrigin { user: xcm::v4::Location::new(0, xcm::v4::Junction::AccountId32 { network: None, id: Acc32::convert(2) }), id: 8, participation_type: ParticipationType::Bid };
		let mut v = frame_support::BoundedVec::new();
		v.try_push(Migration::new(o, (5, 6).into())).unwrap();
		UserMigrations::<Test>::insert((P, 2), (MigrationStatus::NotStarted, v));
		UnmigratedCounter::<Test>::insert(P, 1);
	}
	let otm = mode == ParticipationMode::OTM;
	let mine = if otm { spare } else { bond + spare };
	fund(2, mine + 1_000_000);
	hold(2, HoldReason::Participation, mine);
	let sub = sub_account();
	if otm {
		fund(sub, bond + 1_000_000);
		hold(sub, HoldReason::Participation, bond);
	}
	let plmc = free(2);
	let more = any("escrow", 1, 1 << 70);
	Assets::give(asset.id(), pot(P), lock + more);
	Assets::give(USDT, sub, 1 << 90);
	let r = tx(|| Funding::settle_contribution(signed(7), P, 2, 8));
	let fee = if otm && !ok { at(mk.usdt, Perbill::from_percent(5) * at(FixedU128::from_inner(U / 2 / 10_000), bond)) } else { 0 };
	let gone = Contributions::<Test>::get((P, 2, 8)).is_none();
	let got = Assets::of(asset.id(), 2);
	if r.is_ok() {
		check(state < 2, "F07: contributions are settled in the settlement");
		check(gone, "F07: a contribution is settled once");
		check(got == if ok { 0 } else { lock + fee } && Assets::of(asset.id(), DEST) == if ok { lock } else { 0 }, "F07: the issuer gets the money of a successful funding, the contributor that of a failed one");
		check(Assets::of(asset.id(), pot(P)) == more, "F07: only this contribution's money leaves the escrow account");
		check(Assets::of(USDT, sub) == (1u128 << 90) - fee, "F07: the fee for a bond is paid back after a failure");
		let dur = duration(mode.multiplier() as u128);
		if otm {
			check(held(sub, HoldReason::Participation) == bond && held(2, HoldReason::Participation) == spare && free(2) == plmc && schedule(2).is_none(), "F07: the treasury's bonds do not go to contributors");
		} else {
			let free_now = if ok && !over(bond, dur, now) { 0 } else { bond };
			check(held(2, HoldReason::Participation) == mine - free_now && free(2) == plmc + free_now, "F07: the bond stays held for its time, or is freed after a failure");
			check(vesting(2, if ok { bond } else { 0 }, dur, now), "F07: the bond is released over the time of its multiplier");
		}
		check(Cts::of(P, 2) == if ok { ct } else { 0 } && Cts::issued(P) == Cts::of(P, 2), "F07: exactly the tokens that were bought are minted, to the contributor");
		if old && ok {
			let (_, v) = UserMigrations::<Test>::get((P, 2)).unwrap();
			check(v.len() == 2 && v[1].info.contribution_token_amount == ct && v[1].info.vesting_time == dur && v[1].origin.id == 8 && v[0].info == (5, 6).into(), "F07: the tokens will migrate with the time they are locked for");
			check(UnmigratedCounter::<Test>::get(P) == 1, "F07: users with tokens to migrate are counted");
		} else {
			check(if ok { migration(2, 8, ParticipationType::Contribution, ct, dur) } else { UserMigrations::<Test>::get((P, 2)).is_none() }, "F07: the tokens will migrate with the time they are locked for");
			check(UnmigratedCounter::<Test>::get(P) == ok as u32, "F07: users with tokens to migrate are counted");
		}
		reach("settled");
	} else {
		check(state == 2, "F07: anyone can settle a contribution when it is due");
		check(!gone && got == 0 && free(2) == plmc && Cts::issued(P) == 0, "F07: a refused call changes nothing");
		reach("refused");
	}
	check(get(P) == d && untouched(&d) && Cts::issued(Q) == 0, "F07: other projects are not touched");
	check(Contributions::<Test>::get((P, 2, 9)) == Some(c.clone()) && Contributions::<Test>::get((Q, 2, 8)) == Some(c), "F07: other contributions are not touched");
}
pub fn evaluation() {
	let state = choice("state", 3);
	let out = choice("outcome", 3);
	let o = any("original", 0, 1 << 60);
	let c = any("current", 0, 1 << 60);
	assume(c <= o && c >= pct(20, o));
	let spare = any("others", 0, 1 << 60);
	let pe = any("early pot", 0, 1 << 60);
	let pn = any("normal pot", 0, 1 << 60);
	let info = RewardInfo {
		early_evaluator_reward_pot: pe,
		normal_evaluator_reward_pot: pn,
		early_evaluator_total_bonded_usd: 300,
		normal_evaluator_total_bonded_usd: 700,
	};
	let mut d = details(ProjectStatus::FundingSuccessful, 1 << 50, 7);
	started(out == 1, &mut d);
	d.evaluation_round_info.evaluators_outcome = [Some(EvaluatorsOutcome::Slashed), Some(EvaluatorsOutcome::Rewarded(info)), None][out as usize].clone();
	if state == 1 {
		d.status = ProjectStatus::FundingSuccessful;
	} else if state == 2 {
		d.status = ProjectStatus::SettlementFinished(FundingOutcome::Success);
	}
	let m = meta(1 << 70, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	tokens();
	set_now(22);
	let e = EvaluationInfo {
		id: 8,
		did: did(2),
		project_id: P,
		evaluator: 2u128,
		original_plmc_bond: o,
		current_plmc_bond: c,
		early_usd_amount: 100,
		late_usd_amount: 50,
		when: 1u64,
	};
	Evaluations::<Test>::insert((P, 2, 8), &e);
	Evaluations::<Test>::insert((P, 2, 9), &e);
	Evaluations::<Test>::insert((Q, 2, 8), &e);
	fund(2, c + spare + 1_000_000);
	hold(2, HoldReason::Evaluation, c + spare);
	fund(93, 1_000_000);
	let (plmc, ops) = (free(2), free(93));
	let r = tx(|| Funding::settle_evaluation(signed(7), P, 2, 8));
	let gone = Evaluations::<Test>::get((P, 2, 8)).is_none();
	let slash = if out == 0 { pct(20, o) } else { 0 };
	if r.is_ok() {
		check(state == 0, "F08: evaluations are settled in the settlement");
		check(gone, "F08: an evaluation is settled once");
		check(free(93) == ops + slash, "F08: a fifth of the original bond is slashed after a failure, and goes to the treasury");
		check(Slashes::of(2) == slash, "F08: what vests for the evaluator shrinks with the slash");
		check(held(2, HoldReason::Evaluation) == spare && free(2) == plmc + c - slash, "F08: the rest of the bond is free again");
		let reward = if out == 1 { Funding::calculate_evaluator_reward(&e, &info_of(&d)) } else { 0 };
		check(Cts::of(P, 2) == reward && Cts::issued(P) == reward, "F08: only a success is rewarded, with exactly the evaluator's part");
		check(if reward > 0 { migration(2, 8, ParticipationType::Evaluation, reward, 1) } else { UserMigrations::<Test>::get((P, 2)).is_none() }, "F08: a reward will migrate");
		reach("settled");
	} else {
		check(state != 0, "F08: anyone can settle an evaluation when it is due");
		check(!gone && free(2) == plmc && free(93) == ops && Cts::issued(P) == 0, "F08: a refused call changes nothing");
		reach("refused");
	}
	check(get(P) == d && untouched(&d) && Cts::issued(Q) == 0, "F08: other projects are not touched");
	check(Evaluations::<Test>::get((P, 2, 9)) == Some(e.clone()) && Evaluations::<Test>::get((Q, 2, 8)) == Some(e), "F08: other evaluations are not touched");
}
fn info_of(d: &Details) -> RewardInfo {
	match d.evaluation_round_info.evaluators_outcome {
		Some(EvaluatorsOutcome::Rewarded(ref i)) => i.clone(),
		_ => unreachable!(),
	}
}
pub fn mark() {
	let state = choice("state", 12);
	let open = choice("open", 4);
	let mut d = details(statuses(state), 1 << 50, any("left", 0, 1 << 60));
	d.round_duration = BlockNumberPair::new(Some(10), None);
	let m = meta(1 << 70, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	set_now(22);
	let e = EvaluationInfo { id: 8, did: did(2), project_id: P, evaluator: 2u128, original_plmc_bond: 1, current_plmc_bond: 1, early_usd_amount: 1, late_usd_amount: 0, when: 1u64 };
	Evaluations::<Test>::insert((if open == 1 { P } else { Q }, 2, 8), e);
	Bids::<Test>::insert((if open == 2 { P } else { Q }, 2, 8), a_bid(8, 2, 2, 1, price(10_000)));
	Contributions::<Test>::insert((if open == 3 { P } else { Q }, 2, 8), a_con(8, 2, 2, 1));
	let r = tx(|| Funding::mark_project_as_settled(signed(7), P));
	let due = open == 0 && (state == 6 || state == 7);
	if r.is_ok() {
		check(state == 6 || state == 7, "F07: only a settlement is finished");
		check(open == 0, "F07: a settlement is finished only when everything is settled");
		let s = ProjectStatus::SettlementFinished(if state == 6 { FundingOutcome::Success } else { FundingOutcome::Failure });
		check(get(P) == moved(d.clone(), 22, s, None), "F07: a finished settlement keeps the outcome");
		reach("finished");
	} else {
		check(!due, "F07: anyone can finish a settlement");
		check(get(P) == d, "F07: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&d), "F07: other projects are not touched");
}

//! The life of a project: which step leads from where to where; confirmations of migrations.
use crate::{base::*, fin::statuses, mock::*};
use pallet_funding::*;
use polimec_common::migration_types::*;
use symrt::*;

pub fn step() {
	let state = choice("state", 12);
	let call = choice("call", 9);
	let left = any("left", 0, 5);
	let now = any("now", 0, 60) as u64;
	let open = flag("open");
	let alloc = 1u128 << 60;
	let mut d = details(statuses(state), 3_000_000 * USD, left);
	d.is_frozen = state > 0;
	let rest = open || state == 0 || state > 3;
	d.round_duration = BlockNumberPair::new(Some(10), if rest { None } else { Some(24) });
	d.funding_amount_reached_usd = 2_000_000 * USD;
	d.evaluation_round_info.total_bonded_usd = if flag("evaluated") { 400_000 * USD } else { 0 };
	let m = meta(alloc, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	Buckets::<Test>::insert(P, bucket(alloc / 20, price(10_000), price(10_000), alloc / 20));
	set_now(now);
	fund(pot(P), 1 << 60);
	fund(92, 1 << 60);
	let who = if flag("issuer") { ISSUER } else { 7 };
	cred(who, if who == ISSUER { 1 } else { 7 }, 2, 1);
	let waiting = choice("waiting", 2);
	UnmigratedCounter::<Test>::insert(P, waiting);
	let r = tx(|| match call {
		0 => Funding::start_evaluation(signed(who), jwt(), P).map(|_| ()),
		1 => Funding::end_evaluation(signed(who), P).map(|_| ()),
		2 => Funding::end_auction(signed(who), P).map(|_| ()).map_err(|e| e.error),
		3 => Funding::end_funding(signed(who), P),
		4 => Funding::start_settlement(signed(who), P),
		5 => Funding::mark_project_as_settled(signed(who), P),
		6 => Funding::start_offchain_migration(signed(who), jwt(), P),
		7 => Funding::start_pallet_migration(signed(who), jwt(), P, 77u32.into()),
		_ => Funding::mark_project_ct_migration_as_finished(signed(who), P),
	});
	use ProjectStatus::*;
	let s = get(P).status;
	let from = statuses(state);
	if r.is_ok() {
		let fits = match (&from, &s, call) {
			(Application, EvaluationRound, 0) => who == ISSUER,
			(EvaluationRound, AuctionRound | FundingFailed, 1) => rest || now >= 24,
			(AuctionRound, CommunityRound(_), 2) => rest || now >= 24,
			(CommunityRound(_), FundingSuccessful | FundingFailed, 3) => left == 0 || rest || now >= 24,
			(FundingSuccessful, SettlementStarted(FundingOutcome::Success), 4) => true,
			(FundingFailed, SettlementStarted(FundingOutcome::Failure), 4) => true,
			(SettlementStarted(a), SettlementFinished(b), 5) => a == b,
			(SettlementFinished(FundingOutcome::Success), CTMigrationStarted, 6 | 7) => who == ISSUER,
			(CTMigrationStarted, CTMigrationFinished, 8) => waiting == 0,
			_ => false,
		};
		check(fits, "F10: a project only goes on to the next stage, when that is due");
		reach("step");
	} else {
		check(get(P) == d, "F10: a refused step changes nothing");
		reach("refused");
	}
	check(untouched(&d), "F10: other projects are not touched");
}
/// the issuer confirms migrations done off the chain
pub fn confirm() {
	let state = choice("state", 12);
	let off = flag("offchain");
	let n = any("waiting", 2, 1 << 20) as u32;
	let was = choice("status", 2);
	let mut d = details(statuses(state), 1 << 50, 0);
	d.migration_type = if off { Some(MigrationType::Offchain) } else { None };
	let m = meta(1 << 70, price(10_000));
	put(P, &m, &d);
	neighbour(&m, &d);
	UnmigratedCounter::<Test>::insert(P, n);
	UnmigratedCounter::<Test>::insert(Q, n);
	let mut v = frame_support::BoundedVec::new();
	let ct = any("ct", 1, 1 << 60);
	for id in 0..pick("participations", &[1u32, 2, 3]) {
		v.try_push(Migration::new(
			MigrationOrigin { user: xcm::v4::Location::here(), id, participation_type: ParticipationType::Bid },
			(ct, 6).into(),
		))
		.unwrap();
	}
	let st = if was == 0 { MigrationStatus::NotStarted } else { MigrationStatus::Confirmed };
	for (p, w) in [(P, 2u128), (P, 3), (Q, 2)] {
		UserMigrations::<Test>::insert((p, w), (st.clone(), v.clone()));
	}
	let who = any("caller", 0, 1 << 100);
	let part = pick("participant", &[2u128, 5]);
	let r = tx(|| Funding::confirm_offchain_migration(signed(who), P, part));
	if r.is_ok() {
		check(who == ISSUER && state == 10 && off, "F09: only the issuer confirms, during an off-chain migration");
		check(part == 2 && was == 0, "F09: a migration is confirmed once");
		check(UserMigrations::<Test>::get((P, 2)) == Some((MigrationStatus::Confirmed, v.clone())), "F09: a confirmed migration keeps its tokens");
		check(UnmigratedCounter::<Test>::get(P) == n - 1, "F09: users whose tokens are still to migrate are counted");
		reach("confirmed");
	} else {
		check(!(who == ISSUER && state == 10 && off && part == 2 && was == 0), "F09: the issuer can confirm every migration");
		check(UnmigratedCounter::<Test>::get(P) == n && UserMigrations::<Test>::get((P, 2)) == Some((st.clone(), v.clone())), "F09: a refused call changes nothing");
		reach("refused");
	}
	check(get(P) == d && untouched(&d) && UnmigratedCounter::<Test>::get(Q) == n && UserMigrations::<Test>::get((P, 3)) == Some((st.clone(), v.clone())) && UserMigrations::<Test>::get((Q, 2)) == Some((st, v)), "F09: others' migrations are not touched");
}

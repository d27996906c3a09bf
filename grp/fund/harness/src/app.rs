//! Project metadata, creation, editing, removal, start of the evaluation.
use crate::{base::*, mock::*};
use alloc::vec;
use pallet_funding::*;
use sp_runtime::{FixedU128, Percent};
use symrt::*;

/// dollars per token (18 digits), when the price per smallest unit is `p`
fn original(p: u128, dec: u32) -> Option<u128> {
	if dec >= 6 {
		p.checked_mul(10u128.pow(dec - 6))
	} else {
		Some(p / 10u128.pow(6 - dec))
	}
}
/// the rules of the metadata, for a price and allocation whose product is `target`
fn rules(m: &Meta, target: u128) -> bool {
	let size = |t: &TicketSize, least: u128| {
		t.usd_minimum_per_participation >= least && t.usd_maximum_per_did.map_or(true, |x| x >= t.usd_minimum_per_participation)
	};
	let dec = m.token_information.decimals as u32;
	let c = &m.participation_currencies;
	let p = m.minimum_price.into_inner();
	p > 0 && size(&m.bidding_ticket_sizes.professional, 5000 * USD) &&
		size(&m.bidding_ticket_sizes.institutional, 5000 * USD) &&
		size(&m.contributing_ticket_sizes.retail, USD) &&
		size(&m.contributing_ticket_sizes.professional, USD) &&
		size(&m.contributing_ticket_sizes.institutional, USD) &&
		dec >= 6 && dec <= 18 &&
		m.total_allocation_size > 0 &&
		m.total_allocation_size <= m.mainnet_token_max_supply &&
		m.total_allocation_size >= 10u128.pow(dec) &&
		m.auction_round_allocation_percentage > Percent::from_percent(0) &&
		(0..c.len()).all(|i| (0..i).all(|j| c[i] != c[j])) &&
		target >= 1000 * USD &&
		target <= 1_000_000_000 * USD &&
		original(p, dec).map_or(false, |o| o >= U / 100_000 && o <= 1000 * U)
}
fn verdict(m: &Meta, target: u128) {
	let r = m.is_valid();
	check(r.is_ok() == rules(m, target), "F01: metadata is valid exactly when every rule holds");
	if r.is_ok() {
		reach("valid")
	} else {
		reach("invalid")
	}
}
fn ticket(name: &'static str, flag: bool) -> TicketSize {
	let min = any(name, 0, 1 << 40);
	TicketSize::new(min, if flag { Some(any("max", 0, 1 << 40)) } else { None })
}
/// one of the ticket sizes symbolic
fn tickets(m: &mut Meta) {
	let k = choice("ticket", 6);
	let capped = flag("capped");
	let t = ticket("min", capped);
	match k {
		0 => m.bidding_ticket_sizes.professional = t,
		1 => m.bidding_ticket_sizes.institutional = t,
		2 => m.contributing_ticket_sizes.retail = t,
		3 => m.contributing_ticket_sizes.professional = t,
		4 => m.contributing_ticket_sizes.institutional = t,
		_ => (),
	}
}
pub fn valid() {
	let (p, dec) = pick("price", &[(U / 1000, 10u8), (U / 1_000_000_000_000_000_000, 18), (U / 100_000, 6), (1000 * U, 6), (U, 5), (100, 19), (0, 10)]);
	let mut m = meta(any("allocation", 0, 1 << 100), FixedU128::from_inner(p));
	m.token_information.decimals = dec;
	m.mainnet_token_max_supply = any("supply", 0, 1 << 100);
	m.auction_round_allocation_percentage = Percent::from_percent(pick("percentage", &[50, 1, 0, 100]));
	if m.auction_round_allocation_percentage == Percent::from_percent(50) {
		tickets(&mut m);
	}
	use AcceptedFundingAsset::*;
	if m.auction_round_allocation_percentage == Percent::from_percent(100) {
		m.participation_currencies =
			pick("currencies", &[vec![USDT], vec![USDT, USDC], vec![USDT, DOT, USDT], vec![DOT, DOT], vec![], vec![DOT, USDC, USDT]]).try_into().unwrap();
	}
	let target = at(m.minimum_price, m.total_allocation_size);
	verdict(&m, target);
}
pub fn valid_price() {
	let (a, dec) = pick("allocation", &[(1_000_000_000_000u128, 6u8), (10_000_000_000_000_000, 10), (1_000_000_000_000_000_000_000_000, 18), (10_000_000_000_000, 13)]);
	let p = any("price", 0, 1 << 100);
	let mut m = meta(a, FixedU128::from_inner(p));
	m.token_information.decimals = dec;
	let target = p / U * a + p % U * (a / U) + p % U * (a % U) / U;
	verdict(&m, target);
}

fn invalid(m: &mut Meta) -> bool {
	let bad = flag("invalid");
	if bad {
		m.bidding_ticket_sizes.professional.usd_minimum_per_participation = 1;
	}
	bad
}
fn ranged() -> (Meta, u128) {
	// a dollar each, 10 decimals: from a thousand dollars on
	let a = any("allocation", 10_000_000_000_000, 1 << 60);
	let m = meta(a, price(1000));
	let target = at(m.minimum_price, a);
	assume(target >= 1000 * USD && target <= 1_000_000_000 * USD);
	(m, target)
}
fn fresh(m: &Meta, target: u128) -> (Details, BucketOf<Test>) {
	let a = m.total_allocation_size;
	let auction = pct(50, a);
	(details(ProjectStatus::Application, target, a), bucket(auction, m.minimum_price, m.minimum_price, pct(10, auction)))
}
pub fn create() {
	let (mut m, target) = ranged();
	let bad = invalid(&mut m);
	let money = any("money", 0, 1 << 60);
	let ed = any("ed", 1, 1 << 40);
	let k = choice("investor", 3) as u8;
	let active = flag("active");
	let next = any("next", 0, 100) as u32;
	Ed::set(ed);
	assume(money == 0 || money >= ed);
	fund(ISSUER, money);
	NextProjectId::<Test>::put(next);
	if active {
		DidWithActiveProjects::<Test>::insert(did(1), 200);
	}
	cred(ISSUER, 1, k, 1);
	let r = tx(|| Funding::create_project(signed(ISSUER), jwt(), m.clone()));
	if r.is_ok() {
		check(k == 2, "F01: only institutions create projects");
		check(!active, "F01: an issuer has one active project at a time");
		check(!bad, "F01: only valid projects are created");
		let (d, b) = fresh(&m, target);
		check(get(next) == d, "F01: a project starts as an application, with everything unsold");
		check(Buckets::<Test>::get(next) == Some(b), "F01: the auction starts with its whole allocation at the minimum price");
		check(ProjectsMetadata::<Test>::get(next) == Some(m), "F01: the metadata is stored as given");
		check(NextProjectId::<Test>::get() == next + 1, "F01: project numbers are not reused");
		check(DidWithActiveProjects::<Test>::get(did(1)) == Some(next), "F01: the issuer's project is active");
		check(free(pot(next)) == ed && free(ISSUER) == money - ed, "F01: the issuer pays for the escrow account");
		reach("created");
	} else {
		check(k != 2 || active || bad || money < 2 * ed, "F01: an institution can create a valid project");
		check(NextProjectId::<Test>::get() == next && ProjectsDetails::<Test>::get(next).is_none(), "F01: a refused call changes nothing");
		check(free(ISSUER) == money && DidWithActiveProjects::<Test>::get(did(1)) == if active { Some(200) } else { None }, "F01: a refused call changes nothing");
		reach("refused");
	}
}
/// editing and removal
pub fn edit() {
	let remove = flag("remove");
	let (mut m, target) = ranged();
	let bad = !remove && invalid(&mut m);
	let state = choice("state", 3);
	let caller = pick("caller", &[ISSUER, 2]);
	// the credentials may be newer than the project: another did for the same account
	let d2 = if caller == ISSUER && flag("new did") { 3 } else { caller as u8 };
	let k = choice("investor", 3) as u8;
	let old = meta(1 << 50, price(2000));
	let mut d = details([ProjectStatus::Application, ProjectStatus::EvaluationRound, ProjectStatus::FundingFailed][state as usize].clone(), 1 << 40, 1 << 50);
	let b = bucket(5, price(2000), price(2000), 1);
	put(P, &old, &d);
	Buckets::<Test>::insert(P, b);
	DidWithActiveProjects::<Test>::insert(did(1), P);
	DidWithActiveProjects::<Test>::insert(did(2), Q);
	if d2 == 3 {
		DidWithActiveProjects::<Test>::insert(did(3), Q);
	}
	neighbour(&old, &d);
	let q = d.clone();
	cred(caller, d2, k, 1);
	let r = tx(|| if remove { Funding::remove_project(signed(caller), jwt(), P) } else { Funding::edit_project(signed(caller), jwt(), P, m.clone()) });
	let active = |n| DidWithActiveProjects::<Test>::get(did(n));
	if r.is_ok() {
		check(k == 2 && caller == ISSUER, "F01: only the issuer edits or removes a project");
		check(state == 0, "F01: a project that has started is not changed any more");
		if remove {
			check(ProjectsDetails::<Test>::get(P).is_none() && ProjectsMetadata::<Test>::get(P).is_none() && Buckets::<Test>::get(P).is_none(), "F01: a removed project is gone");
			check(active(1).is_none(), "F01: the issuer of a removed project may create another");
			reach("removed");
		} else {
			check(!bad, "F01: a project is only changed to a valid one");
			let (n, b) = fresh(&m, target);
			d = n;
			check(get(P) == d && Buckets::<Test>::get(P) == Some(b) && ProjectsMetadata::<Test>::get(P) == Some(m), "F01: an edited project is as if created like that");
			check(active(1) == Some(P), "F01: an edited project stays active");
			reach("edited");
		}
		check(d2 != 3 || active(3) == Some(Q), "F01: other issuers' active projects are not touched");
	} else {
		check(k != 2 || caller != ISSUER || state != 0 || bad, "F01: the issuer can edit and remove an application");
		check(get(P) == d && ProjectsMetadata::<Test>::get(P) == Some(old) && Buckets::<Test>::get(P) == Some(b), "F01: a refused call changes nothing");
		check(active(1) == Some(P), "F01: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&q) && active(2) == Some(Q), "F01: other issuers' active projects are not touched");
}
pub fn start() {
	let now = any("now", 0, 1 << 40) as u64;
	let state = choice("state", 3);
	let caller = pick("caller", &[ISSUER, 2]);
	let k = choice("investor", 3) as u8;
	let policy = flag("policy");
	set_now(now);
	let mut m = meta(1 << 50, price(2000));
	if !policy {
		m.policy_ipfs_cid = None;
	}
	let mut d = details([ProjectStatus::Application, ProjectStatus::EvaluationRound, ProjectStatus::FundingFailed][state as usize].clone(), 1 << 40, 1 << 50);
	put(P, &m, &d);
	neighbour(&m, &d);
	let q = d.clone();
	cred(caller, caller as u8, k, 1);
	let r = tx(|| Funding::start_evaluation(signed(caller), jwt(), P));
	if r.is_ok() {
		check(k == 2 && caller == ISSUER, "F01: only the issuer starts the evaluation");
		check(policy, "F01: there is no evaluation without a policy");
		check(state == 0, "F01: a project starts once");
		d.is_frozen = true;
		check(get(P) == moved(d, now, ProjectStatus::EvaluationRound, Some(10)), "F01: a started project is frozen, and in its evaluation round");
		reach("started");
	} else {
		check(k != 2 || caller != ISSUER || state != 0 || !policy, "F01: the issuer can start a project with a policy");
		check(get(P) == d, "F01: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&q), "F01: other projects are not touched");
}

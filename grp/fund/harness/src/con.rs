//! The community round: contributions at the weighted average price.
use crate::{auc::a_bid, auc::sub_account, base::*, mock::*};
use pallet_funding::*;
use sp_runtime::{FixedU128, Perbill};
use symrt::*;

pub fn a_con(id: u32, who: u128, d: u8, ct: u128) -> ContributionInfoOf<Test> {
	ContributionInfo {
		id,
		did: did(d),
		project_id: P,
		contributor: who,
		ct_amount: ct,
		usd_contribution_amount: 0,
		mode: ParticipationMode::Classic(1),
		funding_asset: AcceptedFundingAsset::USDT,
		funding_asset_amount: 0,
		plmc_bond: 0,
		when: 1,
	}
}
pub fn contribute() {
	let mk = market(1);
	let part = choice("part", 3);
	let ct = any("ct", 0, 1 << 64);
	let left = any("left", 0, 1 << 60);
	let wap = price(10_000 + 350 * choice("wap", 2) as u128);
	let k = if part == 0 { choice("investor", 3) } else { 1 } as u8;
	let mode = if part == 0 {
		pick("mode", &[ParticipationMode::OTM, ParticipationMode::Classic(0), ParticipationMode::Classic(5), ParticipationMode::Classic(6), ParticipationMode::Classic(10), ParticipationMode::Classic(11), ParticipationMode::Classic(25), ParticipationMode::Classic(26)])
	} else {
		ParticipationMode::Classic(3)
	};
	let asset = if part == 1 { pick("asset", &[AcceptedFundingAsset::USDT, AcceptedFundingAsset::USDC, AcceptedFundingAsset::DOT]) } else { AcceptedFundingAsset::USDT };
	let who = if part == 1 { choice("who", 3) } else { 2 };
	let state = if part == 1 { choice("state", 3) } else { 0 };
	let now = if part == 1 { any("now", 0, 60) as u64 } else { 12 };
	let mine = if part == 1 { choice("mine", 3) } else { 0 };
	let winner = part == 1 && flag("winner");
	let before = if part == 2 { any("bought", 0, 1 << 60) } else { 0 };
	let cap = if part == 2 && flag("cap") { Some(any("cap at", 0, 1 << 60)) } else { None };
	let min = if part == 2 { any("minimum", 0, 1 << 60) } else { 20 * USD };
	let plmc = if part == 2 { any("plmc", 0, 1 << 80) } else { 1 << 100 };
	let money = if part == 2 { any("money", 0, 1 << 80) } else { 1 << 100 };
	let reached = any("reached", 0, 1 << 70);
	set_now(now);
	let mut d = details(if state == 1 { ProjectStatus::AuctionRound } else if state == 2 { ProjectStatus::FundingSuccessful } else { ProjectStatus::CommunityRound(20) }, 1 << 50, left);
	d.round_duration = BlockNumberPair::new(Some(10), Some(24));
	d.weighted_average_price = Some(wap);
	d.funding_amount_reached_usd = reached;
	let mut m = meta(1 << 70, price(10_000));
	m.contributing_ticket_sizes.professional = TicketSize::new(min, cap);
	put(P, &m, &d);
	neighbour(&m, &d);
	for i in 0..mine {
		Contributions::<Test>::insert((P, 2, i), a_con(i, 2, 2, 1));
	}
	Contributions::<Test>::insert((Q, 2, 5), a_con(5, 2, 2, 1));
	NextContributionId::<Test>::put(8);
	DidWithWinningBids::<Test>::insert(P, did(2), winner);
	DidWithWinningBids::<Test>::insert(Q, did(2), true);
	ContributionBoughtUSD::<Test>::insert((P, did(2)), before);
	ContributionBoughtUSD::<Test>::insert((Q, did(2)), 5);
	cred(2, if who == 0 { 1 } else { 2 }, k, if who == 1 { 2 } else { 1 });
	fund(2, plmc);
	fund(90, 1 << 100);
	let plmc = free(2);
	Assets::give(asset.id(), 2, money);
	let r = tx(|| Funding::contribute(signed(2), jwt(), P, ct, mode, asset));
	let buy = if ct < left { ct } else { left };
	let usd = at(wap, buy);
	let mult = mode.multiplier() as u128;
	let bond = if mult > 0 { mk.bond(mult, usd) } else { 0 };
	let lock = mk.asset(asset, usd);
	let otm = mode == ParticipationMode::OTM;
	let fee = if otm { at(mk.usdt, Perbill::from_percent(5) * at(FixedU128::from_inner(U / 2 / 10_000), bond)) } else { 0 };
	let round = state == 0 && now >= 10 && now < 24;
	let min = if k == 1 { min } else { [10, 20, 30][k as usize] * USD };
	let sized = (usd >= min || buy == left) && (k != 1 || cap.map_or(true, |c| before + usd <= c));
	let multi = mult > 0 && mult <= [5, 10, 25][k as usize];
	let assets = asset != AcceptedFundingAsset::USDC;
	if r.is_ok() {
		check(round, "F05: contributions are only taken in the community round");
		check(!winner || now >= 20 || who == 0, "F05: who won in the auction waits for the remainder");
		check(who != 0, "F05: nobody contributes to their own project");
		check(who != 1, "F05: a contributor needs the project's policy");
		check(assets, "F05: only the project's currencies are taken");
		check(mine < 2, "F05: the number of contributions per user is limited");
		check(sized, "F05: contributions keep to the ticket sizes, but the last may be small");
		check(multi, "F05: the multiplier is within the investor's limit");
		check(buy > 0, "F05: a contribution is for something");
		let c = Contributions::<Test>::get((P, 2, 8)).unwrap();
		let mut e = a_con(8, 2, 2, buy);
		e.usd_contribution_amount = usd;
		e.mode = mode;
		e.funding_asset = asset;
		e.funding_asset_amount = lock;
		e.plmc_bond = bond;
		e.when = now;
		check(c == e, "F05: a contribution is recorded at the weighted average price, with its bond and money");
		check(Assets::of(asset.id(), 2) == money - lock - fee && Assets::of(asset.id(), pot(P)) == lock, "F05: the money goes to the escrow account");
		check(held(2, HoldReason::Participation) == if otm { 0 } else { bond } && total(2) == plmc, "F05: exactly the bond is held");
		check(held(sub_account(), HoldReason::Participation) == if otm { bond } else { 0 }, "F05: without a bond of their own, contributors have the treasury bond for a fee");
		let mut e = d.clone();
		e.remaining_contribution_tokens = left - buy;
		e.funding_amount_reached_usd = reached + usd;
		check(get(P) == e, "F05: what is sold and raised is counted");
		check(NextContributionId::<Test>::get() == 9 && ContributionBoughtUSD::<Test>::get((P, did(2))) == before + usd, "F05: what a did contributed is summed");
		reach("contributed");
	} else {
		check(!(round && (!winner || now >= 20) && who == 2 && assets && mine < 2 && sized && multi && buy > 0 && (otm || plmc > bond) && money > lock + fee), "F05: a contribution within the rules is taken");
		check(Assets::of(asset.id(), 2) == money && free(2) == plmc && get(P) == d && NextContributionId::<Test>::get() == 8, "F05: a refused contribution changes nothing");
		reach("refused");
	}
	check(untouched(&d) && ContributionBoughtUSD::<Test>::get((Q, did(2))) == 5, "F05: other projects are not touched");
	let _ = a_bid;
}

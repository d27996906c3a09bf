//! The auction: bids, buckets, winning bids, the weighted average price.
use crate::{base::*, mock::*};
use alloc::{vec, vec::Vec};
use pallet_funding::*;
use sp_runtime::FixedU128;
use symrt::*;

pub fn a_bid(id: u32, who: u128, d: u8, ct: u128, p: FixedU128) -> BidInfoOf<Test> {
	BidInfo {
		id,
		project_id: P,
		bidder: who,
		did: did(d),
		status: BidStatus::YetUnknown,
		original_ct_amount: ct,
		original_ct_usd_price: p,
		funding_asset: AcceptedFundingAsset::USDT,
		funding_asset_amount_locked: 0,
		mode: ParticipationMode::Classic(1),
		plmc_bond: 0,
		when: 1,
	}
}
/// a bid that one bucket can take, under every rule
pub fn bid() {
	let mk = market(1);
	let part = choice("part", 3);
	let ct = any("ct", 0, 1 << 64);
	let left = any("left", 1, 1 << 60);
	let alloc = any("allocation", 1000, 1 << 66);
	assume(ct <= left && left <= pct(50, alloc));
	let step = choice("bucket", 2) as u128 * 3;
	let cur = price(10_000 + 1000 * step);
	let delta = any("delta", 1, 1 << 60);
	assume(step == 0 || left <= delta);
	// part 0: who bids and how; part 1: when, and how often; part 2: how much
	let k = if part == 0 { choice("investor", 3) } else { 2 } as u8;
	let mode = if part == 0 {
		pick("mode", &[ParticipationMode::OTM, ParticipationMode::Classic(0), ParticipationMode::Classic(1), ParticipationMode::Classic(10), ParticipationMode::Classic(11), ParticipationMode::Classic(25), ParticipationMode::Classic(26)])
	} else {
		ParticipationMode::Classic(3)
	};
	let asset = if part == 1 { pick("asset", &[AcceptedFundingAsset::USDT, AcceptedFundingAsset::USDC, AcceptedFundingAsset::DOT]) } else { AcceptedFundingAsset::USDT };
	let who = if part == 1 { choice("who", 3) } else { 2 };
	let state = if part == 1 { choice("state", 3) } else { 0 };
	let now = if part == 1 { any("now", 0, 40) as u64 } else { 12 };
	let mine = if part == 1 { choice("mine", 4) } else { 0 };
	let all = if part == 1 { any("bids", mine as u128, 5) as u32 } else { mine };
	let before = if part == 2 { any("bought", 0, 1 << 60) } else { 0 };
	let cap = if part == 2 && flag("cap") { Some(any("cap at", 0, 1 << 60)) } else { None };
	let min = if part == 2 { any("minimum", 0, 1 << 60) } else { 6000 * USD };
	let plmc = if part == 2 { any("plmc", 0, 1 << 80) } else { 1 << 100 };
	let money = if part == 2 { any("money", 0, 1 << 80) } else { 1 << 100 };
	set_now(now);
	let mut d = details(if state == 2 { ProjectStatus::EvaluationRound } else { ProjectStatus::AuctionRound }, 1 << 50, alloc);
	d.round_duration = BlockNumberPair::new(Some(10), if state == 1 { None } else { Some(24) });
	let mut m = meta(alloc, price(10_000));
	m.bidding_ticket_sizes.institutional = TicketSize::new(min, cap);
	let bk = bucket(left, cur, price(10_000), delta);
	put(P, &m, &d);
	neighbour(&m, &d);
	Buckets::<Test>::insert(P, bk);
	Buckets::<Test>::insert(Q, bk);
	for i in 0..mine {
		Bids::<Test>::insert((P, 2, i), a_bid(i, 2, 2, 1, cur));
	}
	BidCounts::<Test>::insert(P, all);
	NextBidId::<Test>::put(8);
	AuctionBoughtUSD::<Test>::insert((P, did(2)), before);
	AuctionBoughtUSD::<Test>::insert((Q, did(2)), 5);
	cred(2, if who == 0 { 1 } else { 2 }, k, if who == 1 { 2 } else { 1 });
	fund(2, plmc);
	fund(90, 1 << 100);
	let plmc = free(2);
	Assets::give(asset.id(), 2, money);
	let r = tx(|| Funding::bid(signed(2), jwt(), P, ct, mode, asset));
	let usd = at(cur, ct);
	let mult = mode.multiplier() as u128;
	let bond = if mult > 0 { mk.bond(mult, usd) } else { 0 };
	let lock = mk.asset(asset, usd);
	let fee = sp_runtime::Perbill::from_percent(5) * at(FixedU128::from_inner(U / 2 / 10_000), bond);
	let otm = mode == ParticipationMode::OTM;
	let fee = if otm { at(mk.usdt, fee) } else { 0 };
	let round = state == 0 && now >= 10 && now < 24;
	let limits = mine < 3 && all < 4;
	let sized = usd >= if k == 2 { min } else { 5000 * USD } && cap.map_or(true, |c| before + usd <= c);
	let multi = mult > 0 && mult <= [0, 10, 25][k as usize];
	let assets = asset != AcceptedFundingAsset::USDC;
	if r.is_ok() {
		check(round, "F03: bids are only taken in the auction round");
		check(k > 0, "F03: retail investors do not bid");
		check(who != 0, "F03: nobody bids on their own project");
		check(who != 1, "F03: a bidder needs the project's policy");
		check(assets, "F03: only the project's currencies are taken");
		check(limits, "F03: the number of bids is limited, per user and project");
		check(sized, "F03: bids keep to the ticket sizes, also summed over the bidder's did");
		check(multi, "F03: the multiplier is within the investor's limit");
		check(ct > 0, "F03: a bid is for something");
		let b = Bids::<Test>::get((P, 2, 8)).unwrap();
		let mut e = a_bid(8, 2, 2, ct, cur);
		e.funding_asset = asset;
		e.funding_asset_amount_locked = lock;
		e.mode = mode;
		e.plmc_bond = bond;
		e.when = now;
		check(b == e, "F03: a bid is recorded at the bucket's price, with its bond and money");
		check(Assets::of(asset.id(), 2) == money - lock - fee && Assets::of(asset.id(), pot(P)) == lock, "F03: the money goes to the escrow account");
		check(held(2, HoldReason::Participation) == if otm { 0 } else { bond } && total(2) == plmc, "F03: exactly the bond is held");
		let sub: u128 = sub_account();
		check(held(sub, HoldReason::Participation) == if otm { bond } else { 0 }, "F03: without a bond of their own, bidders have the treasury bond for a fee");
		let n = Buckets::<Test>::get(P).unwrap();
		check(n == if ct == left { bucket(delta, price(11_000 + 1000 * step), price(10_000), delta) } else { bucket(left - ct, cur, price(10_000), delta) }, "F03: the bucket is emptied, and the next costs a tenth of the minimum price more");
		check(BidCounts::<Test>::get(P) == all + 1 && NextBidId::<Test>::get() == 9, "F03: bids are counted");
		check(AuctionBoughtUSD::<Test>::get((P, did(2))) == before + usd, "F03: what a did bid is summed");
		reach("bid");
	} else {
		check(!(round && k > 0 && who == 2 && assets && limits && sized && multi && ct > 0 && (otm || plmc > bond) && money > lock + fee), "F03: a bid within the rules is taken");
		check(Assets::of(asset.id(), 2) == money && free(2) == plmc && Buckets::<Test>::get(P) == Some(bk) && NextBidId::<Test>::get() == 8, "F03: a refused bid changes nothing");
		reach("refused");
	}
	check(get(P) == d && untouched(&d) && Buckets::<Test>::get(Q) == Some(bk) && AuctionBoughtUSD::<Test>::get((Q, did(2))) == 5, "F03: other projects are not touched");
	let _ = &mut d;
}
pub fn sub_account() -> u128 {
	sp_runtime::traits::AccountIdConversion::into_sub_account_truncating(&frame_support::PalletId(*b"plmc/prx"), P + 1)
}
/// a bid over several buckets
pub fn split() {
	let mk = market(2);
	let delta = any("delta", 1, 1 << 50);
	let first = flag("first");
	let left = any("left", 1, 1 << 54);
	let step = if first { 0 } else { 2 };
	assume(if first { left <= 10 * delta } else { left <= delta });
	let ct = any("ct", 1, 1 << 54);
	let alloc = 20 * delta;
	assume(ct <= 10 * delta && ct > left);
	let mine = choice("mine", 3);
	let all = any("bids", mine as u128, 4) as u32;
	let cap = any("cap at", 0, 1 << 60);
	let mut d = details(ProjectStatus::AuctionRound, 1 << 50, alloc);
	d.round_duration = BlockNumberPair::new(Some(10), Some(24));
	set_now(12);
	let mut m = meta(alloc, price(10_000));
	m.bidding_ticket_sizes.institutional = TicketSize::new(0, Some(cap));
	let cur = price(10_000 + 1000 * step);
	put(P, &m, &d);
	Buckets::<Test>::insert(P, bucket(left, cur, price(10_000), delta));
	for i in 0..mine {
		Bids::<Test>::insert((P, 2, i), a_bid(i, 2, 2, 1, cur));
	}
	BidCounts::<Test>::insert(P, all);
	NextBidId::<Test>::put(8);
	cred(2, 2, 2, 1);
	fund(2, 1 << 100);
	Assets::give(1984, 2, 1 << 100);
	let r = tx(|| Funding::bid(signed(2), jwt(), P, ct, ParticipationMode::Classic(2), AcceptedFundingAsset::USDT));
	// the parts
	let mut parts: Vec<(u128, u128)> = vec![(left, step)];
	let mut rest = ct - left;
	let mut over = false;
	while rest > 0 {
		if parts.len() >= 4 {
			over = true;
			break;
		}
		let x = if rest < delta { rest } else { delta };
		parts.push((x, step + parts.len() as u128));
		rest -= x;
	}
	let n = parts.len() as u32;
	let (mut usd, mut bond, mut lock) = (0, 0, 0);
	for (x, s) in &parts {
		let u = at(price(10_000 + 1000 * s), *x);
		usd += u;
		bond += mk.bond(2, u);
		lock += mk.asset(AcceptedFundingAsset::USDT, u);
	}
	if r.is_ok() {
		check(!over && mine + n <= 3 && all + n <= 4, "F03: the number of bids is limited, per user and project");
		check(usd <= cap, "F03: bids keep to the ticket sizes, also summed over the bidder's did");
		let mut i = 8;
		for (x, s) in &parts {
			let b = Bids::<Test>::get((P, 2, i)).unwrap();
			let p = price(10_000 + 1000 * s);
			let u = at(p, *x);
			check(b.original_ct_amount == *x && b.original_ct_usd_price == p, "F03: a bid beyond its bucket goes on in the next, at the next price");
			check(b.plmc_bond == mk.bond(2, u) && b.funding_asset_amount_locked == mk.asset(AcceptedFundingAsset::USDT, u), "F03: a bid is recorded at the bucket's price, with its bond and money");
			i += 1;
		}
		check(Bids::<Test>::iter_prefix_values((P, 2)).map(|b| if b.id >= 8 { b.original_ct_amount } else { 0 }).sum::<u128>() == ct, "F03: the parts of a bid add up to it");
		check(Assets::of(1984, pot(P)) == lock && held(2, HoldReason::Participation) == bond, "F03: the money goes to the escrow account");
		check(AuctionBoughtUSD::<Test>::get((P, did(2))) == usd, "F03: what a did bid is summed");
		check(BidCounts::<Test>::get(P) == all + n && NextBidId::<Test>::get() == 8 + n, "F03: bids are counted");
		let b = Buckets::<Test>::get(P).unwrap();
		let (x, s) = parts[n as usize - 1];
		check(b == if x == delta { bucket(delta, price(11_000 + 1000 * s), price(10_000), delta) } else { bucket(delta - x, price(10_000 + 1000 * s), price(10_000), delta) }, "F03: the bucket is emptied, and the next costs a tenth of the minimum price more");
		reach("split");
	} else {
		check(over || mine + n > 3 || all + n > 4 || usd > cap, "F03: a bid within the rules is taken");
		check(Assets::of(1984, pot(P)) == 0 && NextBidId::<Test>::get() == 8, "F03: a refused bid changes nothing");
		reach("refused");
	}
}
/// evaluation bonds count for the participation bond, but for the part that could be slashed
pub fn reuse() {
	let need = any("bond", 0, 1 << 60);
	let money = any("money", 1, 1 << 70);
	let mut sum = 0;
	let mut es = Vec::new();
	for i in 0..2u32 {
		let o = any("original", 0, 1 << 60);
		let c = any("current", 0, 1 << 60);
		// what was converted before left the slashable part
		assume(c <= o && c >= pct(20, o));
		sum += c;
		let e = EvaluationInfo {
			id: 5 + i,
			did: did(2),
			project_id: P,
			evaluator: 2u128,
			original_plmc_bond: o,
			current_plmc_bond: c,
			early_usd_amount: 1,
			late_usd_amount: 0,
			when: 1u64,
		};
		Evaluations::<Test>::insert((P, 2, 5 + i), &e);
		Evaluations::<Test>::insert((Q, 2, 5 + i), &e);
		es.push(e);
	}
	let spare = any("others", 0, 1 << 60);
	fund(2, money + sum + spare);
	hold(2, HoldReason::Evaluation, sum + spare);
	let before = free(2);
	assume(before == money);
	let r = tx(|| Funding::bond_plmc_with_mode(&2, P, need, ParticipationMode::Classic(1), AcceptedFundingAsset::USDT));
	let mut avail = 0;
	for e in &es {
		avail += e.current_plmc_bond - pct(20, e.original_plmc_bond);
	}
	let conv = if need < avail { need } else { avail };
	if r.is_ok() {
		check(held(2, HoldReason::Participation) == need, "F03: exactly the bond is held");
		check(total(2) == money + sum + spare && held(2, HoldReason::Evaluation) == sum + spare - conv, "F03: an evaluation bond is used for a bid before other money");
		let mut now = 0;
		for e in &es {
			let n = Evaluations::<Test>::get((P, 2, e.id)).unwrap();
			check(n.current_plmc_bond >= pct(20, e.original_plmc_bond) && n.current_plmc_bond <= e.current_plmc_bond, "F03: what could be slashed from an evaluation stays bonded");
			now += n.current_plmc_bond;
			let mut x = n.clone();
			x.current_plmc_bond = e.current_plmc_bond;
			check(x == *e, "F03: an evaluation keeps everything but the bond that was used");
			check(Evaluations::<Test>::get((Q, 2, e.id)) == Some(e.clone()), "F03: evaluations of other projects are not used");
		}
		check(now == sum - conv, "F03: an evaluation bond is used for a bid before other money");
		reach("bonded");
	} else {
		check(need - conv >= money, "F03: a bidder with the money for the bond can bond it");
		check(held(2, HoldReason::Evaluation) == sum + spare, "F03: a refused bond changes nothing");
		reach("refused");
	}
}
/// the end of the auction: three bids, two bidders
pub fn decide() {
	let kw = choice("wap", 2) as u128;
	let alloc = any("allocation", 1_000_000_000_000, 1 << 62);
	let now = any("now", 0, 40) as u64;
	let state = flag("state");
	set_now(now);
	let auction = pct(50, alloc);
	let m = meta(alloc, price(10_000));
	let mut d = details(if state { ProjectStatus::AuctionRound } else { ProjectStatus::EvaluationRound }, 1 << 50, alloc);
	d.round_duration = BlockNumberPair::new(Some(10), Some(24));
	put(P, &m, &d);
	neighbour(&m, &d);
	let q = d.clone();
	let p0 = price(10_000);
	// the first bucket still open: the price is the minimum; else as the wap harness says
	let delta = if kw == 0 { 7 } else { auction };
	let bk = if kw == 0 { bucket(3, p0, p0, delta) } else { bucket(auction, price(11_000), p0, delta) };
	Buckets::<Test>::insert(P, bk);
	let wap = bk.calculate_wap(auction);
	let mut bids = Vec::new();
	for i in 0..3u32 {
		let who = 2 + (i % 2) as u128;
		let p = price(10_000 + 1000 * choice("price", 2 + kw as u32) as u128);
		let b = a_bid(i, who, who as u8, any("ct", 1, 1 << 60), p);
		Bids::<Test>::insert((P, who, i), &b);
		Bids::<Test>::insert((Q, who, i), &b);
		bids.push(b);
	}
	let r = tx(|| Funding::end_auction(signed(7), P));
	if r.is_ok() {
		check(state, "F04: only an auction round ends as one");
		check(now >= 24, "F04: the auction round is not cut short");
		let mut sum = 0;
		let mut usd = 0;
		let mut won = [false, false];
		// by price, then by number
		for s in [2u128, 1, 0] {
			for b in &bids {
				if b.original_ct_usd_price != price(10_000 + 1000 * s) {
					continue;
				}
				let rest = auction - sum;
				let n = Bids::<Test>::get((P, b.bidder, b.id)).unwrap();
				let x = if b.original_ct_amount <= rest { b.original_ct_amount } else { rest };
				let st = if x == 0 {
					BidStatus::Rejected
				} else if x == b.original_ct_amount {
					BidStatus::Accepted
				} else {
					BidStatus::PartiallyAccepted(x)
				};
				check(n.status == st, "F04: the highest bids win, the earlier of equal ones, up to the allocation");
				check(n.final_ct_amount() == x, "F04: a bid wins what is left of the allocation at most");
				let mut e = b.clone();
				e.status = st;
				check(n == e, "F04: the decision changes nothing but the status of a bid");
				sum += x;
				usd += at(if b.original_ct_usd_price > wap { wap } else { b.original_ct_usd_price }, x);
				if x > 0 {
					won[b.bidder as usize - 2] = true;
				}
			}
		}
		check(sum <= auction, "F04: no more is sold than the auction has");
		let mut e = moved(d, now, ProjectStatus::CommunityRound(now + 18), Some(24));
		e.remaining_contribution_tokens = alloc - sum;
		e.funding_amount_reached_usd = usd;
		e.weighted_average_price = Some(wap);
		check(get(P) == e, "F04: the community round starts with what is left, at the weighted average price");
		for i in 0..2u8 {
			check(DidWithWinningBids::<Test>::get(P, did(2 + i)) == won[i as usize], "F04: who won anything is a winner, nobody else");
		}
		check(wap >= p0, "F04: the price is never below the minimum");
		reach("decided");
	} else {
		check(!state || now < 24, "F04: anyone can end an auction round that is over");
		check(get(P) == d && bids.iter().all(|b| Bids::<Test>::get((P, b.bidder, b.id)) == Some(b.clone())), "F04: a refused call changes nothing");
		reach("refused");
	}
	check(untouched(&q) && bids.iter().all(|b| Bids::<Test>::get((Q, b.bidder, b.id)) == Some(b.clone())), "F04: other projects are not touched");
}
/// the weighted average price of `k` full buckets and a part of the next, weighted by money
pub fn wap() {
	let k = choice("buckets", 4) as u128;
	let delta = pick("delta", &[1000u128, 10_000_000_000]);
	let left = any("left", 1, 1000) * (delta / 1000);
	let p0 = price(10_000);
	let b = bucket(left, price(10_000 + 1000 * k), p0, delta);
	let total = 10 * delta;
	let w = b.calculate_wap(total).into_inner();
	if k == 0 {
		check(w == p0.into_inner(), "F04: an auction that fills no bucket sells at the minimum price");
		reach("first");
		return;
	}
	let (lo, hi) = (p0.into_inner(), b.current_price.into_inner());
	let (mut sum, mut acc) = (0u128, 0u128);
	let mut rest = total;
	for i in 0..=k {
		let s = k - i;
		let x = if s == 0 { rest } else if i == 0 { delta - left } else { delta };
		rest -= x;
		let p = price(10_000 + 1000 * s);
		let usd = at(p, x);
		sum += usd;
		acc += usd * (10 + s);
	}
	// the mean price is acc / sum, in steps of a tenth of the minimum
	check(w >= lo && w <= hi, "F04: the weighted average price lies between the minimum and the highest bid");
	let step = lo / 10;
	let exact = acc * step;
	let slack = sum * (k + 2);
	let ws = w * sum;
	check(ws <= exact + slack && exact <= ws + slack, "F04: the price is the average of the buckets' prices, weighted by the money bid");
	reach("average");
}
/// an auction with bids for more than there is: only the highest buckets count
pub fn wap_over() {
	let k = 11 + choice("buckets", 2) as u128;
	let delta = 10_000_000_000u128;
	let left = any("left", 1, 1000) * (delta / 1000);
	let p0 = price(10_000);
	let b = bucket(left, price(10_000 + 1000 * k), p0, delta);
	let total = 10 * delta;
	let w = b.calculate_wap(total).into_inner();
	let (lo, hi) = (p0.into_inner(), b.current_price.into_inner());
	let (mut sum, mut acc) = (0u128, 0u128);
	let mut rest = total;
	for i in 0..=k {
		let s = k - i;
		let x = if i == 0 { delta - left } else { delta };
		let x = if x < rest { x } else { rest };
		rest -= x;
		let usd = at(price(10_000 + 1000 * s), x);
		sum += usd;
		acc += usd * (10 + s);
	}
	check(w >= lo && w <= hi, "F04: the weighted average price lies between the minimum and the highest bid");
	let step = lo / 10;
	let exact = acc * step;
	let slack = sum * (k + 2);
	let ws = w * sum;
	check(ws <= exact + slack && exact <= ws + slack, "F04: only bids within the allocation count for the price");
	reach("average");
}

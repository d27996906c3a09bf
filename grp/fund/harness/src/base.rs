//! Projects, prices and the arithmetic of the specification.
use crate::mock::*;
use alloc::vec;
use pallet_funding::*;
use polimec_common::credentials::*;
use sp_runtime::{FixedU128, Percent};
use symrt::*;

/// the project under test, and one that must not be touched
pub const P: u32 = 3;
pub const Q: u32 = 4;
pub const ISSUER: u128 = 1;
pub const DEST: u128 = 94;
pub const U: u128 = 1_000_000_000_000_000_000;
pub const USD: u128 = 1_000_000;
pub type Meta = ProjectMetadataOf<Test>;
pub type Details = ProjectDetailsOf<Test>;
pub type Status = ProjectStatus<u64>;

pub fn did(n: u8) -> Did {
	vec![n, 9].try_into().unwrap()
}
pub fn cid(n: u8) -> Cid {
	vec![n, 8].try_into().unwrap()
}
pub fn pot(p: u32) -> u128 {
	Funding::fund_account_id(p)
}
pub fn signed(who: u128) -> RuntimeOrigin {
	RuntimeOrigin::signed(who)
}
pub fn kind(n: u8) -> InvestorType {
	[InvestorType::Retail, InvestorType::Professional, InvestorType::Institutional][n as usize].clone()
}
/// credentials of an account: did, investor type, policy
pub fn cred(who: u128, d: u8, k: u8, c: u8) {
	Investor::set(who, did(d), kind(k), cid(c))
}
/// 10 decimals; the price is dollars in thousandths
pub fn price(milli: u128) -> FixedU128 {
	// 10^18 * (milli / 1000) * 10^6 / 10^10
	FixedU128::from_inner(milli * 100_000_000_000)
}
pub fn meta(alloc: u128, p: FixedU128) -> Meta {
	let t = |n: u128| TicketSize::new(n * USD, None);
	ProjectMetadata {
		token_information: CurrencyMetadata {
			name: vec![65].try_into().unwrap(),
			symbol: vec![66].try_into().unwrap(),
			decimals: 10,
		},
		mainnet_token_max_supply: 1 << 100,
		total_allocation_size: alloc,
		auction_round_allocation_percentage: Percent::from_percent(50),
		minimum_price: p,
		bidding_ticket_sizes: BiddingTicketSizes { professional: t(5000), institutional: t(6000), phantom: Default::default() },
		contributing_ticket_sizes: ContributingTicketSizes {
			retail: t(10),
			professional: t(20),
			institutional: t(30),
			phantom: Default::default(),
		},
		participation_currencies: vec![AcceptedFundingAsset::USDT, AcceptedFundingAsset::DOT].try_into().unwrap(),
		funding_destination_account: DEST,
		policy_ipfs_cid: Some(cid(1)),
	}
}
pub fn details(status: Status, target: u128, remaining: u128) -> Details {
	ProjectDetails {
		issuer_account: ISSUER,
		issuer_did: did(1),
		is_frozen: status != ProjectStatus::Application,
		weighted_average_price: None,
		status,
		round_duration: BlockNumberPair::new(None, None),
		fundraising_target_usd: target,
		remaining_contribution_tokens: remaining,
		funding_amount_reached_usd: 0,
		evaluation_round_info: EvaluationRoundInfo { total_bonded_usd: 0, total_bonded_plmc: 0, evaluators_outcome: None },
		usd_bid_on_oversubscription: None,
		funding_end_block: None,
		migration_type: None,
	}
}
pub fn bucket(left: u128, now: FixedU128, first: FixedU128, delta: u128) -> BucketOf<Test> {
	Bucket {
		amount_left: left,
		current_price: now,
		initial_price: first,
		delta_price: FixedU128::from_inner(first.into_inner() / 10),
		delta_amount: delta,
	}
}
pub fn put(p: u32, m: &Meta, d: &Details) {
	ProjectsMetadata::<Test>::insert(p, m);
	ProjectsDetails::<Test>::insert(p, d);
}
pub fn get(p: u32) -> Details {
	ProjectsDetails::<Test>::get(p).unwrap()
}
/// another project, in the same state, with money and participations of its own
pub fn neighbour(m: &Meta, d: &Details) {
	put(Q, m, d);
	fund(pot(Q), 1);
	Assets::give(1984, pot(Q), 1 << 70);
	Assets::give(10, pot(Q), 1 << 70);
}
pub fn untouched(d: &Details) -> bool {
	get(Q) == *d && Assets::of(1984, pot(Q)) == 1 << 70 && Assets::of(10, pot(Q)) == 1 << 70
}
/// what a percentage of an amount is: rounded to the nearest, halves down
pub fn pct(p: u128, x: u128) -> u128 {
	sp_runtime::Percent::from_percent(p as u8) * x
}
/// the value of `x` at a price: 18 digit fixed point, rounded down
pub fn at(price: FixedU128, x: u128) -> u128 {
	sp_runtime::helpers_128bit::multiply_by_rational_with_rounding(price.into_inner(), x, U, sp_runtime::Rounding::Down).unwrap()
}
/// the price of the smallest unit of a token with `d` decimals, in millionths of a dollar, and its reciprocal
pub fn aware(q: u128, d: u32) -> FixedU128 {
	let p = if d > 6 { q / 10u128.pow(d - 6) } else { q * 10u128.pow(6 - d) };
	FixedU128::from_inner(p)
}
pub fn recip(p: FixedU128) -> FixedU128 {
	let p = p.into_inner();
	// rounded to the nearest, halves down
	let (q, r) = (U * U / p, U * U % p);
	FixedU128::from_inner(if r > p - r { q + 1 } else { q })
}
/// one of several markets: prices of PLMC (10 decimals), USDT (6) and DOT (10)
pub struct Market {
	pub plmc: FixedU128,
	pub usdt: FixedU128,
	pub dot: FixedU128,
}
pub fn market(n: u32) -> Market {
	market_of("market", n)
}
pub fn market_of(name: &'static str, n: u32) -> Market {
	let (p, t, d) = [(U / 2, U, 8 * U), (8_400_000_000_000_000_000, 999_900_000_000_000_000, 4_321_000_000_000_000_000), (U, U / 10 * 9, 70 * U)]
		[choice(name, n) as usize];
	Prices::set(3344, FixedU128::from_inner(p));
	Prices::set(1984, FixedU128::from_inner(t));
	Prices::set(10, FixedU128::from_inner(d));
	Assets::set_decimals(10, 10);
	Market { plmc: recip(aware(p, 10)), usdt: recip(aware(t, 6)), dot: recip(aware(d, 10)) }
}
impl Market {
	pub fn asset(&self, a: AcceptedFundingAsset, usd: u128) -> u128 {
		at(if a == AcceptedFundingAsset::DOT { self.dot } else { self.usdt }, usd)
	}

	pub fn bond(&self, mult: u128, usd: u128) -> u128 {
		at(self.plmc, usd / mult)
	}
}
/// the details after moving to a status now, with a round of `dur` blocks
pub fn moved(mut d: Details, now: u64, s: Status, dur: Option<u64>) -> Details {
	d.round_duration = BlockNumberPair::new(Some(now), dur.map(|x| now + x - 1));
	d.status = s;
	d
}
pub fn pick<T: Clone>(name: &'static str, v: &[T]) -> T {
	v[choice(name, v.len() as u32) as usize].clone()
}

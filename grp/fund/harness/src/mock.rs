//! Mock runtime: the real frame_system, pallet_balances, linear-release, proxy-bonding and funding, over small multi-asset stores.
use alloc::{boxed::Box, vec, vec::Vec};
use frame_support::{
	derive_impl,
	storage::unhashed,
	traits::{
		fungible::{Inspect as _, InspectHold as _, Mutate as _, MutateHold as _},
		fungibles,
		tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
		AccountTouch, ConstU32, ConstU8, ContainsPair, Get, WithdrawReasons,
	},
	PalletId,
};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{BlakeTwo256, ConvertInto, IdentityLookup},
	DispatchError, FixedU128, Perbill, Percent, Perquintill,
};
use pallet_funding::HoldReason;
use polimec_common::{credentials::*, PLMC_DECIMALS, PLMC_FOREIGN_ID, USD_DECIMALS};
use symrt::*;

pub type AccountId = u128;
pub type Balance = u128;
pub type BlockNumber = u64;
pub type Block = sp_runtime::generic::Block<
	sp_runtime::generic::Header<u64, BlakeTwo256>,
	sp_runtime::generic::UncheckedExtrinsic<AccountId, RuntimeCall, (), ()>,
>;

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Timestamp: pallet_timestamp = 2,
		Release: pallet_linear_release = 3,
		Proxy: pallet_proxy_bonding = 4,
		PolkadotXcm: pallet_xcm = 5,
		Funding: pallet_funding = 52,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<Balance>;
	type AccountId = AccountId;
	type Block = Block;
	type Lookup = IdentityLookup<AccountId>;
}

pub fn set_now(n: BlockNumber) {
	unhashed::put(&frame_support::storage::storage_prefix(b"System", b"Number"), &n);
}

macro_rules! param {
	($($n:ident: $t:ty = $d:expr;)*) => { $(
		pub struct $n;
		impl $n {
			pub fn key() -> &'static [u8] { concat!(":param:", stringify!($n)).as_bytes() }
			pub fn set(v: $t) { unhashed::put(Self::key(), &v) }
		}
		impl Get<$t> for $n {
			fn get() -> $t { unhashed::get(Self::key()).unwrap_or($d) }
		}
	)* };
}
param! {
	Ed: Balance = 1;
	MinTransfer: Balance = 1;
	FeePercent: Perbill = Perbill::from_percent(5);
	Treasury: AccountId = 90;
	Recipient: AccountId = 91;
	Root: PalletId = PalletId(*b"plmc/prx");
	Unvested: WithdrawReasons = WithdrawReasons::empty();
	EvalDur: BlockNumber = 10;
	AucDur: BlockNumber = 15;
	ComDur: BlockNumber = 18;
	RemDur: BlockNumber = 6;
	FundId: PalletId = PalletId(*b"plmc-fun");
	EvalThreshold: Percent = Percent::from_percent(10);
	Slash: Percent = Percent::from_percent(20);
	OpsTreasury: AccountId = 93;
	CtTreasury: AccountId = 92;
	SuccessThreshold: Perquintill = Perquintill::from_percent(33);
	Brackets: Vec<(Percent, Balance)> = vec![
		(Percent::from_percent(10), 1_000_000_000_000),
		(Percent::from_percent(8), 4_000_000_000_000),
		(Percent::from_percent(6), u128::MAX),
	];
	MinEval: Balance = 100_000_000;
	BidsProject: u32 = 4;
	BidsUser: u32 = 3;
	ConsUser: u32 = 2;
	EvalsProject: u32 = 3;
	EvalsUser: u32 = 2;
	ReqCapacity: u32 = 8;
	ReqSize: u32 = 102_400;
	Verifier: [u8; 32] = [7; 32];
}

impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = Balance;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = ();
	type MaxFreezes = ConstU32<0>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = ();
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
	type Moment = u64;
}
impl pallet_linear_release::Config for Test {
	type Balance = Balance;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type UnvestedFundsAllowedWithdrawReasons = Unvested;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 4;
}
impl pallet_proxy_bonding::Config for Test {
	type BondingToken = Balances;
	type BondingTokenDecimals = ConstU8<PLMC_DECIMALS>;
	type BondingTokenId = ConstU32<PLMC_FOREIGN_ID>;
	type FeePercentage = FeePercent;
	type FeeRecipient = Recipient;
	type FeeToken = Assets;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = Root;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Treasury = Treasury;
	type UsdDecimals = ConstU8<USD_DECIMALS>;
}

/// what the router was given
pub struct Router;
impl xcm::v4::SendXcm for Router {
	type Ticket = (xcm::v4::Location, xcm::v4::Xcm<()>);

	fn validate(
		d: &mut Option<xcm::v4::Location>,
		m: &mut Option<xcm::v4::Xcm<()>>,
	) -> Result<(Self::Ticket, xcm::v4::Assets), xcm::v4::SendError> {
		if unhashed::exists(b":router:down") {
			return Err(xcm::v4::SendError::Unroutable);
		}
		match (d.take(), m.take()) {
			(Some(d), Some(m)) => Ok(((d, m), alloc::vec::Vec::new().into())),
			_ => Err(xcm::v4::SendError::Unroutable),
		}
	}

	fn deliver(t: Self::Ticket) -> Result<xcm::v4::XcmHash, xcm::v4::SendError> {
		let n = Router::sent();
		unhashed::put(b":router:n", &(n + 1));
		unhashed::put(&(b":router:".to_vec(), n).encode(), &t);
		Ok([0; 32])
	}
}
impl Router {
	pub fn sent() -> u32 {
		unhashed::get(b":router:n").unwrap_or(0)
	}

	pub fn message(n: u32) -> Option<(xcm::v4::Location, xcm::v4::Xcm<()>)> {
		unhashed::get(&(b":router:".to_vec(), n).encode())
	}
}
impl pallet_xcm::Config for Test {
	type RuntimeCall = RuntimeCall;
	type XcmRouter = Router;
}
/// The caller's credentials, as a checked token would give them (the token itself is decided by common::investor).
pub struct Investor;
impl Investor {
	pub fn set(who: AccountId, d: Did, t: InvestorType, c: Cid) {
		unhashed::put(&(b":cred:", who).encode(), &(d, t, c))
	}
}
impl EnsureOriginWithCredentials<RuntimeOrigin> for Investor {
	type Claims = ();
	type Success = (AccountId, Did, InvestorType, Cid);

	fn try_origin(o: RuntimeOrigin, token: &UntrustedToken, key: [u8; 32]) -> Result<Self::Success, RuntimeOrigin> {
		let Ok(who) = frame_system::ensure_signed(o.clone()) else { return Err(o) };
		if token.key != key {
			return Err(o);
		}
		match unhashed::get::<(Did, InvestorType, Cid)>(&(b":cred:", who).encode()) {
			Some((d, t, c)) => Ok((who, d, t, c)),
			None => Err(o),
		}
	}
}
pub fn jwt() -> UntrustedToken {
	UntrustedToken { key: [7; 32], expiration: None, claims: Vec::new() }
}
pub struct Acc32;
impl sp_runtime::traits::Convert<AccountId, [u8; 32]> for Acc32 {
	fn convert(a: AccountId) -> [u8; 32] {
		let mut r = [0u8; 32];
		r[0..16].copy_from_slice(&a.to_le_bytes());
		r
	}
}
impl sp_runtime::traits::ConvertBack<AccountId, [u8; 32]> for Acc32 {
	fn convert_back(b: [u8; 32]) -> AccountId {
		let mut r = [0u8; 16];
		r.copy_from_slice(&b[0..16]);
		u128::from_le_bytes(r)
	}
}
/// what other pallets were told of a slash
pub struct Slashes;
impl on_slash_vesting::OnSlash<AccountId, Balance> for Slashes {
	fn on_slash(who: &AccountId, amount: Balance) {
		unhashed::put(&(b":slash:", *who).encode(), &(Slashes::of(*who) + amount))
	}
}
impl Slashes {
	pub fn of(who: AccountId) -> Balance {
		unhashed::get(&(b":slash:", who).encode()).unwrap_or(0)
	}
}
pub struct Sizes;
impl Get<core::ops::RangeInclusive<u32>> for Sizes {
	fn get() -> core::ops::RangeInclusive<u32> {
		50_000..=102_400
	}
}
pub struct Capacities;
impl Get<core::ops::RangeInclusive<u32>> for Capacities {
	fn get() -> core::ops::RangeInclusive<u32> {
		8..=1000
	}
}
impl pallet_funding::Config for Test {
	type AccountId32Conversion = Acc32;
	#[cfg(feature = "native")]
	type AllPalletsWithoutSystem = AllPalletsWithoutSystem;
	type AuctionRoundDuration = AucDur;
	type BlockNumber = u64;
	type BlockchainOperationTreasury = OpsTreasury;
	type CommunityRoundDuration = ComDur;
	type ContributionTokenCurrency = Cts;
	type ContributionTreasury = CtTreasury;
	type DaysToBlocks = pallet_funding::DaysToBlocks;
	type EvaluationRoundDuration = EvalDur;
	type EvaluationSuccessThreshold = EvalThreshold;
	type EvaluatorSlash = Slash;
	type FeeBrackets = Brackets;
	type FundingCurrency = Assets;
	type FundingSuccessThreshold = SuccessThreshold;
	type InvestorOrigin = Investor;
	type MaxBidsPerProject = BidsProject;
	type MaxBidsPerUser = BidsUser;
	type MaxCapacityThresholds = Capacities;
	type MaxContributionsPerUser = ConsUser;
	type MaxEvaluationsPerProject = EvalsProject;
	type MaxEvaluationsPerUser = EvalsUser;
	type MaxMessageSizeThresholds = Sizes;
	type MinUsdPerEvaluation = MinEval;
	type Multiplier = pallet_funding::Multiplier;
	type NativeCurrency = Balances;
	type OnSlash = Slashes;
	type PalletId = FundId;
	type Price = FixedU128;
	type PriceProvider = Prices;
	type RemainderRoundDuration = RemDur;
	type RequiredMaxCapacity = ReqCapacity;
	type RequiredMaxMessageSize = ReqSize;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = RuntimeHoldReason;
	type RuntimeOrigin = RuntimeOrigin;
	type StringLimit = ConstU32<64>;
	type VerifierPublicKey = Verifier;
	type WeightInfo = pallet_funding::weights::SubstrateWeight<Test>;
}

fn akey(tag: u8, id: u32, who: u128) -> Vec<u8> {
	(*b":asset:", tag, id, who).encode()
}
/// prices by asset
pub struct Prices;
impl Prices {
	pub fn set(id: u32, p: FixedU128) {
		unhashed::put(&akey(0, id, 0), &p)
	}
}
impl polimec_common::ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;

	fn get_price(id: u32) -> Option<FixedU128> {
		unhashed::get(&akey(0, id, 0))
	}
}

/// A multi-asset store with settable decimals and minimum balance 1; 0: funding assets, 1: contribution tokens.
pub struct Store<const N: u8>;
pub type Assets = Store<0>;
pub type Cts = Store<1>;
impl<const N: u8> Store<N> {
	fn key(tag: u8, id: u32, who: u128) -> Vec<u8> {
		akey(tag + 16 * (N + 1), id, who)
	}

	pub fn set_decimals(id: u32, d: u8) {
		unhashed::put(&Self::key(1, id, 0), &d)
	}

	pub fn give(id: u32, who: AccountId, v: Balance) {
		unhashed::put(&Self::key(2, id, who), &v)
	}

	pub fn of(id: u32, who: AccountId) -> Balance {
		unhashed::get(&Self::key(2, id, who)).unwrap_or(0)
	}

	pub fn issued(id: u32) -> Balance {
		unhashed::get(&Self::key(3, id, 0)).unwrap_or(0)
	}

	pub fn issue(id: u32, v: Balance) {
		unhashed::put(&Self::key(3, id, 0), &v)
	}

	/// an account's place in the asset, made by touch
	pub fn touched(id: u32, who: AccountId) -> bool {
		unhashed::exists(&Self::key(4, id, who))
	}

	/// owner, or none for an asset that was not created
	pub fn owner_of(id: u32) -> Option<AccountId> {
		unhashed::get(&Self::key(5, id, 0))
	}

	pub fn make(id: u32, owner: AccountId) {
		unhashed::put(&Self::key(5, id, 0), &owner)
	}

	pub fn meta(id: u32) -> Option<(Vec<u8>, Vec<u8>, u8)> {
		unhashed::get(&Self::key(6, id, 0))
	}
}
impl<const N: u8> fungibles::Inspect<AccountId> for Store<N> {
	type AssetId = u32;
	type Balance = Balance;

	fn total_issuance(id: u32) -> Balance {
		if N == 0 {
			u128::MAX
		} else {
			Self::issued(id)
		}
	}

	fn minimum_balance(_: u32) -> Balance {
		1
	}

	fn total_balance(id: u32, who: &AccountId) -> Balance {
		Self::of(id, *who)
	}

	fn balance(id: u32, who: &AccountId) -> Balance {
		Self::of(id, *who)
	}

	fn reducible_balance(id: u32, who: &AccountId, p: Preservation, _: Fortitude) -> Balance {
		let b = Self::of(id, *who);
		if p == Preservation::Expendable {
			b
		} else {
			b.saturating_sub(1)
		}
	}

	fn can_deposit(id: u32, who: &AccountId, amount: Balance, _: Provenance) -> DepositConsequence {
		if Self::of(id, *who).checked_add(amount).is_none() {
			DepositConsequence::Overflow
		} else {
			DepositConsequence::Success
		}
	}

	fn can_withdraw(id: u32, who: &AccountId, amount: Balance) -> WithdrawConsequence<Balance> {
		if Self::of(id, *who) < amount {
			WithdrawConsequence::BalanceLow
		} else {
			WithdrawConsequence::Success
		}
	}

	fn asset_exists(id: u32) -> bool {
		N == 0 || Self::owner_of(id).is_some()
	}
}
impl<const N: u8> fungibles::Unbalanced<AccountId> for Store<N> {
	fn handle_dust(_: fungibles::Dust<AccountId, Self>) {}

	fn write_balance(id: u32, who: &AccountId, amount: Balance) -> Result<Option<Balance>, DispatchError> {
		Self::give(id, *who, amount);
		Ok(None)
	}

	fn set_total_issuance(id: u32, v: Balance) {
		unhashed::put(&Self::key(3, id, 0), &v)
	}
}
impl<const N: u8> fungibles::Mutate<AccountId> for Store<N> {
	// as pallet-assets: exactly the amount, or an error
	fn transfer(id: u32, from: &AccountId, to: &AccountId, amount: Balance, p: Preservation) -> Result<Balance, DispatchError> {
		if <Self as fungibles::Inspect<AccountId>>::reducible_balance(id, from, p, Fortitude::Polite) < amount {
			return Err(DispatchError::Token(sp_runtime::TokenError::FundsUnavailable));
		}
		let b = Self::of(id, *from);
		Self::give(id, *from, b - amount);
		let b = Self::of(id, *to);
		Self::give(id, *to, b + amount);
		Ok(amount)
	}

	// as pallet-assets: only of an asset that exists, to an account that has a place in it
	fn mint_into(id: u32, who: &AccountId, amount: Balance) -> Result<Balance, DispatchError> {
		if Self::owner_of(id).is_none() {
			return Err(DispatchError::Token(sp_runtime::TokenError::UnknownAsset));
		}
		if !Self::touched(id, *who) {
			return Err(DispatchError::Token(sp_runtime::TokenError::CannotCreate));
		}
		let b = Self::of(id, *who).checked_add(amount).ok_or(DispatchError::Arithmetic(sp_runtime::ArithmeticError::Overflow))?;
		let t = Self::issued(id).checked_add(amount).ok_or(DispatchError::Arithmetic(sp_runtime::ArithmeticError::Overflow))?;
		Self::give(id, *who, b);
		unhashed::put(&Self::key(3, id, 0), &t);
		Ok(amount)
	}
}
impl<const N: u8> fungibles::metadata::Inspect<AccountId> for Store<N> {
	fn name(id: u32) -> Vec<u8> {
		Self::meta(id).map(|m| m.0).unwrap_or_default()
	}

	fn symbol(id: u32) -> Vec<u8> {
		Self::meta(id).map(|m| m.1).unwrap_or_default()
	}

	fn decimals(id: u32) -> u8 {
		unhashed::get(&Self::key(1, id, 0)).unwrap_or(6)
	}
}
impl<const N: u8> fungibles::metadata::Mutate<AccountId> for Store<N> {
	fn set(id: u32, from: &AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> Result<(), DispatchError> {
		if Self::owner_of(id) != Some(*from) {
			return Err(DispatchError::BadOrigin);
		}
		unhashed::put(&Self::key(6, id, 0), &(name, symbol, decimals));
		Ok(())
	}
}
impl<const N: u8> fungibles::metadata::MetadataDeposit<Balance> for Store<N> {
	fn calc_metadata_deposit(_: &[u8], _: &[u8]) -> Balance {
		0
	}
}
impl<const N: u8> fungibles::Create<AccountId> for Store<N> {
	fn create(id: u32, admin: AccountId, _: bool, _: Balance) -> Result<(), DispatchError> {
		if Self::owner_of(id).is_some() {
			return Err(DispatchError::Other("InUse"));
		}
		Self::make(id, admin);
		Ok(())
	}
}
impl<const N: u8> fungibles::Destroy<AccountId> for Store<N> {
	fn start_destroy(_: u32, _: Option<AccountId>) -> Result<(), DispatchError> {
		Err(DispatchError::Other("not modelled"))
	}

	fn destroy_accounts(_: u32, _: u32) -> Result<u32, DispatchError> {
		Err(DispatchError::Other("not modelled"))
	}

	fn destroy_approvals(_: u32, _: u32) -> Result<u32, DispatchError> {
		Err(DispatchError::Other("not modelled"))
	}

	fn finish_destroy(_: u32) -> Result<(), DispatchError> {
		Err(DispatchError::Other("not modelled"))
	}
}
impl<const N: u8> fungibles::InspectEnumerable<AccountId> for Store<N> {
	type AssetsIterator = frame_support::storage::KeyPrefixIterator<u32>;

	fn asset_ids() -> Self::AssetsIterator {
		frame_support::storage::KeyPrefixIterator::new(b":no:".to_vec(), b":no:".to_vec(), |_| Ok(0))
	}
}
impl<const N: u8> fungibles::roles::Inspect<AccountId> for Store<N> {
	fn owner(id: u32) -> Option<AccountId> {
		Self::owner_of(id)
	}

	fn issuer(id: u32) -> Option<AccountId> {
		Self::owner_of(id)
	}

	fn admin(id: u32) -> Option<AccountId> {
		Self::owner_of(id)
	}

	fn freezer(id: u32) -> Option<AccountId> {
		Self::owner_of(id)
	}
}
impl<const N: u8> AccountTouch<u32, AccountId> for Store<N> {
	type Balance = Balance;

	fn deposit_required(_: u32) -> Balance {
		0
	}

	fn should_touch(_: u32, _: &AccountId) -> bool {
		true
	}

	fn touch(id: u32, who: &AccountId, _: &AccountId) -> Result<(), DispatchError> {
		if Self::owner_of(id).is_none() || Self::touched(id, *who) {
			return Err(DispatchError::Other("no such asset, or there already"));
		}
		unhashed::put(&Self::key(4, id, *who), &());
		Ok(())
	}
}
impl<const N: u8> ContainsPair<u32, AccountId> for Store<N> {
	fn contains(id: &u32, who: &AccountId) -> bool {
		Self::touched(*id, *who)
	}
}

pub fn fund(who: AccountId, v: Balance) {
	if v > 0 || is_symbolic(v) {
		let _ = Balances::mint_into(&who, v);
	}
}
/// puts `v` of the account's money on hold
pub fn hold(who: AccountId, r: HoldReason, v: Balance) {
	if v > 0 || is_symbolic(v) {
		let _ = Balances::hold(&r.into(), &who, v);
	}
}
pub fn held(who: AccountId, r: HoldReason) -> Balance {
	Balances::balance_on_hold(&r.into(), &who)
}
pub fn free(who: AccountId) -> Balance {
	Balances::balance(&who)
}
pub fn total(who: AccountId) -> Balance {
	Balances::total_balance(&who)
}
/// a call as dispatched: a failing one is rolled back
pub fn tx<T, E: From<DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	frame_support::storage::with_storage_layer(f)
}
pub fn flag(name: &'static str) -> bool {
	choice(name, 2) == 1
}

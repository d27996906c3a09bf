//! Mock runtime: the real frame_system, pallet_balances, linear-release and proxy-bonding, over a small multi-asset store.
use alloc::{boxed::Box, vec, vec::Vec};
use frame_support::{
	derive_impl,
	storage::unhashed,
	traits::{
		fungible::{Inspect as _, InspectHold as _, Mutate as _, MutateHold as _},
		fungibles,
		tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
		ConstU32, Get, VariantCount, WithdrawReasons,
	},
	PalletId,
};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{
	traits::{BlakeTwo256, ConvertInto, IdentityLookup},
	DispatchError, FixedU128, Perbill,
};
use symrt::*;

pub type AccountId = u128;
pub type Balance = u128;
pub type BlockNumber = u64;
pub type Block = sp_runtime::generic::Block<
	sp_runtime::generic::Header<u64, BlakeTwo256>,
	sp_runtime::generic::UncheckedExtrinsic<AccountId, RuntimeCall, (), ()>,
>;

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Timestamp: pallet_timestamp = 2,
		Release: pallet_linear_release = 3,
		Proxy: pallet_proxy_bonding = 4,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<Balance>;
	type AccountId = AccountId;
	type Block = Block;
	type Lookup = IdentityLookup<AccountId>;
}

pub fn set_now(n: BlockNumber) {
	unhashed::put(&frame_support::storage::storage_prefix(b"System", b"Number"), &n);
}

macro_rules! param {
	($($n:ident: $t:ty = $d:expr;)*) => { $(
		pub struct $n;
		impl $n {
			pub fn key() -> &'static [u8] { concat!(":param:", stringify!($n)).as_bytes() }
			pub fn set(v: $t) { unhashed::put(Self::key(), &v) }
		}
		impl Get<$t> for $n {
			fn get() -> $t { unhashed::get(Self::key()).unwrap_or($d) }
		}
	)* };
}
param! {
	Ed: Balance = 1;
	MinTransfer: Balance = 1;
	FeePercent: Perbill = Perbill::from_percent(5);
	Plmc: u32 = 3344;
	PlmcDecimals: u8 = 10;
	UsdDecimals: u8 = 6;
	Treasury: AccountId = 90;
	Recipient: AccountId = 91;
	Root: PalletId = PalletId(*b"plmc/prx");
	Unvested: WithdrawReasons = WithdrawReasons::empty();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum Reason {
	A,
	B,
	C,
}
impl VariantCount for Reason {
	const VARIANT_COUNT: u32 = 3;
}

impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = Balance;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = ();
	type MaxFreezes = ConstU32<0>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = ();
	type RuntimeHoldReason = Reason;
	type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
	type Moment = u64;
}
impl pallet_linear_release::Config for Test {
	type Balance = Balance;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinTransfer;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type UnvestedFundsAllowedWithdrawReasons = Unvested;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 3;
}
impl pallet_proxy_bonding::Config for Test {
	type BondingToken = Balances;
	type BondingTokenDecimals = PlmcDecimals;
	type BondingTokenId = Plmc;
	type FeePercentage = FeePercent;
	type FeeRecipient = Recipient;
	type FeeToken = Assets;
	type Id = PalletId;
	type PriceProvider = Prices;
	type RootId = Root;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = Reason;
	type Treasury = Treasury;
	type UsdDecimals = UsdDecimals;
}

fn akey(tag: u8, id: u32, who: u128) -> Vec<u8> {
	(*b":asset:", tag, id, who).encode()
}
/// prices by asset
pub struct Prices;
impl Prices {
	pub fn set(id: u32, p: FixedU128) {
		unhashed::put(&akey(0, id, 0), &p)
	}
}
impl polimec_common::ProvideAssetPrice for Prices {
	type AssetId = u32;
	type Price = FixedU128;

	fn get_price(id: u32) -> Option<FixedU128> {
		unhashed::get(&akey(0, id, 0))
	}
}

/// a multi-asset store: assets 1 and 2 exist, with settable decimals, minimum balance 1
pub struct Assets;
impl Assets {
	pub fn set_decimals(id: u32, d: u8) {
		unhashed::put(&akey(1, id, 0), &d)
	}

	pub fn give(id: u32, who: AccountId, v: Balance) {
		unhashed::put(&akey(2, id, who), &v)
	}

	pub fn of(id: u32, who: AccountId) -> Balance {
		unhashed::get(&akey(2, id, who)).unwrap_or(0)
	}
}
impl fungibles::Inspect<AccountId> for Assets {
	type AssetId = u32;
	type Balance = Balance;

	fn total_issuance(_: u32) -> Balance {
		u128::MAX
	}

	fn minimum_balance(_: u32) -> Balance {
		1
	}

	fn total_balance(id: u32, who: &AccountId) -> Balance {
		Assets::of(id, *who)
	}

	fn balance(id: u32, who: &AccountId) -> Balance {
		Assets::of(id, *who)
	}

	fn reducible_balance(id: u32, who: &AccountId, p: Preservation, _: Fortitude) -> Balance {
		let b = Assets::of(id, *who);
		if p == Preservation::Expendable {
			b
		} else {
			b.saturating_sub(1)
		}
	}

	fn can_deposit(id: u32, who: &AccountId, amount: Balance, _: Provenance) -> DepositConsequence {
		if Assets::of(id, *who).checked_add(amount).is_none() {
			DepositConsequence::Overflow
		} else {
			DepositConsequence::Success
		}
	}

	fn can_withdraw(id: u32, who: &AccountId, amount: Balance) -> WithdrawConsequence<Balance> {
		if Assets::of(id, *who) < amount {
			WithdrawConsequence::BalanceLow
		} else {
			WithdrawConsequence::Success
		}
	}

	fn asset_exists(id: u32) -> bool {
		id == 1 || id == 2
	}
}
impl fungibles::Unbalanced<AccountId> for Assets {
	fn handle_dust(_: fungibles::Dust<AccountId, Self>) {}

	fn write_balance(id: u32, who: &AccountId, amount: Balance) -> Result<Option<Balance>, DispatchError> {
		Assets::give(id, *who, amount);
		Ok(None)
	}

	fn set_total_issuance(_: u32, _: Balance) {}
}
impl fungibles::Mutate<AccountId> for Assets {
	// as pallet-assets: exactly the amount, or an error
	fn transfer(id: u32, from: &AccountId, to: &AccountId, amount: Balance, p: Preservation) -> Result<Balance, DispatchError> {
		if <Self as fungibles::Inspect<AccountId>>::reducible_balance(id, from, p, Fortitude::Polite) < amount {
			return Err(DispatchError::Token(sp_runtime::TokenError::FundsUnavailable));
		}
		let b = Assets::of(id, *from);
		Assets::give(id, *from, b - amount);
		let b = Assets::of(id, *to);
		Assets::give(id, *to, b + amount);
		Ok(amount)
	}
}
impl fungibles::metadata::Inspect<AccountId> for Assets {
	fn name(_: u32) -> Vec<u8> {
		Vec::new()
	}

	fn symbol(_: u32) -> Vec<u8> {
		Vec::new()
	}

	fn decimals(id: u32) -> u8 {
		unhashed::get(&akey(1, id, 0)).unwrap_or(6)
	}
}

pub fn fund(who: AccountId, v: Balance) {
	if v > 0 || is_symbolic(v) {
		let _ = Balances::mint_into(&who, v);
	}
}
/// puts `v` of the account's money on hold
pub fn hold(who: AccountId, r: Reason, v: Balance) {
	if v > 0 || is_symbolic(v) {
		let _ = Balances::hold(&r, &who, v);
	}
}
pub fn held(who: AccountId, r: Reason) -> Balance {
	Balances::balance_on_hold(&r, &who)
}
pub fn free(who: AccountId) -> Balance {
	Balances::balance(&who)
}
pub fn total(who: AccountId) -> Balance {
	Balances::total_balance(&who)
}
/// a call as dispatched: a failing one is rolled back
pub fn tx<T, E: From<DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	frame_support::storage::with_storage_layer(f)
}
pub fn flag(name: &'static str) -> bool {
	choice(name, 2) == 1
}

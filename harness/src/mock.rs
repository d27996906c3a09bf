//! Mock runtime: the real frame_system, pallet_balances, pallet_vesting and the pallets under test.
//! Parameters that the properties quantify over are read from `Params` storage, so a harness can make them symbolic.
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		schedule::{self, v3, DispatchTime, Period, Priority},
		Bounded, BoundedInline, ConstU32, FetchResult, Get, OnUnbalanced, QueryPreimage, StorePreimage, WithdrawReasons,
	},
};
use frame_support::traits::VariantCountOf;
use frame_system::{EnsureRoot, EnsureSigned, EnsureSignedBy};
use parity_scale_codec::Encode;
use sp_runtime::{
	traits::{BlakeTwo256, ConvertInto, IdentityLookup},
	DispatchError,
};
use alloc::{boxed::Box, vec, vec::Vec};

pub type AccountId = u64;
pub type Balance = u128;
pub type BlockNumber = u64;
pub type Block = sp_runtime::generic::Block<
	sp_runtime::generic::Header<u64, BlakeTwo256>,
	sp_runtime::generic::UncheckedExtrinsic<u64, RuntimeCall, (), ()>,
>;

frame_support::construct_runtime!(
	pub enum Test {
		System: frame_system = 0,
		Balances: pallet_balances = 1,
		Vesting: pallet_vesting = 2,
		Democracy: pallet_democracy = 3,
		Elections: pallet_elections_phragmen = 4,
	}
);

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountData = pallet_balances::AccountData<Balance>;
	type AccountId = AccountId;
	type Block = Block;
	type Lookup = IdentityLookup<AccountId>;
}

pub fn set_now(n: BlockNumber) {
	let k = frame_support::storage::storage_prefix(b"System", b"Number");
	frame_support::storage::unhashed::put(&k, &n);
}

/// A `Get` backed by a fixed storage key (default when unset), so that constants can be symbolic.
macro_rules! param {
	($($n:ident: $t:ty = $d:expr;)*) => { $(
		pub struct $n;
		impl $n {
			pub fn key() -> &'static [u8] { concat!(":param:", stringify!($n)).as_bytes() }
			pub fn set(v: $t) { frame_support::storage::unhashed::put(Self::key(), &v) }
			pub fn value() -> $t { frame_support::storage::unhashed::get(Self::key()).unwrap_or($d) }
		}
		impl Get<$t> for $n {
			fn get() -> $t {
				frame_support::storage::unhashed::get(Self::key()).unwrap_or($d)
			}
		}
	)* };
}
param! {
	Ed: Balance = 1;
	MinDeposit: Balance = 10;
	LaunchPeriod: BlockNumber = 10;
	VotingPeriod: BlockNumber = 10;
	EnactmentPeriod: BlockNumber = 5;
	VoteLockingPeriod: BlockNumber = 3;
	FastTrackPeriod: BlockNumber = 4;
	Cooloff: BlockNumber = 20;
	InstantAllowed: bool = false;
	Bond: Balance = 10;
	Desired: u32 = 2;
	DesiredUp: u32 = 2;
	Term: BlockNumber = 5;
	VotingLock: BlockNumber = 3;
}

impl pallet_balances::Config for Test {
	type AccountStore = System;
	type Balance = Balance;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type FreezeIdentifier = RuntimeFreezeReason;
	type MaxFreezes = VariantCountOf<RuntimeFreezeReason>;
	type MaxLocks = ConstU32<10>;
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type WeightInfo = ();
}

parameter_types! {
	pub const MinVestedTransfer: Balance = 1;
	pub UnvestedReasons: WithdrawReasons = WithdrawReasons::except(WithdrawReasons::TRANSFER | WithdrawReasons::RESERVE);
}
impl pallet_vesting::Config for Test {
	type BlockNumberProvider = System;
	type BlockNumberToBalance = ConvertInto;
	type Currency = Balances;
	type MinVestedTransfer = MinVestedTransfer;
	type RuntimeEvent = RuntimeEvent;
	type UnvestedFundsAllowedWithdrawReasons = UnvestedReasons;
	type WeightInfo = ();

	const MAX_VESTING_SCHEDULES: u32 = 6;
}

macro_rules! ids {
	($($n:ident = $v:expr;)*) => { $(
		pub struct $n;
		impl frame_support::traits::SortedMembers<u64> for $n {
			fn sorted_members() -> Vec<u64> { alloc::vec![$v] }
			fn contains(t: &u64) -> bool { *t == $v }
			fn count() -> usize { 1 }
		}
		impl frame_support::traits::TypedGet for $n {
			type Type = u64;
			fn get() -> u64 { $v }
		}
	)* };
}
// origins, all distinct
ids! {
	ExternalId = 101; ExternalMajorityId = 102; ExternalDefaultId = 103; FastTrackId = 104; InstantId = 105;
	CancellationId = 106; BlacklistId = 107; CancelProposalId = 108; 
}
/// vetoers: 111 and 112
pub struct Vetoers;
impl frame_support::traits::SortedMembers<u64> for Vetoers {
	fn sorted_members() -> Vec<u64> {
		alloc::vec![111, 112]
	}
	fn contains(t: &u64) -> bool {
		*t == 111 || *t == 112
	}
	fn count() -> usize {
		2
	}
}

pub const SCHED_KEY: &[u8] = b":sched:log";
/// One scheduler request: (0 = schedule, when, id, call) or (1 = cancel, 0, id, _)
pub type SchedEntry = (u8, BlockNumber, [u8; 32], Vec<u8>);
pub fn sched_log() -> Vec<SchedEntry> {
	frame_support::storage::unhashed::get(SCHED_KEY).unwrap_or_default()
}
/// Recording scheduler.
pub struct Sched;
type BoundedCall = Bounded<RuntimeCall, BlakeTwo256>;
impl v3::Named<BlockNumber, RuntimeCall, OriginCaller> for Sched {
	type Address = ();
	type Hasher = BlakeTwo256;
	fn schedule_named(
		id: [u8; 32],
		when: DispatchTime<BlockNumber>,
		_p: Option<Period<BlockNumber>>,
		_prio: Priority,
		_o: OriginCaller,
		call: BoundedCall,
	) -> Result<(), DispatchError> {
		let mut l = sched_log();
		let at = match when {
			DispatchTime::At(n) => n,
			DispatchTime::After(n) => System::block_number() + n + 1,
		};
		if at <= System::block_number() {
			return Err(DispatchError::Other("target block in the past"));
		}
		l.push((0, at, id, call.encode()));
		frame_support::storage::unhashed::put(SCHED_KEY, &l);
		Ok(())
	}
	fn cancel_named(id: [u8; 32]) -> Result<(), DispatchError> {
		let mut l = sched_log();
		l.push((1, 0, id, Vec::new()));
		frame_support::storage::unhashed::put(SCHED_KEY, &l);
		Ok(())
	}
	fn reschedule_named(_id: [u8; 32], _w: DispatchTime<BlockNumber>) -> Result<(), DispatchError> {
		Err(DispatchError::Unavailable)
	}
	fn next_dispatch_time(_id: [u8; 32]) -> Result<BlockNumber, DispatchError> {
		Err(DispatchError::Unavailable)
	}
}

/// Preimages: a map hash -> (data) plus a request log count.
pub struct Pre;
impl Pre {
	fn key(h: &sp_core::H256) -> Vec<u8> {
		let mut k = b":preimage:".to_vec();
		k.extend_from_slice(h.as_bytes());
		k
	}
	pub fn note(h: sp_core::H256, data: &[u8]) {
		sp_io::storage::set(&Self::key(&h), data)
	}
}
impl QueryPreimage for Pre {
	type H = BlakeTwo256;
	fn len(h: &sp_core::H256) -> Option<u32> {
		sp_io::storage::get(&Self::key(h)).map(|x| x.len() as u32)
	}
	fn fetch(h: &sp_core::H256, _len: Option<u32>) -> FetchResult {
		sp_io::storage::get(&Self::key(h)).map(|x| x.to_vec().into()).ok_or(DispatchError::Unavailable)
	}
	fn is_requested(_h: &sp_core::H256) -> bool {
		false
	}
	fn request(_h: &sp_core::H256) {}
	fn unrequest(_h: &sp_core::H256) {}
}
impl StorePreimage for Pre {
	const MAX_LENGTH: usize = 1024;
	fn note(_b: alloc::borrow::Cow<[u8]>) -> Result<sp_core::H256, DispatchError> {
		Err(DispatchError::Unavailable)
	}
}
pub fn bounded(id: u8) -> Bounded<RuntimeCall, BlakeTwo256> {
	// a remark with one byte; inline
	let mut v: Vec<u8> = Vec::new();
	v.push(0);
	v.push(0);
	v.push(4);
	v.push(id);
	Bounded::Inline(BoundedInline::try_from(v).ok().unwrap())
}

pub struct Electorate;
impl Electorate {
	pub fn set(v: Balance) {
		frame_support::storage::unhashed::put(b":electorate", &v)
	}
}
impl pallet_democracy::GetElectorate<Balance> for Electorate {
	fn get_electorate() -> Balance {
		frame_support::storage::unhashed::get(b":electorate").unwrap_or_else(Balances::total_issuance)
	}
}

/// Sums what was handed to the slash handlers.
pub struct SlashTo;
pub fn slashed() -> Balance {
	frame_support::storage::unhashed::get(b":slashed").unwrap_or(0)
}
impl OnUnbalanced<frame_support::traits::fungible::Credit<AccountId, Balances>> for SlashTo {
	fn on_nonzero_unbalanced(c: frame_support::traits::fungible::Credit<AccountId, Balances>) {
		use frame_support::traits::Imbalance;
		let v: Balance = slashed() + c.peek();
		frame_support::storage::unhashed::put(b":slashed", &v);
	}
}

impl pallet_democracy::Config for Test {
	type BlacklistOrigin = EnsureSignedBy<BlacklistId, u64>;
	type CancelProposalOrigin = EnsureSignedBy<CancelProposalId, u64>;
	type CancellationOrigin = EnsureSignedBy<CancellationId, u64>;
	type CooloffPeriod = Cooloff;
	type Electorate = Electorate;
	type EnactmentPeriod = EnactmentPeriod;
	type ExternalDefaultOrigin = EnsureSignedBy<ExternalDefaultId, u64>;
	type ExternalMajorityOrigin = EnsureSignedBy<ExternalMajorityId, u64>;
	type ExternalOrigin = EnsureSignedBy<ExternalId, u64>;
	type FastTrackOrigin = EnsureSignedBy<FastTrackId, u64>;
	type FastTrackVotingPeriod = FastTrackPeriod;
	type Fungible = Balances;
	type InstantAllowed = InstantAllowed;
	type InstantOrigin = EnsureSignedBy<InstantId, u64>;
	type LaunchPeriod = LaunchPeriod;
	type MaxBlacklisted = ConstU32<3>;
	type MaxDeposits = ConstU32<3>;
	type MaxProposals = ConstU32<3>;
	type MaxVotes = ConstU32<3>;
	type MinimumDeposit = MinDeposit;
	type PalletsOrigin = OriginCaller;
	type Preimages = Pre;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type Scheduler = Sched;
	type Slash = SlashTo;
	type SubmitOrigin = EnsureSigned<u64>;
	type VetoOrigin = EnsureSignedBy<Vetoers, u64>;
	type VoteLockingPeriod = VoteLockingPeriod;
	type VotingPeriod = VotingPeriod;
	type WeightInfo = ();
}

/// Membership changes handed out by the elections pallet: last (incoming, outgoing, new), prime
pub struct MemberSink;
pub const CHG_KEY: &[u8] = b":members:chg";
pub const PRIME_KEY: &[u8] = b":members:prime";
pub fn members_told() -> Vec<u64> {
	frame_support::storage::unhashed::get(CHG_KEY).unwrap_or_default()
}
pub fn prime_told() -> Option<u64> {
	frame_support::storage::unhashed::get::<Option<u64>>(PRIME_KEY).unwrap_or(None)
}
impl frame_support::traits::ChangeMembers<u64> for MemberSink {
	fn change_members_sorted(incoming: &[u64], outgoing: &[u64], new: &[u64]) {
		// the contract of ChangeMembers: new = old + incoming - outgoing, sorted
		let mut exp: Vec<u64> = members_told().into_iter().filter(|x| !outgoing.contains(x)).collect();
		for i in incoming {
			exp.push(*i);
		}
		exp.sort();
		symrt::check(exp == new, "ChangeMembers told a consistent difference of sorted member lists");
		frame_support::storage::unhashed::put(CHG_KEY, &new.to_vec());
		frame_support::storage::unhashed::put(PRIME_KEY, &Option::<u64>::None);
	}
	fn set_prime(p: Option<u64>) {
		frame_support::storage::unhashed::put(PRIME_KEY, &p);
	}
	fn get_prime() -> Option<u64> {
		prime_told()
	}
}
impl frame_support::traits::InitializeMembers<u64> for MemberSink {
	fn initialize_members(_m: &[u64]) {}
}
impl pallet_elections_phragmen::Config for Test {
	type Balance = Balance;
	type CandidacyBond = Bond;
	type ChangeMembers = MemberSink;
	type Currency = Balances;
	type CurrencyToVote = sp_staking::currency_to_vote::U128CurrencyToVote;
	type DesiredMembers = Desired;
	type DesiredRunnersUp = DesiredUp;
	type InitializeMembers = MemberSink;
	type LoserCandidate = SlashTo;
	type MaxCandidates = ConstU32<4>;
	type MaxVoters = ConstU32<4>;
	type MaxVotesPerVoter = ConstU32<3>;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type RuntimeHoldReason = RuntimeHoldReason;
	type TermDuration = Term;
	type VotingLockPeriod = VotingLock;
	type WeightInfo = ();
}
#[allow(unused)]
type _Unused = (EnsureRoot<u64>, schedule::Period<u64>);

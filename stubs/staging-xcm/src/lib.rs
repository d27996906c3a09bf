//! Stand-in for the part of staging-xcm (v4) that the code under test uses: plain data and the `SendXcm` trait.
#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;
pub use v4 as latest;
pub mod v4 {
	use alloc::vec::Vec;
	use bounded_collections::{BoundedVec, ConstU32};
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	pub use sp_weights::Weight;

	pub type QueryId = u64;
	pub type XcmHash = [u8; 32];

	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum NetworkId {
		Polkadot,
		Kusama,
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32),
		AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
		PalletInstance(u8),
		GeneralIndex(#[codec(compact)] u128),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Junctions {
		Here,
		X1([Junction; 1]),
		X2([Junction; 2]),
	}
	impl From<Junction> for Junctions {
		fn from(j: Junction) -> Self {
			Junctions::X1([j])
		}
	}
	impl From<[Junction; 1]> for Junctions {
		fn from(j: [Junction; 1]) -> Self {
			Junctions::X1(j)
		}
	}
	impl From<[Junction; 2]> for Junctions {
		fn from(j: [Junction; 2]) -> Self {
			Junctions::X2(j)
		}
	}
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] {
			match self {
				Junctions::Here => &[],
				Junctions::X1(a) => a,
				Junctions::X2(a) => a,
			}
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub struct Location {
		pub parents: u8,
		pub interior: Junctions,
	}
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
			Location { parents, interior: interior.into() }
		}
		pub const fn here() -> Self {
			Location { parents: 0, interior: Junctions::Here }
		}
		pub fn parent() -> Self {
			Location { parents: 1, interior: Junctions::Here }
		}
		pub fn unpack(&self) -> (u8, &[Junction]) {
			(self.parents, self.interior.as_slice())
		}
	}
	impl From<Junction> for Location {
		fn from(j: Junction) -> Self {
			Location { parents: 0, interior: j.into() }
		}
	}
	impl From<Junctions> for Location {
		fn from(j: Junctions) -> Self {
			Location { parents: 0, interior: j }
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct ParentThen(pub Junctions);
	impl From<ParentThen> for Location {
		fn from(p: ParentThen) -> Self {
			Location { parents: 1, interior: p.0 }
		}
	}
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct Parent;
	impl From<Parent> for Location {
		fn from(_: Parent) -> Self {
			Location::parent()
		}
	}

	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub struct AssetId(pub Location);
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Fungibility {
		Fungible(#[codec(compact)] u128),
		NonFungible(u128),
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub struct Asset {
		pub id: AssetId,
		pub fun: Fungibility,
	}
	impl From<(Location, u128)> for Asset {
		fn from(x: (Location, u128)) -> Self {
			Asset { id: AssetId(x.0), fun: Fungibility::Fungible(x.1) }
		}
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, Default)]
	pub struct Assets(Vec<Asset>);
	impl Assets {
		pub fn into_inner(self) -> Vec<Asset> {
			self.0
		}
	}
	impl From<Vec<Asset>> for Assets {
		fn from(x: Vec<Asset>) -> Self {
			Assets(x)
		}
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum WildAsset {
		All,
		AllCounted(#[codec(compact)] u32),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum AssetFilter {
		Definite(Assets),
		Wild(WildAsset),
	}

	pub type MaxPalletNameLen = ConstU32<48>;
	pub type MaxPalletsInfo = ConstU32<64>;
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct PalletInfo {
		#[codec(compact)]
		pub index: u32,
		pub name: BoundedVec<u8, MaxPalletNameLen>,
		pub module_name: BoundedVec<u8, MaxPalletNameLen>,
		#[codec(compact)]
		pub major: u32,
		#[codec(compact)]
		pub minor: u32,
		#[codec(compact)]
		pub patch: u32,
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum MaybeErrorCode {
		Success,
		Error(BoundedVec<u8, ConstU32<128>>),
		TruncatedError(BoundedVec<u8, ConstU32<128>>),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Default)]
	pub enum Response {
		#[default]
		Null,
		Assets(Assets),
		ExecutionResult(Option<(u32, u32)>),
		Version(u32),
		PalletsInfo(BoundedVec<PalletInfo, MaxPalletsInfo>),
		DispatchResult(MaybeErrorCode),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct QueryResponseInfo {
		pub destination: Location,
		#[codec(compact)]
		pub query_id: QueryId,
		pub max_weight: Weight,
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum WeightLimit {
		Unlimited,
		Limited(Weight),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum OriginKind {
		Native,
		SovereignAccount,
		Superuser,
		Xcm,
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct DoubleEncoded {
		pub encoded: Vec<u8>,
	}
	impl From<Vec<u8>> for DoubleEncoded {
		fn from(encoded: Vec<u8>) -> Self {
			DoubleEncoded { encoded }
		}
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub enum Instruction<Call> {
		#[codec(index = 0)]
		WithdrawAsset(Assets),
		#[codec(index = 6)]
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded },
		#[codec(index = 13)]
		DepositAsset { assets: AssetFilter, beneficiary: Location },
		#[codec(index = 16)]
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
		#[codec(index = 19)]
		BuyExecution { fees: Asset, weight_limit: WeightLimit },
		#[codec(index = 20)]
		RefundSurplus,
		#[codec(index = 33)]
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
		#[codec(index = 35)]
		ReportTransactStatus(QueryResponseInfo),
		#[codec(index = 47)]
		UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
		#[codec(index = 255)]
		Phantom(core::marker::PhantomData<Call>),
	}
	#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	pub mod opaque {
		pub type Xcm = super::Xcm<()>;
	}

	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum Error {
		Unimplemented,
		BadOrigin,
		ExceedsMaxMessageSize,
		Transport(&'static str),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum SendError {
		NotApplicable,
		Transport(&'static str),
		Unroutable,
		ExceedsMaxMessageSize,
	}
	impl From<SendError> for Error {
		fn from(e: SendError) -> Self {
			match e {
				SendError::Transport(s) => Error::Transport(s),
				SendError::ExceedsMaxMessageSize => Error::ExceedsMaxMessageSize,
				_ => Error::Transport("send"),
			}
		}
	}
	pub type Result = core::result::Result<(), Error>;
	pub type SendResult<T> = core::result::Result<(T, Assets), SendError>;
	pub trait SendXcm {
		type Ticket;
		fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
		fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError>;
	}
	pub mod prelude {
		pub use super::{
			Asset, AssetFilter,
			AssetFilter::*,
			AssetId, Assets, Error as XcmError, Fungibility,
			Fungibility::*,
			Instruction,
			Instruction::*,
			Junction,
			Junction::*,
			Junctions,
			Junctions::*,
			Location, MaybeErrorCode, NetworkId, OriginKind, PalletInfo, Parent, ParentThen, QueryId, QueryResponseInfo,
			Response, Result as XcmResult, SendError, SendResult, SendXcm, Weight, WeightLimit,
			WeightLimit::*,
			WildAsset,
			WildAsset::*,
			Xcm, XcmHash,
		};
	}
}

//! Stand-in for pallet-xcm: response origins, query ids in sequence, and messages handed to the router.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;
#[frame_support::pallet(dev_mode)]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::BadOrigin;
	use xcm::v4::{Junctions, Location, QueryId, SendError, SendXcm, Xcm};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeCall: Parameter;
		type XcmRouter: SendXcm;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::origin]
	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}
	#[pallet::storage]
	pub type QueryCounter<T: Config> = StorageValue<_, QueryId, ValueQuery>;
	/// who may answer, what is called then, until when
	#[pallet::storage]
	#[pallet::unbounded]
	pub type Queries<T: Config> =
		StorageMap<_, Twox64Concat, QueryId, (Location, <T as Config>::RuntimeCall, BlockNumberFor<T>)>;

	impl<T: Config> Pallet<T> {
		pub fn new_notify_query(
			responder: impl Into<Location>,
			notify: impl Into<<T as Config>::RuntimeCall>,
			timeout: BlockNumberFor<T>,
			_match_querier: impl Into<Location>,
		) -> QueryId {
			let id = QueryCounter::<T>::get();
			QueryCounter::<T>::put(id + 1);
			Queries::<T>::insert(id, (responder.into(), notify.into(), timeout));
			id
		}
		pub fn send_xcm(
			_interior: impl Into<Junctions>,
			dest: impl Into<Location>,
			message: Xcm<()>,
		) -> Result<xcm::v4::XcmHash, SendError> {
			let (ticket, _) = T::XcmRouter::validate(&mut Some(dest.into()), &mut Some(message))?;
			T::XcmRouter::deliver(ticket)
		}
	}
	pub fn ensure_response<OuterOrigin>(o: OuterOrigin) -> Result<Location, BadOrigin>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		match o.into() {
			Ok(Origin::Response(l)) => Ok(l),
			_ => Err(BadOrigin),
		}
	}
}

//! Stand-in for pallet-timestamp: its `Config::Moment` and `Now`, which is all that the code under test uses.
#![cfg_attr(not(feature = "std"), no_std)]
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use sp_runtime::traits::{AtLeast32Bit, Scale};
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Scale<u64, Output = Self::Moment> + Copy + MaxEncodedLen;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
}

#![cfg_attr(not(feature = "std"), no_std)]
pub mod primitives {
	use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Default)]
	pub struct Id(u32);
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> u32 {
			x.0
		}
	}
	pub type Sibling = Id;
}

//! Stand-in for the jwt-compact fork: a token is the signing key, an expiry and the SCALE-encoded claims.
//! `validate` accepts exactly the tokens whose key is the verifying key, which is what a sound signature scheme provides.
#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;
use alloc::vec::Vec;
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct UntrustedToken {
	pub key: [u8; 32],
	/// milliseconds
	pub expiration: Option<i64>,
	pub claims: Vec<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Timestamp(pub i64);
impl Timestamp {
	pub fn timestamp_millis(&self) -> i64 {
		self.0
	}
}
#[derive(Clone, Debug)]
pub struct Claims<T> {
	pub expiration: Option<Timestamp>,
	pub custom: T,
}
#[derive(Clone, Debug)]
pub struct Token<T> {
	claims: Claims<T>,
}
impl<T> Token<T> {
	pub fn claims(&self) -> &Claims<T> {
		&self.claims
	}
}
#[derive(Debug, PartialEq, Eq)]
pub enum ValidationError {
	InvalidSignature,
	MalformedClaims,
}
pub trait Algorithm {
	type VerifyingKey;
}
pub trait AlgorithmExt: Algorithm {
	fn validator<'a, T>(&'a self, key: &'a Self::VerifyingKey) -> Validator<'a, T>;
}
pub struct Validator<'a, T>(&'a alg::Ed25519Key, core::marker::PhantomData<T>);
impl<'a, T: Decode> Validator<'a, T> {
	pub fn validate(&self, t: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		if t.key != self.0 .0 {
			return Err(ValidationError::InvalidSignature);
		}
		let custom = T::decode(&mut &t.claims[..]).map_err(|_| ValidationError::MalformedClaims)?;
		Ok(Token { claims: Claims { expiration: t.expiration.map(Timestamp), custom } })
	}
}
pub mod alg {
	pub struct Ed25519;
	pub struct Ed25519Key(pub [u8; 32]);
	pub trait VerifyingKey<A>: Sized {
		fn from_slice(b: &[u8]) -> Result<Self, ()>;
	}
	impl VerifyingKey<Ed25519> for Ed25519Key {
		fn from_slice(b: &[u8]) -> Result<Self, ()> {
			<[u8; 32]>::try_from(b).map(Ed25519Key).map_err(|_| ())
		}
	}
	impl super::Algorithm for Ed25519 {
		type VerifyingKey = Ed25519Key;
	}
	impl super::AlgorithmExt for Ed25519 {
		fn validator<'a, T>(&'a self, key: &'a Ed25519Key) -> super::Validator<'a, T> {
			super::Validator(key, core::marker::PhantomData)
		}
	}
}

//! Type-level stand-in for jwt-compact: the items the analysed crates name, nothing more. Never run.
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use serde::de::DeserializeOwned;

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct UntrustedToken(Vec<u8>);

#[derive(Debug)]
pub enum ParseError {
	InvalidTokenStructure,
}

impl UntrustedToken {
	pub fn new(_: &str) -> Result<Self, ParseError> {
		unimplemented!()
	}
}

#[derive(Debug)]
pub enum ValidationError {
	InvalidSignature,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct DateTime(i64);
impl DateTime {
	pub fn timestamp_millis(&self) -> i64 {
		unimplemented!()
	}
	pub fn timestamp(&self) -> i64 {
		unimplemented!()
	}
}

#[derive(Clone, Debug)]
pub struct Claims<T> {
	pub expiration: Option<DateTime>,
	pub not_before: Option<DateTime>,
	pub issued_at: Option<DateTime>,
	pub custom: T,
}

#[derive(Clone, Debug)]
pub struct Token<T> {
	claims: Claims<T>,
}
impl<T> Token<T> {
	pub fn claims(&self) -> &Claims<T> {
		&self.claims
	}
}

pub trait Algorithm {
	type SigningKey;
	type VerifyingKey;
}

pub trait AlgorithmExt: Algorithm {
	fn validator<'a, T>(&'a self, verifying_key: &'a Self::VerifyingKey) -> Validator<'a, Self, T>;
}

pub struct Validator<'a, A: ?Sized + Algorithm, T> {
	_key: &'a A::VerifyingKey,
	_p: core::marker::PhantomData<T>,
}
impl<'a, A: ?Sized + Algorithm, T: DeserializeOwned> Validator<'a, A, T> {
	pub fn validate(&self, _token: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		unimplemented!()
	}
}

impl<A: Algorithm> AlgorithmExt for A {
	fn validator<'a, T>(&'a self, verifying_key: &'a Self::VerifyingKey) -> Validator<'a, Self, T> {
		Validator { _key: verifying_key, _p: core::marker::PhantomData }
	}
}

pub mod alg {
	#[derive(Debug)]
	pub struct KeyError;
	pub trait VerifyingKey<T>: Sized {
		fn from_slice(raw: &[u8]) -> Result<Self, KeyError>;
	}
	pub struct Ed25519;
	pub struct PublicKey;
	pub struct SecretKey;
	impl VerifyingKey<Ed25519> for PublicKey {
		fn from_slice(_: &[u8]) -> Result<Self, KeyError> {
			unimplemented!()
		}
	}
	impl super::Algorithm for Ed25519 {
		type SigningKey = SecretKey;
		type VerifyingKey = PublicKey;
	}
}

//! Type-level stand-in: parachain ids.
pub mod primitives {
	use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	#[derive(
		Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, TypeInfo, MaxEncodedLen, CompactAs,
		serde::Serialize, serde::Deserialize,
	)]
	pub struct Id(u32);
	impl Id {
		pub const fn new(id: u32) -> Self {
			Self(id)
		}
	}
	impl From<Id> for u32 {
		fn from(x: Id) -> Self {
			x.0
		}
	}
	impl From<u32> for Id {
		fn from(x: u32) -> Self {
			Id(x)
		}
	}
	#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
	pub struct Sibling(pub Id);
	impl From<Id> for Sibling {
		fn from(i: Id) -> Self {
			Self(i)
		}
	}
	impl From<u32> for Sibling {
		fn from(i: u32) -> Self {
			Self(i.into())
		}
	}
	impl sp_runtime::TypeId for Sibling {
		const TYPE_ID: [u8; 4] = *b"sibl";
	}
}

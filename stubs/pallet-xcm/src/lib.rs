//! Type-level stand-in for pallet-xcm: the items the analysed crates name, nothing more. Never run.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::BlockNumberFor;
	use sp_runtime::traits::BadOrigin;
	use xcm::v4::{Junctions, Location, QueryId, SendError, SendXcm, Xcm, XcmHash};

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeOrigin: From<Origin> + From<<Self as frame_system::Config>::RuntimeOrigin>;
		type RuntimeCall: Parameter;
		type XcmRouter: SendXcm;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[derive(PartialEq, Eq, Clone, Encode, Decode, RuntimeDebug, TypeInfo, MaxEncodedLen)]
	pub enum Origin {
		Xcm(Location),
		Response(Location),
	}

	impl<T: Config> Pallet<T> {
		pub fn new_notify_query(
			_responder: impl Into<Location>,
			_notify: impl Into<<T as Config>::RuntimeCall>,
			_timeout: BlockNumberFor<T>,
			_match_querier: impl Into<Location>,
		) -> QueryId {
			unimplemented!()
		}
		pub fn send_xcm(
			_interior: impl Into<Junctions>,
			_dest: impl Into<Location>,
			_message: Xcm<()>,
		) -> Result<XcmHash, SendError> {
			unimplemented!()
		}
	}

	pub fn ensure_response<OuterOrigin>(_o: OuterOrigin) -> Result<Location, BadOrigin>
	where
		OuterOrigin: Into<Result<Origin, OuterOrigin>>,
	{
		unimplemented!()
	}
}

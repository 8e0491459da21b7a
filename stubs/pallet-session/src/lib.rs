//! Type-level stand-in: the items the analysed crates name, nothing more.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
}
use sp_staking::SessionIndex;
pub trait SessionManager<ValidatorId> {
	fn new_session(new_index: SessionIndex) -> Option<Vec<ValidatorId>>;
	fn end_session(end_index: SessionIndex);
	fn start_session(start_index: SessionIndex);
}
pub trait ShouldEndSession<BlockNumber> {
	fn should_end_session(now: BlockNumber) -> bool;
}

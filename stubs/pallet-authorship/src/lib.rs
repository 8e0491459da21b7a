//! Type-level stand-in: the items the analysed crates name, nothing more.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
}
pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}

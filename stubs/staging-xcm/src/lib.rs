//! Type-level stand-in for staging-xcm: the items the analysed crates name, nothing more. Never run.
pub mod v4;
pub use v4 as latest;
pub mod prelude {
	pub use crate::v4::prelude::*;
}

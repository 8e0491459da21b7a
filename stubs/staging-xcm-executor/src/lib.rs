//! Type-level stand-in for the HRMP hooks the funding pallet implements.
pub mod traits {
	use xcm::v4::Result as XcmResult;
	pub trait HandleHrmpNewChannelOpenRequest {
		fn handle(sender: u32, max_message_size: u32, max_capacity: u32) -> XcmResult;
	}
	pub trait HandleHrmpChannelAccepted {
		fn handle(recipient: u32) -> XcmResult;
	}
}

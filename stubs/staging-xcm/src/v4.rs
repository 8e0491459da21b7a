use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use sp_weights::Weight;
use frame_support::BoundedVec;

pub type QueryId = u64;
pub type XcmHash = [u8; 32];
pub type Result = core::result::Result<(), Error>;
pub type SendResult<T> = core::result::Result<(T, Assets), SendError>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum NetworkId {
	Polkadot,
	Kusama,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Junction {
	Parachain(u32),
	AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
	PalletInstance(u8),
	GeneralIndex(u128),
	OnlyChild,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Junctions {
	Here,
	X1([Junction; 1]),
	X2([Junction; 2]),
}
impl From<Junction> for Junctions {
	fn from(j: Junction) -> Self {
		Junctions::X1([j])
	}
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Location {
	pub parents: u8,
	pub interior: Junctions,
}
impl Location {
	pub fn new(_parents: u8, _interior: impl Into<Junctions>) -> Location {
		unimplemented!()
	}
	pub const fn here() -> Location {
		Location { parents: 0, interior: Junctions::Here }
	}
	pub fn unpack(&self) -> (u8, &[Junction]) {
		unimplemented!()
	}
}
impl From<Junctions> for Location {
	fn from(interior: Junctions) -> Self {
		Location { parents: 0, interior }
	}
}
impl From<Junction> for Location {
	fn from(_: Junction) -> Self {
		unimplemented!()
	}
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ParentThen(pub Junctions);
impl From<ParentThen> for Location {
	fn from(_: ParentThen) -> Self {
		unimplemented!()
	}
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub enum AssetInstance {
	Undefined,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub enum Fungibility {
	Fungible(u128),
	NonFungible(AssetInstance),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub struct AssetId(pub Location);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub struct Asset {
	pub id: AssetId,
	pub fun: Fungibility,
}
impl From<(Location, u128)> for Asset {
	fn from((l, n): (Location, u128)) -> Self {
		Asset { id: AssetId(l), fun: Fungibility::Fungible(n) }
	}
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo, Default)]
pub struct Assets(Vec<Asset>);
impl Assets {
	pub fn new() -> Self {
		Self(Vec::new())
	}
	pub fn into_inner(self) -> Vec<Asset> {
		self.0
	}
}
impl From<Vec<Asset>> for Assets {
	fn from(v: Vec<Asset>) -> Self {
		Assets(v)
	}
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub enum WildAsset {
	All,
	AllCounted(u32),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub enum AssetFilter {
	Definite(Assets),
	Wild(WildAsset),
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum Error {
	BadOrigin,
	Transport(#[codec(skip)] &'static str),
	ExceedsMaxMessageSize,
	Unimplemented,
	Overflow,
	NoDeal,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SendError {
	NotApplicable,
	Transport(&'static str),
	Unroutable,
	DestinationUnsupported,
	ExceedsMaxMessageSize,
	MissingArgument,
	Fees,
}
impl From<SendError> for Error {
	fn from(_: SendError) -> Self {
		unimplemented!()
	}
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum WeightLimit {
	Unlimited,
	Limited(Weight),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, TypeInfo)]
pub enum OriginKind {
	Native,
	SovereignAccount,
	Superuser,
	Xcm,
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct DoubleEncoded {
	encoded: Vec<u8>,
}
impl From<Vec<u8>> for DoubleEncoded {
	fn from(encoded: Vec<u8>) -> Self {
		DoubleEncoded { encoded }
	}
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct QueryResponseInfo {
	pub destination: Location,
	#[codec(compact)]
	pub query_id: QueryId,
	pub max_weight: Weight,
}

pub type MaxPalletNameLen = frame_support::traits::ConstU32<48>;
pub type MaxPalletsInfo = frame_support::traits::ConstU32<64>;
pub type MaxDispatchErrorLen = frame_support::traits::ConstU32<128>;

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct PalletInfo {
	#[codec(compact)]
	pub index: u32,
	pub name: BoundedVec<u8, MaxPalletNameLen>,
	pub module_name: BoundedVec<u8, MaxPalletNameLen>,
	#[codec(compact)]
	pub major: u32,
	#[codec(compact)]
	pub minor: u32,
	#[codec(compact)]
	pub patch: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum MaybeErrorCode {
	Success,
	Error(BoundedVec<u8, MaxDispatchErrorLen>),
	TruncatedError(BoundedVec<u8, MaxDispatchErrorLen>),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Default)]
pub enum Response {
	#[default]
	Null,
	Assets(Assets),
	ExecutionResult(Option<(u32, Error)>),
	Version(u32),
	PalletsInfo(BoundedVec<PalletInfo, MaxPalletsInfo>),
	DispatchResult(MaybeErrorCode),
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum Instruction<Call> {
	WithdrawAsset(Assets),
	BuyExecution { fees: Asset, weight_limit: WeightLimit },
	Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded },
	RefundSurplus,
	DepositAsset { assets: AssetFilter, beneficiary: Location },
	ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter },
	QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo },
	ReportTransactStatus(QueryResponseInfo),
	UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
	#[codec(skip)]
	Phantom(core::marker::PhantomData<Call>),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct Xcm<Call>(pub Vec<Instruction<Call>>);

pub mod opaque {
	pub type Xcm = super::Xcm<()>;
}
pub trait SendXcm {
	type Ticket;
	fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
	fn deliver(ticket: Self::Ticket) -> core::result::Result<XcmHash, SendError>;
}
pub mod prelude {
	pub use super::{
		Asset, AssetFilter::{self, *}, AssetId, AssetInstance, Assets, Error as XcmError, Fungibility::{self, *},
		Instruction::*, Junction::{self, *}, Junctions::{self, Here, X1, X2}, Location, MaybeErrorCode, NetworkId::{self, *},
		OriginKind, PalletInfo, ParentThen, QueryId, QueryResponseInfo, Response, Result as XcmResult, SendError, SendResult,
		SendXcm, Weight, WeightLimit::{self, *}, WildAsset::{self, *}, Xcm, XcmHash,
	};
}

DW = "pallets/democracy/src/weights.rs"
EW = "pallets/elections-phragmen/src/weights.rs"
SLOPE = "			.saturating_add(T::DbWeight::get().writes((1_u64).saturating_mul(r.into())))\n			.saturating_add(Weight::from_parts(0, 2676).saturating_mul(r.into()))\n"
HD = "	fn delegate(r: u32, ) -> Weight {\n		// Proof Size summary in bytes:\n		//  Measured:  `830 + r * (108 ±0)`\n		//  Estimated: `19800 + r * (2676 ±0)`\n		// Minimum execution time: 46_106_000 picoseconds.\n		Weight::from_parts(48_936_654, 19800)\n			// Standard Error: 8_879\n			.saturating_add(Weight::from_parts(4_708_141, 0).saturating_mul(r.into()))\n			.saturating_add(T::DbWeight::get().reads(5_u64))\n			.saturating_add(T::DbWeight::get().reads((1_u64).saturating_mul(r.into())))\n			.saturating_add(T::DbWeight::get().writes(4_u64))\n"
EL = "			.saturating_add(%s::get().reads((1_u64).saturating_mul(v.into())))\n			.saturating_add(%s::get().writes(6_u64))\n			.saturating_add(%s::get().writes((1_u64).saturating_mul(c.into())))\n"
def el(w):
    return EL % (w, w, w)
def cut(w):
    return el(w).replace("			.saturating_add(%s::get().reads((1_u64).saturating_mul(v.into())))\n" % w, "")
EX = "		// Minimum execution time: 67_802_000 picoseconds.\n		Weight::from_parts(69_132_000, 7260)\n			.saturating_add(T::DbWeight::get().reads(4_u64))\n			.saturating_add(T::DbWeight::get().writes(3_u64))\n"
SEEDS = [
dict(id="w-delegate-proof", prop="C68", pallet="democracy",
 edits=[(DW, HD + SLOPE, HD + "			.saturating_add(T::DbWeight::get().writes((1_u64).saturating_mul(r.into())))\n			.saturating_add(Weight::from_parts(0, 2676))\n")],
 needs="a delegation to an account with more than one vote, charged by the chain's own table", breaks="the proof of only one of the target's referenda is charged",
 demo="""use super::*;
use crate::weights::{SubstrateWeight, WeightInfo};
#[test]
fn vp_demo_w() {
	for r in [0u32, 1, 2, 50, 99] {
		assert!(SubstrateWeight::<Test>::delegate(r).proof_size() >= 19800 + 2676 * r as u64);
	}
}
"""),
dict(id="w-election-voters", prop="C68", pallet="elections-phragmen",
 edits=[(EW, el("T::DbWeight"), cut("T::DbWeight")), (EW, el("RocksDbWeight"), cut("RocksDbWeight"))],
 needs="an election with voters", breaks="the election is not charged for reading each voter, in either table",
 demo="""use super::*;
use frame_support::weights::constants::RocksDbWeight;
#[test]
fn vp_demo_w() {
	let base = <() as WeightInfo>::election_phragmen(4, 10, 600);
	for more in [1u32, 7, 100] {
		let read = RocksDbWeight::get().reads(more as u64).ref_time();
		let cost = <() as WeightInfo>::election_phragmen(4, 10 + more, 600).ref_time() - base.ref_time();
		assert!(cost >= 17_761_407 * more as u64 + read);
	}
}
"""),
dict(id="w-vote-digit", prop="C68", pallet="democracy",
 edits=[(DW, EX, EX.replace("69_132_000", "6_913_200"))],
 needs="a changed vote, charged by the chain's own table", breaks="a vote that replaces another costs a tenth of the time it takes",
 demo="""use super::*;
use crate::weights::{SubstrateWeight, WeightInfo};
#[test]
fn vp_demo_w() {
	assert!(SubstrateWeight::<Test>::vote_existing().ref_time() >= 67_802_000);
	assert!(<() as WeightInfo>::vote_existing().ref_time() >= 67_802_000);
}
"""),
]

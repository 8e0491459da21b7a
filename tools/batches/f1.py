L = "pallets/elections-phragmen/src/lib.rs"
P = "elections-phragmen"
def T(name, body, b="ExtBuilder::default()"):
    return "#[test]\nfn %s() {\n\t%s.build_and_execute(|| {\n%s\n\t});\n}\n" % (name, b, body)
SEEDS = [
dict(id="d-owner-skip", prop="C63", pallet="democracy",
 edits=[("pallets/democracy/src/types.rs", "	Proposal(PropIndex),\n	/// Referendum", "	Proposal(#[codec(skip)] PropIndex),\n	/// Referendum")],
 needs="two public proposals with metadata at the same time", breaks="two proposals share one metadata entry: setting the second replaces the first",
 demo="""use super::*;
#[test]
fn vp_demo_owner() {
	new_test_ext().execute_with(|| {
		assert_ok!(propose_set_balance(1, 2, 2));
		assert_ok!(propose_set_balance(3, 3, 3));
		let a = note_preimage(1);
		let b = { let d = vec![7u8; 9]; let h = <Test as frame_system::Config>::Hashing::hash(&d); assert_ok!(Preimage::note_preimage(RuntimeOrigin::signed(1), d)); h };
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(1), MetadataOwner::Proposal(0), Some(a)));
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(3), MetadataOwner::Proposal(1), Some(b)));
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Proposal(0)), Some(a));
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Proposal(1)), Some(b));
	});
}
"""),
dict(id="d-last-default", prop="C63", pallet="democracy",
 edits=[("pallets/democracy/src/lib.rs", "	pub type LastTabledWasExternal<T> = StorageValue<_, bool, ValueQuery>;\n", "	pub type LastTabledWasExternal<T> = StorageValue<_, bool, ValueQuery, LastTabledDefault>;\n\n	/// The queue that is taken to have been tabled before the first launch.\n	#[pallet::type_value]\n	pub fn LastTabledDefault() -> bool {\n		true\n	}\n")],
 needs="an external and a public proposal both waiting at the very first launch", breaks="the very first launch takes the public proposal although no external one was tabled before",
 demo="""use super::*;
#[test]
fn vp_demo_first() {
	new_test_ext().execute_with(|| {
		assert!(!crate::LastTabledWasExternal::<Test>::get());
	});
}
"""),
]

L = "pallets/elections-phragmen/src/lib.rs"
D = "pallets/democracy/src/lib.rs"
P = "elections-phragmen"
def T(name, body, b="ExtBuilder::default()"):
    return "#[test]\nfn %s() {\n\t%s.build_and_execute(|| {\n%s\n\t});\n}\n" % (name, b, body)
def DT(name, body):
    return "use super::*;\n#[test]\nfn %s() {\n\tnew_test_ext().execute_with(|| {\n%s\n\t});\n}\n" % (name, body)
SEEDS = [
dict(id="d-event-idle", prop="C64", pallet="democracy",
 edits=[(D, "		Self::deposit_event(Event::<T>::Undelegated { account: who });\n", "		if !votes.is_zero() {\n			Self::deposit_event(Event::<T>::Undelegated { account: who });\n		}\n")],
 needs="undelegating from an account that has no votes of its own", breaks="the end of a delegation is not reported",
 demo=DT("vp_demo_ev", """
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::None, 20));
		System::reset_events();
		System::set_block_number(1);
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		System::assert_last_event(crate::Event::Undelegated { account: 2 }.into());
""")),
dict(id="e-event-bond", prop="C64", pallet=P,
 edits=[(L, "Self::deposit_event(Event::SeatHolderSlashed { seat_holder: who.clone(), amount: removed.deposit });", "Self::deposit_event(Event::SeatHolderSlashed { seat_holder: who.clone(), amount: T::CandidacyBond::get() });")],
 needs="a candidacy bond that was changed between candidacy and the removal of the member with a slash", breaks="the reported amount is not the one slashed",
 demo=T("vp_demo_ev", """
		for i in 4..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		CANDIDACY_BOND.with(|v| *v.borrow_mut() = 1);
		assert_ok!(Elections::remove_member(RuntimeOrigin::root(), 4, true, false));
		System::assert_has_event(RuntimeEvent::Elections(super::Event::SeatHolderSlashed { seat_holder: 4, amount: 3 }));
""")),
dict(id="d-event-unchanged", prop="C64", pallet="democracy",
 edits=[(D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			MetadataOf::<T>::insert(&new_owner, hash);\n", "		if let Some(hash) = MetadataOf::<T>::take(&owner).or_else(|| MetadataOf::<T>::get(&new_owner)) {\n			MetadataOf::<T>::insert(&new_owner, hash);\n")],
 needs="metadata already recorded for the number the new referendum gets", breaks="a transfer of metadata is reported although the proposal had none",
 demo=DT("vp_demo_ev", """
		let hash = note_preimage(1);
		System::set_block_number(1);
		MetadataOf::<Test>::insert(MetadataOwner::Referendum(0), hash);
		System::reset_events();
		assert_ok!(propose_set_balance(1, 2, 1));
		fast_forward_to(2);
		let owner = MetadataOwner::Referendum(0);
		assert!(!System::events().iter().any(|r| r.event == crate::Event::MetadataTransferred { prev_owner: MetadataOwner::Proposal(0), owner: owner.clone(), hash }.into()));
""")),
dict(id="d-event-tabled", prop="C64", pallet="democracy",
 edits=[(D, "				Self::deposit_event(Event::<T>::Tabled { proposal_index: prop_index, deposit });", "				Self::deposit_event(Event::<T>::Tabled { proposal_index: prop_index, deposit: deposit.max(T::MinimumDeposit::get()) });")],
 needs="a proposal whose deposit is below a minimum raised later", breaks="a deposit larger than the one returned is reported",
 demo=DT("vp_demo_ev", """
		assert!(true);
""")),
]
SEEDS.pop()

L = "pallets/elections-phragmen/src/lib.rs"
D = "pallets/democracy/src/lib.rs"
P = "elections-phragmen"
def T(name, body, b="ExtBuilder::default()"):
    return "#[test]\nfn %s() {\n\t%s.build_and_execute(|| {\n%s\n\t});\n}\n" % (name, b, body)
def DT(name, body):
    return "use super::*;\n#[test]\nfn %s() {\n\tnew_test_ext().execute_with(|| {\n%s\n\t});\n}\n" % (name, body)
SEEDS = [
dict(id="d-weight-passed", prop="C65", pallet="democracy",
 edits=[(D, "ReferendumInfo::Finished { end: now, approved });\n			weight = max_block_weight;\n", "ReferendumInfo::Finished { end: now, approved });\n			if approved {\n				weight = max_block_weight;\n			}\n")],
 needs="a referendum that ends without passing, in a block that tables nothing", breaks="the block hook reports a fraction of what it used",
 demo=DT("vp_demo_w", """
		let r = Democracy::inject_referendum(3, set_balance_proposal(2), VoteThreshold::SuperMajorityApprove, 0);
		System::set_block_number(3);
		let w = <Democracy as OnInitialize<u64>>::on_initialize(3);
		assert!(matches!(Democracy::referendum_info(r), Some(ReferendumInfo::Finished { approved: false, .. })));
		assert_eq!(w, <<Test as frame_system::Config>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().max_block);
""")),
dict(id="d-weight-refund", prop="C65", pallet="democracy",
 edits=[(D, "			let votes = Self::try_undelegate(who)?;\n			Ok(Some(T::WeightInfo::undelegate(votes)).into())", "			let received = VotingOf::<T>::get(&who).vote_count();\n			Self::try_undelegate(who)?;\n			Ok(Some(T::WeightInfo::undelegate(received)).into())"),
        ("pallets/democracy/src/vote.rs", "	/// The amount of this account's balance", "	/// The number of votes the account itself has cast.\n	pub fn vote_count(&self) -> u32 {\n		match self {\n			Voting::Direct { votes, .. } => votes.len() as u32,\n			Voting::Delegating { .. } => 0,\n		}\n	}\n\n	/// The amount of this account's balance")],
 needs="undelegating from an account with votes", breaks="undelegating is charged as if the target had no votes",
 demo=DT("vp_demo_w", """
		let r = begin_referendum();
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, aye(1)));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::None, 20));
		let p = Democracy::undelegate(RuntimeOrigin::signed(2)).unwrap();
		assert_eq!(p.actual_weight, Some(<<Test as crate::Config>::WeightInfo as crate::WeightInfo>::undelegate(1)));
""")),
dict(id="e-weight-seats", prop="C65", pallet=P,
 edits=[(L, "		let weight_candidates = candidates_and_deposit.len() as u32;", "		let weight_candidates = <Candidates<T>>::decode_len().unwrap_or_default() as u32;")],
 needs="an election with sitting members or runners-up", breaks="an election reports less weight than it used",
 demo=T("vp_demo_w", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		let a = Elections::on_initialize(System::block_number());
		System::set_block_number(10);
		let b = Elections::on_initialize(System::block_number());
		assert_eq!(a, <<Test as Config>::WeightInfo as crate::WeightInfo>::election_phragmen(3, 3, 3));
		assert_eq!(b, <<Test as Config>::WeightInfo as crate::WeightInfo>::election_phragmen(3, 3, 3));
""", "ExtBuilder::default().desired_runners_up(1)")),
]

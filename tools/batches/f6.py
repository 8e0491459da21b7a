D = "pallets/democracy/src/lib.rs"
TH = "pallets/democracy/src/vote_threshold.rs"
E = "pallets/elections-phragmen/src/lib.rs"
def DT(name, body):
    return "use super::*;\n#[test]\nfn %s() {\n\tnew_test_ext().execute_with(|| {\n%s\n\t});\n}\n" % (name, body)
SEEDS = [
dict(id="d-panic-cancel", prop="C67", pallet="democracy",
 edits=[(D, "			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));\n", """			PublicProps::<T>::mutate(|props| {
				if props.last().map_or(false, |p| p.0 >= prop_index) {
					let at = props.iter().position(|p| p.0 == prop_index).expect("proposals wait in the order they were made");
					props.remove(at);
				}
			});
""")],
 needs="cancelling a proposal that has already left the queue while a later one waits", breaks="the call panics instead of ending",
 demo=DT("vp_demo_p", """
		for i in 0..3u64 { assert_ok!(propose_set_balance(1, 2 + i, 2)); }
		assert_ok!(Democracy::cancel_proposal(RuntimeOrigin::root(), 1));
		assert_ok!(Democracy::cancel_proposal(RuntimeOrigin::root(), 1));
		assert_eq!(PublicProps::<Test>::get().len(), 2);
""")),
dict(id="d-panic-tie", prop="C67", pallet="democracy",
 edits=[(TH, "		if r2.is_zero() {\n			return false;\n		}\n		if r1.is_zero() {\n			return true;\n		}\n", "		if r2.is_zero() && !r1.is_zero() {\n			return false;\n		}\n		if r1.is_zero() && !r2.is_zero() {\n			return true;\n		}\n")],
 needs="a referendum whose both sides weigh exactly the same", breaks="the block hook that counts the votes panics, so that no block can be made",
 demo=DT("vp_demo_p", """
		let tie = Tally::<u64> { ayes: 50, nays: 50, turnout: 100 };
		assert!(!VoteThreshold::SuperMajorityApprove.approved(tie, 100));
""")),
dict(id="e-panic-runner", prop="C67", pallet="elections-phragmen",
 edits=[(E, "					let new_runners_up_sorted_by_rank = new_set_with_stake;\n", """					let new_runners_up_sorted_by_rank = new_set_with_stake;
					if split_point == desired_seats && winner_count > desired_seats {
						let (next, _) = new_runners_up_sorted_by_rank.last().expect("more winners than seats");
						log::debug!(target: LOG_TARGET, "next in line: {:?}", next);
					}
"""), (E, "					// filter out those who end up with no backing stake.\n", "					let winner_count = winners.len();\n					// filter out those who end up with no backing stake.\n")],
 needs="an election that fills every seat and whose runners-up have no backing", breaks="the block hook that holds the election panics, so that no block can be made",
 demo="""use super::*;
#[test]
fn vp_demo_p() {
	ExtBuilder::default().desired_runners_up(1).build_and_execute(|| {
		for i in [3, 4, 5] { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); }
		assert_ok!(vote(RuntimeOrigin::signed(4), vec![4], 40));
		assert_ok!(vote(RuntimeOrigin::signed(5), vec![5], 50));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), vec![4, 5]);
	});
}
"""),
]

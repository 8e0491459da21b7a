SEEDS = [
dict(id="d-vote-six", prop="C63", pallet="democracy",
 edits=[("pallets/democracy/src/vote.rs", "Conviction::try_from(b & 0b0111_1111)", "Conviction::try_from((b & 0b0111_1111).min(Conviction::Locked5x.into()))")],
 needs="a vote with the strongest conviction", breaks="a vote cast with six-fold conviction is read back as five-fold",
 demo="""use super::*;
#[test]
fn vp_demo_six() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		let v = AccountVote::Standard { vote: Vote { aye: true, conviction: Conviction::Locked6x }, balance: 5 };
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, v));
		assert_eq!(tally(r).ayes, 30);
		assert_ok!(Democracy::remove_vote(RuntimeOrigin::signed(1), r));
		assert_eq!(tally(r).ayes, 0);
	});
}
"""),
]

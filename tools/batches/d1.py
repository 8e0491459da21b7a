L = "pallets/democracy/src/lib.rs"
U = "use super::*;\n"
SEEDS = [
dict(id="d-revote-side", prop="C08", pallet="democracy",
 edits=[(L, """						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;""", """						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						votes[i].1 = vote;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}""")],
 needs="a voter with delegations behind them changes sides on the same referendum", breaks="the delegated weight is taken off the new side instead of the old one, so the tally keeps votes nobody casts",
 demo=U + """
#[test]
fn vp_demo_tally() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, big_aye(1)));
		assert_eq!(tally(r), Tally { ayes: 30, nays: 0, turnout: 30 });
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, big_nay(1)));
		assert_eq!(tally(r), Tally { ayes: 0, nays: 30, turnout: 30 });
	});
}
"""),
dict(id="d-veto-again", prop="C05", pallet="democracy",
 edits=[(L, """			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();""",
 """			let now = <frame_system::Pallet<T>>::block_number();
			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash)
				.filter(|pair| pair.0.saturating_add(T::CooloffPeriod::get()) >= now)
				.map(|pair| pair.1)
				.unwrap_or_default();""")],
 needs="the same member vetoes the same proposal again more than two cool-offs after the first veto", breaks="vetoers are forgotten, so one member can veto a proposal for ever",
 demo=U + """
#[test]
fn vp_demo_veto() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		let h = set_balance_proposal(2).hash();
		assert_ok!(Democracy::veto_external(RuntimeOrigin::signed(3), h));
		System::set_block_number(50);
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		assert_noop!(Democracy::veto_external(RuntimeOrigin::signed(3), h), Error::<Test>::AlreadyVetoed);
	});
}
"""),
dict(id="d-backing-trunc", prop="C18", pallet="democracy",
 edits=[(L, "d.saturating_mul((l.len() as u32).into())", "d.saturating_mul((l.len() as u8).into())")],
 needs="a proposal with 256 or more seconds", breaks="the backing wraps around, so the most backed proposal is not the one tabled",
 demo=U + """
#[test]
fn vp_demo_backing() {
	new_test_ext().execute_with(|| {
		System::set_block_number(1);
		assert_ok!(Balances::force_set_balance(RuntimeOrigin::root(), 1, 1000));
		assert_ok!(propose_set_balance(2, 2, 2));
		assert_ok!(propose_set_balance(1, 3, 1));
		for _ in 0..255 {
			assert_ok!(Democracy::second(RuntimeOrigin::signed(1), 1));
		}
		fast_forward_to(2);
		assert_eq!(Democracy::referendum_count(), 1);
		assert!(Democracy::deposit_of(1).is_none());
		assert!(Democracy::deposit_of(0).is_some());
	});
}
"""),
dict(id="d-blacklist-any-ref", prop="C06", pallet="democracy",
 edits=[(L, """					if status.proposal.hash() == proposal_hash {
						Self::internal_cancel_referendum(ref_index);
					}""", """					if status.proposal.hash() == proposal_hash || status.end <= <frame_system::Pallet<T>>::block_number() {
						Self::internal_cancel_referendum(ref_index);
					}""")],
 needs="blacklisting with the number of another referendum in the very block in which that one ends", breaks="a referendum about a different proposal is cancelled",
 demo=U + """
#[test]
fn vp_demo_blacklist() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		let r = Democracy::inject_referendum(2, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
		System::set_block_number(2);
		assert_ok!(Democracy::blacklist(RuntimeOrigin::root(), set_balance_proposal(3).hash(), Some(r)));
		assert!(Democracy::referendum_status(r).is_ok());
	});
}
"""),
dict(id="d-fasttrack-zero", prop="C04", pallet="democracy",
 edits=[(L, """				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
			}

			ensure!(voting_period > Zero::zero(), Error::<T>::VotingPeriodLow);
""", """				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
				ensure!(delay > Zero::zero() || voting_period > Zero::zero(), Error::<T>::VotingPeriodLow);
			}

""")],
 needs="instant origin fast-tracks with a zero voting period and a non-zero delay", breaks="a referendum that ends in the block it starts, which no block hook will conclude",
 demo=U + """
#[test]
fn vp_demo_zero() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		INSTANT_ALLOWED.with(|v| *v.borrow_mut() = true);
		let h = set_balance_proposal(2).hash();
		assert_ok!(Democracy::external_propose_majority(RuntimeOrigin::signed(3), set_balance_proposal(2)));
		assert_noop!(Democracy::fast_track(RuntimeOrigin::signed(6), h, 0, 3), Error::<Test>::VotingPeriodLow);
		assert_noop!(Democracy::fast_track(RuntimeOrigin::signed(6), h, 0, 0), Error::<Test>::VotingPeriodLow);
		assert_ok!(Democracy::fast_track(RuntimeOrigin::signed(6), h, 1, 0));
	});
}
"""),
dict(id="d-cancel-dedup", prop="C01", pallet="democracy",
 edits=[(L, """			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
					T::Slash""", """			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				let mut whos = whos.into_inner();
				whos.dedup();
				for who in whos.into_iter() {
					T::Slash""")],
 needs="an account seconds a proposal twice in a row and the proposal is cancelled", breaks="the second deposit stays on hold for ever",
 demo=U + """
#[test]
fn vp_demo_dedup() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(propose_set_balance(1, 2, 4));
		assert_ok!(Democracy::second(RuntimeOrigin::signed(5), 0));
		assert_ok!(Democracy::second(RuntimeOrigin::signed(5), 0));
		assert_ok!(Democracy::cancel_proposal(RuntimeOrigin::root(), 0));
		assert_eq!(Balances::total_balance(&5), 42);
		assert_eq!(Balances::free_balance(5), 42);
	});
}
"""),
dict(id="d-decode-mask", prop="C12", pallet="democracy",
 edits=[("pallets/democracy/src/vote.rs", "Conviction::try_from(b & 0b0111_1111)", "Conviction::try_from(b & 0b0000_0111)")],
 needs="a byte with a bit between the flag and the level set", breaks="different bytes decode to the same vote, invalid bytes are accepted",
 demo="""use super::*;
use parity_scale_codec::{Decode, Encode};
#[test]
fn vp_demo_bytes() {
	for b in 0u8..=255 {
		match Vote::decode(&mut &[b][..]) {
			Ok(v) => assert_eq!(v.encode(), vec![b]),
			Err(_) => assert!(b & 0x7f > 6),
		}
	}
}
"""),
dict(id="d-threshold-cf", prop="C16", pallet="democracy",
 edits=[("pallets/democracy/src/vote_threshold.rs", """		if r2.is_zero() {
			return false;
		}
		if r1.is_zero() {
			return true;
		}""", """		if r1.is_zero() {
			return true;
		}
		if r2.is_zero() {
			return false;
		}""")],
 needs="ayes and nays that make both fractions exactly equal", breaks="an exact tie is approved",
 demo="""use super::*;
use crate::vote_threshold::Approved;
#[test]
fn vp_demo_tie() {
	assert!(!VoteThreshold::SuperMajorityApprove.approved(Tally { ayes: 50, nays: 50, turnout: 100 }, 100));
	assert!(!VoteThreshold::SuperMajorityAgainst.approved(Tally { ayes: 50, nays: 50, turnout: 100 }, 100));
	assert!(VoteThreshold::SuperMajorityApprove.approved(Tally { ayes: 51, nays: 49, turnout: 100 }, 100));
}
"""),
dict(id="d-blacklist-meta", prop="C20", pallet="democracy",
 edits=[(L, """				NextExternal::<T>::kill();
				Self::clear_metadata(MetadataOwner::External);
			}""", """				NextExternal::<T>::kill();
				if maybe_ref_index.is_none() {
					Self::clear_metadata(MetadataOwner::External);
				}
			}""")],
 needs="blacklisting the waiting external proposal together with a referendum number", breaks="the next external proposal inherits the metadata of the blacklisted one",
 demo=U + """
#[test]
fn vp_demo_meta() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		let hash = note_preimage(1);
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::External, Some(hash)));
		assert_ok!(Democracy::blacklist(RuntimeOrigin::root(), set_balance_proposal(2).hash(), Some(7)));
		assert!(MetadataOf::<Test>::get(MetadataOwner::External).is_none());
	});
}
"""),
]

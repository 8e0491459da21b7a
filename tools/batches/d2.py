L = "pallets/democracy/src/lib.rs"
U = "use super::*;\n"
SEEDS = [
dict(id="d-prior-shorter", prop="C14", pallet="democracy",
 edits=[("pallets/democracy/src/vote.rs", """		self.0 = self.0.max(until);
		self.1 = self.1.max(amount);""", """		if until >= self.0 {
			self.0 = until;
			self.1 = self.1.max(amount);
		}""")],
 needs="a long lock on a small amount followed by a shorter lock on a larger amount", breaks="the larger amount is not locked at all",
 demo=U + """
#[test]
fn vp_demo_prior() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked5x, 5));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		assert_ok!(Democracy::unlock(RuntimeOrigin::signed(2), 2));
		assert_eq!(balance_frozen_of(2), 20);
	});
}
"""),
dict(id="d-chain-capital", prop="C13", pallet="democracy",
 edits=[(L, """				// We don't support second level delegating, so we don't need to do anything more.
				*delegations = delegations.saturating_sub(amount);""", """				// We don't support second level delegating, so we don't need to do anything more.
				delegations.votes = delegations.votes.saturating_sub(amount.votes);""")],
 needs="undelegating from an account that itself delegates at that time and votes later", breaks="the former delegator's capital stays behind the target and is counted in the turnout of later votes",
 demo=U + """
#[test]
fn vp_demo_chain() {
	new_test_ext().execute_with(|| {
		let r = begin_referendum();
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 3, Conviction::Locked1x, 20));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(3), 4, Conviction::Locked1x, 30));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(3)));
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(3), r, big_aye(3)));
		assert_eq!(tally(r), Tally { ayes: 30, nays: 0, turnout: 30 });
	});
}
"""),
dict(id="d-mature-run", prop="C17", pallet="democracy",
 edits=[(L, """			.filter(|(_, status)| status.end == n)""", """			.skip_while(|(_, status)| status.end != n)
			.take_while(|(_, status)| status.end == n)""")],
 needs="two referenda that end in the same block with a longer one numbered between them", breaks="the later numbered referendum is never concluded",
 demo=U + """
#[test]
fn vp_demo_mature() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		let a = Democracy::inject_referendum(3, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
		let b = Democracy::inject_referendum(9, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
		let c = Democracy::inject_referendum(3, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
		for _ in 0..5 {
			next_block();
		}
		assert!(matches!(ReferendumInfoOf::<Test>::get(a), Some(ReferendumInfo::Finished { .. })));
		assert!(matches!(ReferendumInfoOf::<Test>::get(b), Some(ReferendumInfo::Ongoing(_))));
		assert!(matches!(ReferendumInfoOf::<Test>::get(c), Some(ReferendumInfo::Finished { .. })));
	});
}
"""),
dict(id="d-delay-min", prop="C17", pallet="democracy",
 edits=[(L, "let when = now.saturating_add(status.delay.max(One::one()));", "let when = now.max(One::one()).saturating_add(status.delay);")],
 needs="a referendum with no enactment delay", breaks="an approved call is scheduled for the current block, which the scheduler refuses, so it is never enacted",
 demo=U + """
#[test]
fn vp_demo_delay() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		let r = Democracy::inject_referendum(2, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), r, aye(1)));
		for _ in 0..5 {
			next_block();
		}
		assert_eq!(Balances::free_balance(42), 2);
	});
}
"""),
dict(id="d-default-meta-owner", prop="C20", pallet="democracy",
 edits=[(L, """			LastTabledWasExternal::<T>::put(true);
			Self::deposit_event(Event::<T>::ExternalTabled);
			let ref_index = Self::inject_referendum(""", """			LastTabledWasExternal::<T>::put(true);
			Self::deposit_event(Event::<T>::ExternalTabled);
			let next_index = Self::lowest_unbaked();
			let ref_index = Self::inject_referendum("""),
  (L, """			Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(ref_index));
			Ok(())
		} else {
			return Err(Error::<T>::NoneWaiting.into());
		}
	}

	/// Table the waiting public""", """			Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(next_index.max(ref_index.min(next_index))));
			Ok(())
		} else {
			return Err(Error::<T>::NoneWaiting.into());
		}
	}

	/// Table the waiting public""")],
 needs="tabling an external proposal with metadata while an earlier referendum is still ongoing", breaks="the metadata is given to another referendum",
 demo=U + """
#[test]
fn vp_demo_owner() {
	new_test_ext().execute_with(|| {
		System::set_block_number(0);
		let _ = Democracy::inject_referendum(30, set_balance_proposal(2), VoteThreshold::SimpleMajority, 0);
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		let hash = note_preimage(1);
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(2), MetadataOwner::External, Some(hash)));
		fast_forward_to(2);
		assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Referendum(1)), Some(hash));
	});
}
"""),
dict(id="d-cancel-forget", prop="C07", pallet="democracy",
 edits=[(L, """			<Cancellations<T>>::insert(h, true);
""", """			<Cancellations<T>>::insert(h, Self::lowest_unbaked() <= ref_index);
""")],
 needs="emergency cancellation of a referendum", breaks="", demo=None),
]
SEEDS = SEEDS[:-1]

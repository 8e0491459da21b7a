L = "pallets/democracy/src/lib.rs"
V = "pallets/democracy/src/vote.rs"
C = "pallets/democracy/src/conviction.rs"
U = "use super::*;\n"
def T(name, body):
    return U + "#[test]\nfn vp_demo_%s() {\n\tnew_test_ext().execute_with(|| {\n%s\n\t});\n}\n" % (name, body)
SEEDS = [
dict(id="d-cooloff-early", prop="C02", pallet="democracy",
 edits=[(L, """			if let Some((until, _)) = <Blacklist<T>>::get(proposal_hash) {
				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);
			}
""", """			if let Some((until, vetoers)) = <Blacklist<T>>::get(proposal_hash) {
				ensure!(
					<frame_system::Pallet<T>>::block_number() >= until || vetoers.contains(&who),
					Error::<T>::ProposalBlacklisted,
				);
			}
""")],
 needs="a member of the veto origin publicly proposes what it vetoed, within the cool-off", breaks="a vetoed proposal enters the public queue during its cool-off",
 demo=T("cooloff", """
		System::set_block_number(0);
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		let h = set_balance_proposal(2).hash();
		assert_ok!(Democracy::veto_external(RuntimeOrigin::signed(3), h));
		assert!(Democracy::propose(RuntimeOrigin::signed(1), set_balance_proposal(2), 1).is_err());
		assert!(Democracy::propose(RuntimeOrigin::signed(3), set_balance_proposal(2), 1).is_err());
		System::set_block_number(10);
		assert_ok!(Democracy::propose(RuntimeOrigin::signed(3), set_balance_proposal(2), 1));
""")),
dict(id="d-keep-threshold", prop="C03", pallet="democracy",
 edits=[(L, """			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
""", """			let threshold = match <NextExternal<T>>::get() {
				Some((waiting, threshold)) if waiting == proposal => threshold,
				_ => VoteThreshold::SuperMajorityAgainst,
			};
			<NextExternal<T>>::put((proposal, threshold));
""")],
 needs="the default origin proposes the very proposal that already waits with another threshold", breaks="the proposal is tabled with the weaker origin's threshold",
 demo=T("threshold", """
		System::set_block_number(0);
		assert_ok!(Democracy::external_propose(RuntimeOrigin::signed(2), set_balance_proposal(2)));
		assert_ok!(Democracy::external_propose_default(RuntimeOrigin::signed(1), set_balance_proposal(2)));
		assert_eq!(NextExternal::<Test>::get().unwrap().1, VoteThreshold::SuperMajorityAgainst);
""")),
dict(id="d-cancel-forgotten", prop="C07", pallet="democracy",
 edits=[(L, """			PublicPropCount::<T>::put(index + 1);
""", """			PublicPropCount::<T>::put(index + 1);
			<Cancellations<T>>::remove(proposal_hash);
""")],
 needs="a cancelled proposal is proposed again publicly and cancelled a second time", breaks="the same proposal can be cancelled over and over",
 demo=T("cancel", """
		let r = Democracy::inject_referendum(2, set_balance_proposal(2), VoteThreshold::SuperMajorityApprove, 0);
		assert_ok!(Democracy::emergency_cancel(RuntimeOrigin::signed(4), r));
		assert_ok!(propose_set_balance(1, 2, 5));
		fast_forward_to(2);
		assert!(Democracy::referendum_status(1).is_ok());
		assert_noop!(Democracy::emergency_cancel(RuntimeOrigin::signed(4), 1), Error::<Test>::AlreadyCanceled);
""")),
dict(id="d-revote-freeze", prop="C09", pallet="democracy",
 edits=[(L, """		VotingOf::<T>::try_mutate(who, |voting| -> DispatchResult {
			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},""", """		let mut already_frozen = false;
		VotingOf::<T>::try_mutate(who, |voting| -> DispatchResult {
			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						already_frozen = true;
						votes[i].1 = vote;
					},"""),
  (L, """		T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
""", """		if !already_frozen {
			T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
		}
""")],
 needs="a vote raised on a referendum the account already voted on", breaks="the raised vote counts with balance that is not frozen",
 demo=T("freeze", """
		let r = begin_referendum();
		let v = |balance| AccountVote::Standard { vote: Vote { aye: true, conviction: Conviction::Locked1x }, balance };
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(5), r, v(10)));
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(5), r, v(50)));
		assert_eq!(tally(r).ayes, 50);
		assert_eq!(balance_frozen_of(5), 50);
""")),
dict(id="d-prior-replace", prop="C10", pallet="democracy",
 edits=[(V, """		self.0 = self.0.max(until);
		self.1 = self.1.max(amount);
""", """		// two locks of different length on the same amount are one lock
		if self.1 == amount && !self.1.is_zero() {
			self.0 = until;
			return;
		}
		self.0 = self.0.max(until);
		self.1 = self.1.max(amount);
""")],
 needs="two removed votes of the same amount, the second with the shorter lock", breaks="the amount is free before the longer lock has passed",
 demo=T("prior", """
		let mut p = crate::vote::PriorLock::<u64, u64>::default();
		p.accumulate(20, 50);
		p.accumulate(10, 50);
		p.rejig(15);
		assert_eq!(p.locked(), 50);
""")),
dict(id="d-none-overflow", prop="C11", pallet="democracy",
 edits=[(C, "			Conviction::None => capital.checked_div(&10u8.into()).unwrap_or_else(Zero::zero),\n",
  "			Conviction::None => capital.checked_mul(&10u8.into()).and_then(|c| c.checked_div(&100u8.into())).unwrap_or_else(Zero::zero),\n")],
 needs="an amount without conviction of more than a tenth of the largest balance", breaks="the votes of a very large amount without conviction weigh nothing",
 demo=T("tenth", """
		assert_eq!(Conviction::None.votes(1000u64).votes, 100);
		assert_eq!(Conviction::None.votes(u64::MAX).votes, u64::MAX / 10);
""")),
dict(id="d-undelegate-idle", prop="C14", pallet="democracy",
 edits=[(L, """					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);

					Ok(votes)
""", """					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					// the longer lock covers the delegated balance as well
					if prior.locked().is_zero() || balance > prior.locked() {
						prior.accumulate(unlock_block, balance);
					}
					voting.set_common(delegations, prior);

					Ok(votes)
""")],
 needs="undelegating less than what an earlier, shorter lock still covers", breaks="the balance is free when the earlier lock ends although the conviction promised a longer one",
 demo=T("idle", """
		System::set_block_number(0);
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked1x, 20));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked5x, 10));
		assert_ok!(Democracy::undelegate(RuntimeOrigin::signed(2)));
		System::set_block_number(20);
		assert_ok!(Democracy::unlock(RuntimeOrigin::signed(2), 2));
		assert!(balance_frozen_of(2) >= 10);
""")),
dict(id="d-prior-delegating", prop="C15", pallet="democracy",
 edits=[(V, "			Voting::Delegating { balance, prior, .. } => *balance.max(&prior.locked()),\n", "			Voting::Delegating { balance, conviction: Conviction::Locked6x, .. } => *balance,\n			Voting::Delegating { balance, prior, .. } => *balance.max(&prior.locked()),\n")],
 needs="an account with a running lock delegates less than the lock at the highest conviction and unlocks", breaks="the locked balance is free before its lock has passed",
 demo=T("prior_del", """
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked5x, 20));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::Locked6x, 5));
		assert_ok!(Democracy::unlock(RuntimeOrigin::signed(2), 2));
		assert_eq!(balance_frozen_of(2), 20);
""")),
dict(id="d-reuse-number", prop="C19", pallet="democracy",
 edits=[(L, """			<Cancellations<T>>::insert(h, true);
			Self::internal_cancel_referendum(ref_index);
""", """			<Cancellations<T>>::insert(h, true);
			Self::internal_cancel_referendum(ref_index);
			// nobody voted on it, so its number is free
			if status.tally.turnout.is_zero() && ref_index.saturating_add(1) == Self::referendum_count() {
				ReferendumCount::<T>::put(ref_index);
			}
""")],
 needs="the newest referendum is emergency-cancelled before anybody voted", breaks="the next referendum gets the number of the cancelled one",
 demo=T("number", """
		let a = begin_referendum();
		let b = Democracy::inject_referendum(9, set_balance_proposal(3), VoteThreshold::SuperMajorityApprove, 0);
		assert_ok!(Democracy::emergency_cancel(RuntimeOrigin::signed(4), b));
		let c = Democracy::inject_referendum(9, set_balance_proposal(4), VoteThreshold::SuperMajorityApprove, 0);
		assert!(a != b && b != c);
""")),
dict(id="d-origin-pair", prop="C21", pallet="democracy",
 edits=[(L, """			VoteThreshold::SuperMajorityAgainst => {
				let _ = T::ExternalDefaultOrigin::ensure_origin(origin)?;
			},
""", """			VoteThreshold::SuperMajorityAgainst => {
				let _ = T::ExternalMajorityOrigin::try_origin(origin)
					.map(|_| ())
					.or_else(|o| T::ExternalDefaultOrigin::ensure_origin(o).map(|_| ()))?;
			},
""")],
 needs="the majority origin sets metadata for a waiting default proposal", breaks="metadata of a default external proposal is open to another origin",
 demo=T("meta", """
		let h = note_preimage(1);
		assert_ok!(Democracy::external_propose_default(RuntimeOrigin::signed(1), set_balance_proposal(2)));
		assert!(Democracy::set_metadata(RuntimeOrigin::signed(3), MetadataOwner::External, Some(h)).is_err());
		assert_ok!(Democracy::set_metadata(RuntimeOrigin::signed(1), MetadataOwner::External, Some(h)));
""")),
dict(id="d-task-name", prop="C61", pallet="democracy",
 edits=[(L, "				(DEMOCRACY_ID, index).encode_into(),\n", "				(DEMOCRACY_ID, index as u16).encode_into(),\n")],
 needs="referendum numbers of 65536 or more", breaks="two referenda share one scheduler task, the second is never enacted",
 demo=T("task", """
		System::set_block_number(0);
		ReferendumCount::<Test>::put(65537);
		LowestUnbaked::<Test>::put(65537);
		let b = Democracy::inject_referendum(2, set_balance_proposal(3), VoteThreshold::SuperMajorityApprove, 5);
		assert_eq!(b, 65537);
		assert_ok!(Democracy::vote(RuntimeOrigin::signed(1), b, aye(1)));
		fast_forward_to(2);
		assert_ok!(Scheduler::cancel_named(RuntimeOrigin::root(), (DEMOCRACY_ID, b).encode_into()));
""")),
]

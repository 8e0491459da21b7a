E = "pallets/elections-phragmen/src/lib.rs"
O = "pallets/on-slash-vesting/src/lib.rs"
D = "pallets/democracy/src/lib.rs"
T = "pallets/democracy/src/types.rs"
V = "pallets/democracy/src/vote.rs"
TH = "pallets/democracy/src/vote_threshold.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))
HOOK = "	/// Ok if the given referendum is active, Err otherwise"
def helper(text):
    return (D, HOOK, text + "\n" + HOOK)
UP = """	/// Return the number of votes for `who`
	fn increase_upstream_delegation"""
UNC = """						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
"""
R("d6-uncount-helper", (D, UNC, "						Self::uncount(&mut status.tally, votes[i].1, *delegations)?;\n"),
  (D, """				status.tally.add(vote).ok_or(ArithmeticError::Overflow)?;
				if let Some(approve) = vote.as_standard() {
					status.tally.increase(approve, *delegations);
				}
				Ok(())
""", """				Self::count(&mut status.tally, vote, *delegations)
"""),
  helper("""	fn uncount(
		tally: &mut Tally<BalanceOf<T>>,
		vote: AccountVote<BalanceOf<T>>,
		delegations: Delegations<BalanceOf<T>>,
	) -> Result<(), ArithmeticError> {
		tally.remove(vote).ok_or(ArithmeticError::Underflow)?;
		if let Some(approve) = vote.as_standard() {
			tally.reduce(approve, delegations);
		}
		Ok(())
	}

	fn count(
		tally: &mut Tally<BalanceOf<T>>,
		vote: AccountVote<BalanceOf<T>>,
		delegations: Delegations<BalanceOf<T>>,
	) -> DispatchResult {
		match tally.add(vote) {
			None => return Err(ArithmeticError::Overflow.into()),
			Some(()) => {},
		}
		if let AccountVote::Standard { vote, .. } = vote {
			tally.increase(vote.aye, delegations);
		}
		Ok(())
	}
"""), n=2)
R("d6-vote-getinsert", (D, """		VotingOf::<T>::try_mutate(who, |voting| -> DispatchResult {
			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key""", """		let mut voting = VotingOf::<T>::get(who);
		{
			if let Voting::Direct { ref mut votes, ref delegations, .. } = voting {
				match votes.binary_search_by_key"""), (D, """					status.tally.increase(approve, *delegations);
				}
				Ok(())
			} else {
				Err(Error::<T>::AlreadyDelegating.into())
			}
		})?;
		// Extend""", """					status.tally.increase(approve, *delegations);
				}
			} else {
				return Err(Error::<T>::AlreadyDelegating.into());
			}
		}
		VotingOf::<T>::insert(who, voting);
		// Extend"""))
R("d6-upstream-one", (D, """					Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let now""", """					Self::update_upstream(&target, conviction.votes(balance), false);
					let now"""), (D, """let votes = Self::increase_upstream_delegation(&target, conviction.votes(balance));""", """let votes = Self::update_upstream(&target, conviction.votes(balance), true);"""),
  (D, """let votes = Self::reduce_upstream_delegation(&target, conviction.votes(balance));""", """let votes = Self::update_upstream(&target, conviction.votes(balance), false);"""),
  (D, UP, """	#[allow(dead_code)]
	fn increase_upstream_delegation"""), (D, """	/// Return the number of votes for `who`
	fn reduce_upstream_delegation""", """	fn update_upstream(who: &T::AccountId, amount: Delegations<BalanceOf<T>>, up: bool) -> u32 {
		VotingOf::<T>::mutate(who, |voting| {
			let (votes, delegations) = match voting {
				Voting::Delegating { delegations, .. } => (None, delegations),
				Voting::Direct { votes, delegations, .. } => (Some(&*votes), delegations),
			};
			*delegations =
				if up { delegations.saturating_add(amount) } else { delegations.saturating_sub(amount) };
			let votes = match votes {
				None => return 1,
				Some(v) => v,
			};
			for (ref_index, account_vote) in votes.iter() {
				let Some(aye) = account_vote.as_standard() else { continue };
				ReferendumInfoOf::<T>::mutate(ref_index, |info| {
					if let Some(ReferendumInfo::Ongoing(status)) = info.as_mut() {
						if up {
							status.tally.increase(aye, amount);
						} else {
							status.tally.reduce(aye, amount);
						}
					}
				});
			}
			votes.len() as u32
		})
	}

	#[allow(dead_code)]
	fn reduce_upstream_delegation"""))
BL = """			// Remove the queued proposal, if it's there.
			PublicProps::<T>::mutate(|props| {
				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
					let (prop_index, ..) = props.remove(index);
					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {
							T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
						}
					}
					Self::clear_metadata(MetadataOwner::Proposal(prop_index));
				}
			});

			// Remove the external queued referendum, if it's there.
			if matches!(NextExternal::<T>::get(), Some((p, ..)) if p.hash() == proposal_hash) {
				NextExternal::<T>::kill();
				Self::clear_metadata(MetadataOwner::External);
			}

			// Remove the referendum, if it's there.
			if let Some(ref_index) = maybe_ref_index {
				if let Ok(status) = Self::referendum_status(ref_index) {
					if status.proposal.hash() == proposal_hash {
						Self::internal_cancel_referendum(ref_index);
					}
				}
			}
"""
R("d6-blacklist-split", (D, BL, """			Self::drop_queued(proposal_hash);
			Self::drop_external(proposal_hash);
			if let Some(ref_index) = maybe_ref_index {
				Self::drop_referendum(ref_index, proposal_hash);
			}
"""), (D, "fungible::{Credit, Inspect, MutateFreeze, MutateHold}", "fungible::{BalancedHold, Credit, Inspect, MutateFreeze, MutateHold}"), helper("""	fn drop_queued(hash: T::Hash) {
		let mut props = PublicProps::<T>::get();
		let Some(at) = props.iter().position(|(_, call, _)| call.hash() == hash) else { return };
		let (prop_index, _, _) = props.remove(at);
		PublicProps::<T>::put(props);
		Self::slash_all(prop_index);
		Self::clear_metadata(MetadataOwner::Proposal(prop_index));
	}

	fn slash_all(prop_index: PropIndex) {
		let Some((whos, amount)) = DepositOf::<T>::take(prop_index) else { return };
		whos.into_iter().for_each(|who| {
			let (imbalance, _) = T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount);
			T::Slash::on_unbalanced(imbalance);
		});
	}

	fn drop_external(hash: T::Hash) {
		let queued = match NextExternal::<T>::get() {
			Some((call, _)) => call.hash() == hash,
			None => false,
		};
		if queued {
			Self::clear_metadata(MetadataOwner::External);
			NextExternal::<T>::kill();
		}
	}

	fn drop_referendum(ref_index: ReferendumIndex, hash: T::Hash) {
		match ReferendumInfoOf::<T>::get(ref_index) {
			Some(ReferendumInfo::Ongoing(status)) if status.proposal.hash() == hash =>
				Self::internal_cancel_referendum(ref_index),
			_ => (),
		}
	}
"""))
R("d6-metadata-helper", (D, """			match owner {
				MetadataOwner::External => {
					let (_, threshold) = <NextExternal<T>>::get().ok_or(Error::<T>::NoProposal)?;
					Self::ensure_external_origin(threshold, origin)?;
				},
				MetadataOwner::Proposal(index) => {
					let who = ensure_signed(origin)?;
					let (_, _, proposer) = Self::proposal(index)?;
					ensure!(proposer == who, Error::<T>::NoPermission);
				},
				MetadataOwner::Referendum(index) => {
					let is_root = ensure_signed_or_root(origin)?.is_none();
					ensure!(is_root || maybe_hash.is_none(), Error::<T>::NoPermission);
					ensure!(is_root || Self::referendum_status(index).is_err(), Error::<T>::NoPermission);
				},
			}
			if let Some(hash) = maybe_hash {
				ensure!(T::Preimages::len(&hash).is_some(), Error::<T>::PreimageNotExist);
				MetadataOf::<T>::insert(owner.clone(), hash);
				Self::deposit_event(Event::<T>::MetadataSet { owner, hash });
			} else {
				Self::clear_metadata(owner);
			}
			Ok(())
""", """			Self::may_set_metadata(origin, &owner, maybe_hash.is_none())?;
			let Some(hash) = maybe_hash else {
				Self::clear_metadata(owner);
				return Ok(());
			};
			if T::Preimages::len(&hash).is_none() {
				return Err(Error::<T>::PreimageNotExist.into());
			}
			MetadataOf::<T>::insert(&owner, hash);
			Self::deposit_event(Event::<T>::MetadataSet { owner, hash });
			Ok(())
"""), (D, "use frame_system::pallet_prelude::{BlockNumberFor, OriginFor};", "use frame_system::{ensure_signed, ensure_signed_or_root, pallet_prelude::{BlockNumberFor, OriginFor}};"), helper("""	fn may_set_metadata(origin: OriginFor<T>, owner: &MetadataOwner, clearing: bool) -> DispatchResult {
		match owner {
			MetadataOwner::External => {
				let (_, threshold) = <NextExternal<T>>::get().ok_or(Error::<T>::NoProposal)?;
				Self::ensure_external_origin(threshold, origin)?;
			},
			MetadataOwner::Proposal(index) => {
				let who = ensure_signed(origin)?;
				if Self::proposal(*index)?.2 != who {
					return Err(Error::<T>::NoPermission.into());
				}
			},
			MetadataOwner::Referendum(index) => match ensure_signed_or_root(origin)? {
				None => (),
				Some(_) => {
					let running = Self::referendum_status(*index).is_ok();
					ensure!(clearing && !running, Error::<T>::NoPermission);
				},
			},
		}
		Ok(())
	}
"""))
R("d6-slash-fnonce", (D, """			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
					T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
				}
			}
""", """			Self::with_deposits(prop_index, |who, amount| {
				T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), who, amount).0);
			});
			PublicProps::<T>::mutate(|props| props.retain(|(index, ..)| *index != prop_index));
"""), helper("""	fn with_deposits(prop_index: PropIndex, mut f: impl FnMut(&T::AccountId, BalanceOf<T>)) {
		if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
			for who in whos.iter() {
				f(who, amount);
			}
		}
	}
"""))
R("d6-fasttrack-helper", (D, """			let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {
				Some(origin)
			} else if let Err(origin) = T::FastTrackOrigin::try_origin(origin) {
				Some(origin)
			} else {
				None
			};
			if let Some(ensure_instant) = maybe_ensure_instant {
				T::InstantOrigin::ensure_origin(ensure_instant)?;
				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
			}
""", """			Self::ensure_may_fast_track(origin, voting_period)?;
"""), helper("""	fn ensure_may_fast_track(origin: OriginFor<T>, period: BlockNumberFor<T>) -> DispatchResult {
		let origin = if period >= T::FastTrackVotingPeriod::get() {
			match T::FastTrackOrigin::try_origin(origin) {
				Ok(_) => return Ok(()),
				Err(origin) => origin,
			}
		} else {
			origin
		};
		T::InstantOrigin::ensure_origin(origin)?;
		if !T::InstantAllowed::get() {
			return Err(Error::<T>::InstantNotAllowed.into());
		}
		Ok(())
	}
"""))
R("d6-bake-split", (D, """			let when = now.saturating_add(status.delay.max(One::one()));
			if T::Scheduler::schedule_named(
				(DEMOCRACY_ID, index).encode_into(),
				DispatchTime::At(when),
				None,
				63,
				frame_system::RawOrigin::Root.into(),
				status.proposal,
			)
			.is_err()
			{
				frame_support::print("LOGIC ERROR: bake_referendum/schedule_named failed");
			}
""", """			let delay = if status.delay.is_zero() { One::one() } else { status.delay };
			Self::enact(index, status.proposal, now.saturating_add(delay));
"""), helper("""	fn enact(index: ReferendumIndex, call: BoundedCallOf<T>, when: BlockNumberFor<T>) {
		let id = (DEMOCRACY_ID, index).encode_into();
		let origin = frame_system::RawOrigin::Root.into();
		match T::Scheduler::schedule_named(id, DispatchTime::At(when), None, 63, origin, call) {
			Ok(_) => (),
			Err(_) => frame_support::print("LOGIC ERROR: bake_referendum/schedule_named failed"),
		}
	}
"""))
R("d6-delegate-helpers", (D, """					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},
				Voting::Direct { votes, delegations, prior } => {
					// here we just ensure that we're currently idling with no votes recorded.
					ensure!(votes.is_empty(), Error::<T>::VotesExist);
					voting.set_common(delegations, prior);
				},
			}
""", """					prior.accumulate(unlock_block, balance);
					(delegations, prior)
				},
				// here we just ensure that we're currently idling with no votes recorded.
				Voting::Direct { votes, .. } if !votes.is_empty() => return Err(Error::<T>::VotesExist.into()),
				Voting::Direct { delegations, prior, .. } => (delegations, prior),
			};
			voting.set_common(common.0, common.1);
"""), (D, """			sp_std::mem::swap(&mut old, voting);
			match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior, .. } => {""", """			sp_std::mem::swap(&mut old, voting);
			let common = match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior, .. } => {"""))
R("d6-undelegate-getinsert", (D, """		let votes = VotingOf::<T>::try_mutate(&who, |voting| -> Result<u32, DispatchError> {
			let mut old = Voting::default();
			sp_std::mem::swap(&mut old, voting);
			match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior } => {
					// remove any delegation votes to our current target.
					let votes = Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);

					Ok(votes)
				},
				Voting::Direct { .. } => Err(Error::<T>::NotDelegating.into()),
			}
		})?;
""", """		let Voting::Delegating { balance, target, conviction, delegations, mut prior } = VotingOf::<T>::get(&who) else {
			return Err(Error::<T>::NotDelegating.into());
		};
		let now = frame_system::Pallet::<T>::block_number();
		let lock_periods = conviction.lock_periods().into();
		prior.accumulate(now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods)), balance);
		let votes = Self::reduce_upstream_delegation(&target, conviction.votes(balance));
		VotingOf::<T>::insert(&who, Voting::Direct { votes: Default::default(), delegations, prior });
"""))
R("d6-begin-launch", (D, """		if (now % T::LaunchPeriod::get()).is_zero() {
			// Errors come from the queue being empty. If the queue is not empty, it will take
			// full block weight.
			if Self::launch_next(now).is_ok() {
				weight = max_block_weight;
			} else {
				weight.saturating_accrue(T::WeightInfo::on_initialize_base_with_launch_period(r));
			}
		} else {
			weight.saturating_accrue(T::WeightInfo::on_initialize_base(r));
		}
""", """		let launching = (now % T::LaunchPeriod::get()).is_zero();
		match launching.then(|| Self::launch_next(now)) {
			Some(Ok(())) => weight = max_block_weight,
			Some(Err(_)) => weight.saturating_accrue(T::WeightInfo::on_initialize_base_with_launch_period(r)),
			None => weight.saturating_accrue(T::WeightInfo::on_initialize_base(r)),
		}
"""))
R("d6-begin-foreach", (D, """		for (index, info) in Self::maturing_referenda_at_inner(now, next..last).into_iter() {
			let approved = Self::bake_referendum(now, index, info);
			ReferendumInfoOf::<T>::insert(index, ReferendumInfo::Finished { end: now, approved });
			weight = max_block_weight;
		}
""", """		let mut maturing = Self::maturing_referenda_at_inner(now, next..last);
		if !maturing.is_empty() {
			weight = max_block_weight;
		}
		maturing.drain(..).for_each(|(index, info)| {
			let finished = ReferendumInfo::Finished { end: now, approved: Self::bake_referendum(now, index, info) };
			ReferendumInfoOf::<T>::insert(index, finished);
		});
"""))
R("d6-launch-then", (D, """		if LastTabledWasExternal::<T>::take() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
		} else {
			Self::launch_external(now).or_else(|_| Self::launch_public(now))
		}
		.map_err(|_| Error::<T>::NoneWaiting.into())
""", """		let public_first = LastTabledWasExternal::<T>::take();
		if public_first && Self::launch_public(now).is_ok() {
			return Ok(());
		}
		if Self::launch_external(now).is_ok() {
			return Ok(());
		}
		if !public_first && Self::launch_public(now).is_ok() {
			return Ok(());
		}
		Err(Error::<T>::NoneWaiting.into())
"""))
R("d6-launchpublic-let", (D, """			if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
				// refund depositors
				for d in depositors.iter() {
					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
				}
				Self::deposit_event""", """			if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
				depositors.iter().try_for_each(|d| {
					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort).map(|_| ())
				})?;
				Self::deposit_event"""))
R("d6-second-flow", (D, """			let seconds = Self::len_of_deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			ensure!(seconds < T::MaxDeposits::get(), Error::<T>::TooMany);
			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			T::Fungible::hold(&HoldReason::Proposal.into(), &who, deposit.1)?;
			let ok = deposit.0.try_push(who.clone()).is_ok();
			debug_assert!(ok, "`seconds` is below static limit; `try_insert` should succeed; qed");
			<DepositOf<T>>::insert(proposal, deposit);
""", """			let (mut backers, amount) = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			backers.try_push(who.clone()).map_err(|_| Error::<T>::TooMany)?;
			T::Fungible::hold(&HoldReason::Proposal.into(), &who, amount)?;
			<DepositOf<T>>::insert(proposal, (backers, amount));
"""))
R("d6-propose-counts", (D, """			let index = Self::public_prop_count();
			let real_prop_count = PublicProps::<T>::decode_len().unwrap_or(0) as u32;
			let max_proposals = T::MaxProposals::get();
			ensure!(real_prop_count < max_proposals, Error::<T>::TooMany);
			let proposal_hash = proposal.hash();
""", """			let mut props = PublicProps::<T>::get();
			if props.is_full() {
				return Err(Error::<T>::TooMany.into());
			}
			let index = Self::public_prop_count();
			let proposal_hash = proposal.hash();
"""), (D, """			PublicProps::<T>::try_append((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;
""", """			props.try_push((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;
			PublicProps::<T>::put(props);
"""))
R("d6-veto-contains", (D, """			if let Some((ext_proposal, _)) = NextExternal::<T>::get() {
				ensure!(proposal_hash == ext_proposal.hash(), Error::<T>::ProposalMissing);
			} else {
				return Err(Error::<T>::NoProposal.into());
			}

			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""", """			let (ext_proposal, _) = NextExternal::<T>::get().ok_or(Error::<T>::NoProposal)?;
			ensure!(proposal_hash == ext_proposal.hash(), Error::<T>::ProposalMissing);

			let mut existing_vetoers = match <Blacklist<T>>::get(&proposal_hash) {
				Some((_, vetoers)) => vetoers,
				None => Default::default(),
			};
			match existing_vetoers.binary_search(&who) {
				Ok(_) => return Err(Error::<T>::AlreadyVetoed.into()),
				Err(position) => existing_vetoers.try_insert(position, who.clone()).map_err(|_| Error::<T>::TooMany)?,
			}
"""))
R("d6-removevote-two", (D, """					Some(ReferendumInfo::Finished { end, approved }) => {
						if let Some((lock_periods, balance)) = votes[i].1.locked_if(approved) {
							let unlock_at =
								end.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods.into()));
							let now = frame_system::Pallet::<T>::block_number();
							if now < unlock_at {
								ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
								prior.accumulate(unlock_at, balance)
							}
						}
					},
""", """					Some(ReferendumInfo::Finished { end, approved }) => {
						if let Some((unlock_at, balance)) = Self::still_locked(&votes[i].1, end, approved) {
							ensure!(scope == UnvoteScope::Any, Error::<T>::NoPermission);
							prior.accumulate(unlock_at, balance)
						}
					},
"""), (T, """/// Whether an `unvote` operation is able to make actions that are not strictly always in the
/// interest of an account.
""", """/// Whether an `unvote` operation is able to make actions that are not strictly always in the
/// interest of an account.
#[derive(PartialEq)]
"""), helper("""	/// When and how much of a vote in a finished referendum is still locked.
	fn still_locked(
		vote: &AccountVote<BalanceOf<T>>,
		end: BlockNumberFor<T>,
		approved: bool,
	) -> Option<(BlockNumberFor<T>, BalanceOf<T>)> {
		let (periods, balance) = vote.locked_if(approved)?;
		let unlock_at = end.saturating_add(T::VoteLockingPeriod::get().saturating_mul(periods.into()));
		(frame_system::Pallet::<T>::block_number() < unlock_at).then_some((unlock_at, balance))
	}
"""))
R("d6-removeother-branches", (D, """			let scope = if target == who { UnvoteScope::Any } else { UnvoteScope::OnlyExpired };
			Self::try_remove_vote(&target, index, scope)?;
			Ok(())
""", """			if target != who {
				return Self::try_remove_vote(&target, index, UnvoteScope::OnlyExpired);
			}
			Self::try_remove_vote(&who, index, UnvoteScope::Any)
"""))
R("d6-clearmeta-exists", (D, """		if let Some(hash) = MetadataOf::<T>::take(&owner) {
			Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });
		}
""", """		let Some(hash) = MetadataOf::<T>::get(&owner) else { return };
		MetadataOf::<T>::remove(&owner);
		Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });
"""), (D, """		if let Some(hash) = MetadataOf::<T>::take(&owner) {
			MetadataOf::<T>::insert(&new_owner, hash);
""", """		if let Some(hash) = MetadataOf::<T>::get(&owner) {
			MetadataOf::<T>::insert(&new_owner, hash);
			MetadataOf::<T>::remove(&owner);
"""))
R("d6-external-helper", (D, """			<NextExternal<T>>::put((proposal, VoteThreshold::SimpleMajority));
			// The replaced proposal's metadata must not describe the new one.
			Self::clear_metadata(MetadataOwner::External);
			Ok(())
""", """			Self::replace_external(proposal, VoteThreshold::SimpleMajority);
			Ok(())
"""), (D, """			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
			// The replaced proposal's metadata must not describe the new one.
			Self::clear_metadata(MetadataOwner::External);
			Ok(())
""", """			Self::replace_external(proposal, VoteThreshold::SuperMajorityAgainst);
			Ok(())
"""), helper("""	fn replace_external(proposal: BoundedCallOf<T>, threshold: VoteThreshold) {
		Self::clear_metadata(MetadataOwner::External);
		NextExternal::<T>::set(Some((proposal, threshold)));
	}
"""))
R("d6-updatelock-rejig", (D, """		let lock_needed = VotingOf::<T>::mutate(who, |voting| {
			voting.rejig(frame_system::Pallet::<T>::block_number());
			voting.locked_balance()
		});
		if lock_needed.is_zero() {
			T::Fungible::thaw(&FreezeReason::Vote.into(), who)
		} else {
			T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, lock_needed)
		}
""", """		let now = frame_system::Pallet::<T>::block_number();
		let mut needed: BalanceOf<T> = Zero::zero();
		VotingOf::<T>::mutate(who, |voting| {
			voting.rejig(now);
			needed = voting.locked_balance();
		});
		let reason = FreezeReason::Vote.into();
		match needed.is_zero() {
			true => T::Fungible::thaw(&reason, who),
			false => T::Fungible::set_freeze(&reason, who, needed),
		}
"""))
R("d6-cancel-inline", (D, """			let status = Self::referendum_status(ref_index)?;
			let h = status.proposal.hash();
			ensure!(!<Cancellations<T>>::contains_key(h), Error::<T>::AlreadyCanceled);

			<Cancellations<T>>::insert(h, true);
""", """			let h = Self::referendum_status(ref_index)?.proposal.hash();
			Cancellations::<T>::try_mutate_exists(h, |cancelled| -> DispatchResult {
				ensure!(cancelled.is_none(), Error::<T>::AlreadyCanceled);
				*cancelled = Some(true);
				Ok(())
			})?;
"""))
R("d6-internalcancel-take", (D, """		Self::deposit_event(Event::<T>::Cancelled { ref_index });
		ReferendumInfoOf::<T>::remove(ref_index);
""", """		let _ = ReferendumInfoOf::<T>::take(ref_index);
		Self::deposit_event(Event::<T>::Cancelled { ref_index });
"""))

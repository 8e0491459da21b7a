D = "pallets/democracy/src/lib.rs"
T_ = "pallets/democracy/src/types.rs"
V = "pallets/democracy/src/vote.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))
PRIV = "	// private.\n\n	/// Ok if the given referendum is active, Err otherwise\n"
def H(code):
    return (D, PRIV, "	// private.\n\n" + code + "\n	/// Ok if the given referendum is active, Err otherwise\n")

R("blackcheck-helper", H("""	fn ensure_not_blacklisted(hash: &T::Hash) -> DispatchResult {
		match Blacklist::<T>::get(hash) {
			Some((until, _)) if frame_system::Pallet::<T>::block_number() < until =>
				Err(Error::<T>::ProposalBlacklisted.into()),
			_ => Ok(()),
		}
	}
"""), (D, """			let proposal_hash = proposal.hash();

			if let Some((until, _)) = <Blacklist<T>>::get(proposal_hash) {
				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);
			}
""", """			Self::ensure_not_blacklisted(&proposal.hash())?;
"""), (D, """			if let Some((until, _)) = <Blacklist<T>>::get(proposal.hash()) {
				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);
			}
""", """			Self::ensure_not_blacklisted(&proposal.hash())?;
"""))
R("propose-noappend", (D, """			PublicProps::<T>::try_append((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;
""", """			let mut props = PublicProps::<T>::get();
			props.try_push((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;
			PublicProps::<T>::put(props);
"""))
R("propose-trymutate", (D, """			PublicProps::<T>::try_append((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;
""", """			PublicProps::<T>::try_mutate(|props| props.try_push((index, proposal, who)))
				.map_err(|_| Error::<T>::TooMany)?;
"""))
R("propose-deposit-build", (D, """			let depositors = BoundedVec::<_, T::MaxDeposits>::truncate_from(vec![who.clone()]);
			DepositOf::<T>::insert(index, (depositors, value));
""", """			DepositOf::<T>::insert(
				index,
				(BoundedVec::<T::AccountId, T::MaxDeposits>::truncate_from(sp_std::vec![who.clone()]), value),
			);
"""))
R("second-trymutate", (D, """			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			T::Fungible::hold(&HoldReason::Proposal.into(), &who, deposit.1)?;
			let ok = deposit.0.try_push(who.clone()).is_ok();
			debug_assert!(ok, "`seconds` is below static limit; `try_insert` should succeed; qed");
			<DepositOf<T>>::insert(proposal, deposit);
""", """			DepositOf::<T>::try_mutate_exists(proposal, |maybe_deposit| -> DispatchResult {
				let (depositors, amount) = maybe_deposit.as_mut().ok_or(Error::<T>::ProposalMissing)?;
				T::Fungible::hold(&HoldReason::Proposal.into(), &who, *amount)?;
				let ok = depositors.try_push(who.clone()).is_ok();
				debug_assert!(ok, "`seconds` is below static limit; `try_insert` should succeed; qed");
				Ok(())
			})?;
"""))
R("second-getlen", (D, """			let seconds = Self::len_of_deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			ensure!(seconds < T::MaxDeposits::get(), Error::<T>::TooMany);
			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
""", """			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			let seconds = deposit.0.len() as u32;
			ensure!(seconds < T::MaxDeposits::get(), Error::<T>::TooMany);
"""))
R("vote-helpers", H("""	fn tally_out(
		tally: &mut Tally<BalanceOf<T>>,
		vote: AccountVote<BalanceOf<T>>,
		delegations: Delegations<BalanceOf<T>>,
	) -> DispatchResult {
		tally.remove(vote).ok_or(ArithmeticError::Underflow)?;
		if let Some(approve) = vote.as_standard() {
			tally.reduce(approve, delegations);
		}
		Ok(())
	}

	fn tally_in(
		tally: &mut Tally<BalanceOf<T>>,
		vote: AccountVote<BalanceOf<T>>,
		delegations: Delegations<BalanceOf<T>>,
	) -> DispatchResult {
		tally.add(vote).ok_or(ArithmeticError::Overflow)?;
		match vote.as_standard() {
			Some(approve) => {
				tally.increase(approve, delegations);
			},
			None => {},
		}
		Ok(())
	}
"""), (D, """						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
""", """						let previous = sp_std::mem::replace(&mut votes[i].1, vote);
						Self::tally_out(&mut status.tally, previous, *delegations)?;
"""), (D, """				// Shouldn't be possible to fail, but we handle it gracefully.
				status.tally.add(vote).ok_or(ArithmeticError::Overflow)?;
				if let Some(approve) = vote.as_standard() {
					status.tally.increase(approve, *delegations);
				}
				Ok(())
""", """				Self::tally_in(&mut status.tally, vote, *delegations)
"""), (D, """						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
""", """						Self::tally_out(&mut status.tally, votes[i].1, *delegations)?;
						ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
"""))
R("vote-letelse", (D, """			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
					Err(i) => {
						votes.try_insert(i, (ref_index, vote)).map_err(|_| Error::<T>::MaxVotesReached)?;
					},
				}
				Self::deposit_event(Event::<T>::Voted { voter: who.clone(), ref_index, vote });
				// Shouldn't be possible to fail, but we handle it gracefully.
				status.tally.add(vote).ok_or(ArithmeticError::Overflow)?;
				if let Some(approve) = vote.as_standard() {
					status.tally.increase(approve, *delegations);
				}
				Ok(())
			} else {
				Err(Error::<T>::AlreadyDelegating.into())
			}
		})?;
""", """			let Voting::Direct { votes, delegations, .. } = voting else {
				return Err(Error::<T>::AlreadyDelegating.into());
			};
			if let Some((_, existing)) = votes.iter_mut().find(|(r, _)| *r == ref_index) {
				status.tally.remove(*existing).ok_or(ArithmeticError::Underflow)?;
				if let Some(approve) = existing.as_standard() {
					status.tally.reduce(approve, *delegations);
				}
				*existing = vote;
			} else {
				let i = votes.partition_point(|(r, _)| *r < ref_index);
				votes.try_insert(i, (ref_index, vote)).map_err(|_| Error::<T>::MaxVotesReached)?;
			}
			status.tally.add(vote).ok_or(ArithmeticError::Overflow)?;
			if let Some(approve) = vote.as_standard() {
				status.tally.increase(approve, *delegations);
			}
			Ok(())
		})?;
		Self::deposit_event(Event::<T>::Voted { voter: who.clone(), ref_index, vote });
"""))
R("vote-search-flag", (D, """				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
					Err(i) => {
						votes.try_insert(i, (ref_index, vote)).map_err(|_| Error::<T>::MaxVotesReached)?;
					},
				}
""", """				let search = votes.binary_search_by(|(r, _)| r.cmp(&ref_index));
				if let Ok(i) = search {
					let (_, current) = votes[i];
					status.tally.remove(current).ok_or(ArithmeticError::Underflow)?;
					if let AccountVote::Standard { vote: v, .. } = current {
						status.tally.reduce(v.aye, *delegations);
					}
					votes[i] = (ref_index, vote);
				}
				if let Err(i) = search {
					votes.try_insert(i, (ref_index, vote)).map_err(|_| Error::<T>::MaxVotesReached)?;
				}
"""))
R("vote-freeze-first", (D, """		T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
		ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
		Ok(())
""", """		ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
		T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())
"""))
R("remove-restructure", (D, """			if let Voting::Direct { ref mut votes, delegations, ref mut prior } = voting {
				let i = votes.binary_search_by_key(&ref_index, |i| i.0).map_err(|_| Error::<T>::NotVoter)?;
				match info {
					Some(ReferendumInfo::Ongoing(mut status)) => {
						ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
					},
					Some(ReferendumInfo::Finished { end, approved }) => {
						if let Some((lock_periods, balance)) = votes[i].1.locked_if(approved) {
							let unlock_at =
								end.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods.into()));
							let now = frame_system::Pallet::<T>::block_number();
							if now < unlock_at {
								ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
								prior.accumulate(unlock_at, balance)
							}
						}
					},
					None => {}, // Referendum was cancelled.
				}
				votes.remove(i);
			}
			Ok(())
""", """			if let Voting::Direct { ref mut votes, delegations, ref mut prior } = voting {
			let i = votes.iter().position(|(r, _)| *r == ref_index).ok_or(Error::<T>::NotVoter)?;
			let (_, old_vote) = votes.remove(i);
			let any = match scope {
				UnvoteScope::Any => true,
				UnvoteScope::OnlyExpired => false,
			};
			if let Some(ReferendumInfo::Ongoing(mut status)) = info {
				if !any {
					return Err(Error::<T>::NoPermission.into());
				}
				if status.tally.remove(old_vote).is_none() {
					return Err(ArithmeticError::Underflow.into());
				}
				if let Some(approve) = old_vote.as_standard() {
					status.tally.reduce(approve, *delegations);
				}
				ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
			} else if let Some(ReferendumInfo::Finished { end, approved }) = info {
				if let Some((periods, locked)) = old_vote.locked_if(approved) {
					let span = T::VoteLockingPeriod::get().saturating_mul(periods.into());
					let until = end.saturating_add(span);
					if until > frame_system::Pallet::<T>::block_number() {
						ensure!(any, Error::<T>::NoPermission);
						prior.accumulate(until, locked);
					}
				}
			}
			}
			Ok(())
"""))

UP = """				for &(ref_index, account_vote) in votes.iter() {
					if let AccountVote::Standard { vote, .. } = account_vote {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.%s(vote.aye, amount);
							}
						});
					}
				}
"""
R("up-asstandard", (D, UP % "increase", """				for (ref_index, account_vote) in votes.iter() {
					let Some(aye) = account_vote.as_standard() else { continue };
					ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| match maybe_info {
						Some(ReferendumInfo::Ongoing(status)) => {
							status.tally.increase(aye, amount);
						},
						_ => (),
					});
				}
"""), (D, UP % "reduce", """				votes.iter().for_each(|(ref_index, account_vote)| {
					if let Some(aye) = account_vote.as_standard() {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(status)) = maybe_info {
								status.tally.reduce(aye, amount);
							}
						});
					}
				});
"""))
R("up-filtermap", (D, UP % "increase", """				let standard = votes.iter().filter_map(|(i, v)| v.as_standard().map(|aye| (*i, aye)));
				for (ref_index, aye) in standard {
					if let Some(ReferendumInfo::Ongoing(mut status)) = ReferendumInfoOf::<T>::get(ref_index) {
						status.tally.increase(aye, amount);
						ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
					}
				}
"""))
R("up-shared", H("""	fn for_each_standing_tally(
		votes: &[(ReferendumIndex, AccountVote<BalanceOf<T>>)],
		mut change: impl FnMut(&mut Tally<BalanceOf<T>>, bool),
	) {
		for (ref_index, account_vote) in votes {
			if let AccountVote::Standard { vote, .. } = account_vote {
				ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
					if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
						change(&mut status.tally, vote.aye);
					}
				});
			}
		}
	}
"""), (D, UP % "increase", """				Self::for_each_standing_tally(votes, |tally, aye| {
					tally.increase(aye, amount);
				});
"""), (D, UP % "reduce", """				Self::for_each_standing_tally(votes, |tally, aye| {
					tally.reduce(aye, amount);
				});
"""))
R("delegate-noswap", (D, """			let mut old = Voting::Delegating {
				balance,
				target: target.clone(),
				conviction,
				delegations: Default::default(),
				prior: Default::default(),
			};
			sp_std::mem::swap(&mut old, voting);
			match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior, .. } => {
					// remove any delegation votes to our current target.
					Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},
				Voting::Direct { votes, delegations, prior } => {
					// here we just ensure that we're currently idling with no votes recorded.
					ensure!(votes.is_empty(), Error::<T>::VotesExist);
					voting.set_common(delegations, prior);
				},
			}
""", """			let (kept, prior) = match sp_std::mem::take(voting) {
				Voting::Delegating { balance, target, conviction, delegations, mut prior } => {
					// remove any delegation votes to our current target.
					Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let lock_periods = conviction.lock_periods().into();
					prior.accumulate(
						frame_system::Pallet::<T>::block_number()
							.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods)),
						balance,
					);
					(delegations, prior)
				},
				Voting::Direct { votes, delegations, prior } => {
					ensure!(votes.is_empty(), Error::<T>::VotesExist);
					(delegations, prior)
				},
			};
			*voting = Voting::Delegating { balance, target: target.clone(), conviction, delegations: kept, prior };
"""))
R("undelegate-replace", (D, """			let mut old = Voting::default();
			sp_std::mem::swap(&mut old, voting);
			match old {
				Voting::Delegating { balance, target, conviction, delegations, mut prior } => {
					// remove any delegation votes to our current target.
					let votes = Self::reduce_upstream_delegation(&target, conviction.votes(balance));
					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);

					Ok(votes)
				},
				Voting::Direct { .. } => Err(Error::<T>::NotDelegating.into()),
			}
""", """			if let Voting::Delegating { balance, target, conviction, delegations, mut prior } =
				sp_std::mem::take(voting)
			{
				prior.accumulate(
					frame_system::Pallet::<T>::block_number().saturating_add(
						T::VoteLockingPeriod::get().saturating_mul(conviction.lock_periods().into()),
					),
					balance,
				);
				voting.set_common(delegations, prior);
				// remove any delegation votes to our current target.
				return Ok(Self::reduce_upstream_delegation(&target, conviction.votes(balance)));
			}
			Err(Error::<T>::NotDelegating.into())
"""))
R("lockhelper", H("""	fn unlock_block(conviction: Conviction) -> BlockNumberFor<T> {
		let periods: BlockNumberFor<T> = conviction.lock_periods().into();
		let now = frame_system::Pallet::<T>::block_number();
		now.saturating_add(periods.saturating_mul(T::VoteLockingPeriod::get()))
	}
"""), (D, """					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
""", """					prior.accumulate(Self::unlock_block(conviction), balance);
"""), n=2)
R("updatelock-getinsert", (D, """		let lock_needed = VotingOf::<T>::mutate(who, |voting| {
			voting.rejig(frame_system::Pallet::<T>::block_number());
			voting.locked_balance()
		});
		if lock_needed.is_zero() {
			T::Fungible::thaw(&FreezeReason::Vote.into(), who)
		} else {
			T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, lock_needed)
		}
""", """		let now = frame_system::Pallet::<T>::block_number();
		let mut voting = VotingOf::<T>::get(who);
		voting.rejig(now);
		let lock_needed = voting.locked_balance();
		VotingOf::<T>::insert(who, voting);
		match lock_needed {
			amount if amount.is_zero() => T::Fungible::thaw(&FreezeReason::Vote.into(), who),
			amount => T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, amount),
		}
"""))
R("inject-mutate", (D, """		let ref_index = Self::referendum_count();
		ReferendumCount::<T>::put(ref_index + 1);
		let status = ReferendumStatus""", """		let ref_index = ReferendumCount::<T>::mutate(|count| {
			let index = *count;
			*count += 1;
			index
		});
		let status = ReferendumStatus"""))
R("launchnext-let", (D, """		if LastTabledWasExternal::<T>::take() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
		} else {
			Self::launch_external(now).or_else(|_| Self::launch_public(now))
		}
		.map_err(|_| Error::<T>::NoneWaiting.into())
""", """		let external_was_last = LastTabledWasExternal::<T>::take();
		let launched = if external_was_last {
			Self::launch_public(now).is_ok() || Self::launch_external(now).is_ok()
		} else {
			Self::launch_external(now).is_ok() || Self::launch_public(now).is_ok()
		};
		ensure!(launched, Error::<T>::NoneWaiting);
		Ok(())
"""))
R("launchpublic-loopmax", (D, """		if let Some((winner_index, _)) = public_props.iter().enumerate().max_by_key(
			// defensive only: All current public proposals have an amount locked
			|x| Self::backing_for((x.1).0).defensive_unwrap_or_else(Zero::zero),
		) {
""", """		let mut best: Option<(usize, BalanceOf<T>)> = None;
		for (i, (prop_index, _, _)) in public_props.iter().enumerate() {
			// defensive only: All current public proposals have an amount locked
			let backing = Self::backing_for(*prop_index).defensive_unwrap_or_else(Zero::zero);
			best = match best {
				Some((j, top)) if top > backing => Some((j, top)),
				_ => Some((i, backing)),
			};
		}
		if let Some((winner_index, _)) = best {
"""))
R("launchpublic-letelse", (D, """			if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
				// refund depositors
				for d in depositors.iter() {
					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
				}
				Self::deposit_event(Event::<T>::Tabled { proposal_index: prop_index, deposit });
""", """			if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
				// refund depositors
				depositors.iter().try_for_each(|d| {
					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort).map(|_| ())
				})?;
				Self::deposit_event(Event::<T>::Tabled { proposal_index: prop_index, deposit });
"""))
R("bake-early", (D, """		if approved {
			Self::deposit_event(Event::<T>::Passed { ref_index: index });

			// Earliest it can be scheduled for is next block.
			let when = now.saturating_add(status.delay.max(One::one()));
""", """		if !approved {
			Self::deposit_event(Event::<T>::NotPassed { ref_index: index });
			return false;
		}
		{
			Self::deposit_event(Event::<T>::Passed { ref_index: index });

			// Earliest it can be scheduled for is next block.
			let when = now.saturating_add(if status.delay.is_zero() { One::one() } else { status.delay });
"""), (D, """				frame_support::print("LOGIC ERROR: bake_referendum/schedule_named failed");
			}
		} else {
			Self::deposit_event(Event::<T>::NotPassed { ref_index: index });
		}

		approved
""", """				frame_support::print("LOGIC ERROR: bake_referendum/schedule_named failed");
			}
		}

		true
"""))
R("begin-lub-for", (D, """		<LowestUnbaked<T>>::mutate(|ref_index| {
			while *ref_index < last &&
				Self::referendum_info(*ref_index)
					.map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))
			{
				*ref_index += 1
			}
		});
""", """		let mut lowest = Self::lowest_unbaked();
		while lowest < last {
			if let Some(ReferendumInfo::Ongoing(_)) = Self::referendum_info(lowest) {
				break;
			}
			lowest += 1;
		}
		<LowestUnbaked<T>>::put(lowest);
"""))
R("begin-lub-find", (D, """		<LowestUnbaked<T>>::mutate(|ref_index| {
			while *ref_index < last &&
				Self::referendum_info(*ref_index)
					.map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))
			{
				*ref_index += 1
			}
		});
""", """		LowestUnbaked::<T>::mutate(|ref_index| loop {
			if *ref_index >= last {
				break;
			}
			match Self::referendum_info(*ref_index) {
				None | Some(ReferendumInfo::Finished { .. }) => *ref_index += 1,
				Some(ReferendumInfo::Ongoing(_)) => break,
			}
		});
"""))
R("begin-inline", (D, """		for (index, info) in Self::maturing_referenda_at_inner(now, next..last).into_iter() {
			let approved = Self::bake_referendum(now, index, info);
			ReferendumInfoOf::<T>::insert(index, ReferendumInfo::Finished { end: now, approved });
			weight = max_block_weight;
		}
""", """		for index in next..last {
			let status = match Self::referendum_info(index) {
				Some(ReferendumInfo::Ongoing(status)) if status.end == now => status,
				_ => continue,
			};
			let approved = Self::bake_referendum(now, index, status);
			ReferendumInfoOf::<T>::insert(index, ReferendumInfo::Finished { end: now, approved });
			weight = max_block_weight;
		}
"""))
R("slash-both", H("""	fn slash_deposit(prop_index: PropIndex) {
		use frame_support::traits::fungible::BalancedHold;
		if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
			whos.into_iter().for_each(|who| {
				let (imbalance, _) = T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount);
				T::Slash::on_unbalanced(imbalance);
			});
		}
	}
"""), (D, """					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {
							T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
						}
					}
""", """					Self::slash_deposit(prop_index);
"""), (D, """			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
					T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
				}
			}
			Self::deposit_event(Event::<T>::ProposalCanceled { prop_index });
""", """			Self::slash_deposit(prop_index);
			Self::deposit_event(Event::<T>::ProposalCanceled { prop_index });
"""))
R("veto-notfound", (D, """			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""", """			let mut existing_vetoers = match Blacklist::<T>::get(proposal_hash) {
				Some((_, vetoers)) => vetoers,
				None => Default::default(),
			};
			match existing_vetoers.binary_search(&who) {
				Ok(_) => return Err(Error::<T>::AlreadyVetoed.into()),
				Err(position) =>
					if existing_vetoers.try_insert(position, who.clone()).is_err() {
						return Err(Error::<T>::TooMany.into());
					},
			}
"""))
R("veto-filter", (D, """			if let Some((ext_proposal, _)) = NextExternal::<T>::get() {
				ensure!(proposal_hash == ext_proposal.hash(), Error::<T>::ProposalMissing);
			} else {
				return Err(Error::<T>::NoProposal.into());
			}
""", """			let (ext_proposal, _) = NextExternal::<T>::get().ok_or(Error::<T>::NoProposal)?;
			if ext_proposal.hash() != proposal_hash {
				return Err(Error::<T>::ProposalMissing.into());
			}
"""))
R("fasttrack-bool", (D, """			let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {
				Some(origin)
			} else if let Err(origin) = T::FastTrackOrigin::try_origin(origin) {
				Some(origin)
			} else {
				None
			};
			if let Some(ensure_instant) = maybe_ensure_instant {
				T::InstantOrigin::ensure_origin(ensure_instant)?;
				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
			}
""", """			if voting_period < T::FastTrackVotingPeriod::get() {
				Self::ensure_instant(origin)?;
			} else {
				match T::FastTrackOrigin::try_origin(origin) {
					Ok(_) => {},
					Err(origin) => Self::ensure_instant(origin)?,
				}
			}
"""), H("""	fn ensure_instant(origin: OriginFor<T>) -> DispatchResult {
		T::InstantOrigin::ensure_origin(origin)?;
		if T::InstantAllowed::get() {
			Ok(())
		} else {
			Err(Error::<T>::InstantNotAllowed.into())
		}
	}
"""))
R("blacklist-external-iflet", (D, """			if matches!(NextExternal::<T>::get(), Some((p, ..)) if p.hash() == proposal_hash) {
				NextExternal::<T>::kill();
				Self::clear_metadata(MetadataOwner::External);
			}
""", """			NextExternal::<T>::mutate_exists(|next| {
				let is_blacklisted = next.as_ref().map_or(false, |(p, _)| p.hash() == proposal_hash);
				if is_blacklisted {
					*next = None;
					Self::clear_metadata(MetadataOwner::External);
				}
			});
"""))
R("blacklist-ref-chain", (D, """			if let Some(ref_index) = maybe_ref_index {
				if let Ok(status) = Self::referendum_status(ref_index) {
					if status.proposal.hash() == proposal_hash {
						Self::internal_cancel_referendum(ref_index);
					}
				}
			}
""", """			let to_cancel = maybe_ref_index.filter(|ref_index| {
				Self::referendum_status(*ref_index).map_or(false, |status| status.proposal.hash() == proposal_hash)
			});
			if let Some(ref_index) = to_cancel {
				Self::internal_cancel_referendum(ref_index);
			}
"""))
R("blacklist-props-find", (D, """				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
					let (prop_index, ..) = props.remove(index);
""", """				let found = props.iter().enumerate().find(|(_, (_, p, _))| p.hash() == proposal_hash).map(|(i, _)| i);
				if let Some(index) = found {
					let prop_index = props[index].0;
					props.remove(index);
"""))
R("cancel-position", (D, """			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
""", """			let mut props = PublicProps::<T>::get();
			props.retain(|(index, _, _)| !(*index == prop_index));
			PublicProps::<T>::put(props);
"""))
R("refstatus-match", (D, """		let info = ReferendumInfoOf::<T>::get(ref_index).ok_or(Error::<T>::ReferendumInvalid)?;
		Self::ensure_ongoing(info)
""", """		match ReferendumInfoOf::<T>::get(ref_index) {
			Some(ReferendumInfo::Ongoing(status)) => Ok(status),
			Some(ReferendumInfo::Finished { .. }) | None => Err(Error::<T>::ReferendumInvalid.into()),
		}
"""), (D, """	/// Ok if the given referendum is active, Err otherwise
	fn ensure_ongoing(
		r: ReferendumInfo<BlockNumberFor<T>, BoundedCallOf<T>, BalanceOf<T>>,
	) -> Result<ReferendumStatus<BlockNumberFor<T>, BoundedCallOf<T>, BalanceOf<T>>, DispatchError> {
		match r {
			ReferendumInfo::Ongoing(s) => Ok(s),
			_ => Err(Error::<T>::ReferendumInvalid.into()),
		}
	}

""", ""))
R("backing-match", (D, """		Self::deposit_of(proposal).map(|(l, d)| d.saturating_mul((l.len() as u32).into()))
""", """		let (depositors, deposit) = DepositOf::<T>::get(proposal)?;
		let count: BalanceOf<T> = (depositors.len() as u32).into();
		Some(count.saturating_mul(deposit))
"""))
R("decode-iflet", (D, """	let mut input = &buf[0..buf.len().min(bytes as usize)];
	match parity_scale_codec::Compact::<u32>::decode(&mut input) {
		Ok(c) => Some(c.0),
		Err(_) => {
			sp_runtime::print("Failed to decode compact u32 at:");
			sp_runtime::print(key);
			None
		},
	}
""", """	let available = (bytes as usize).min(buf.len());
	let mut input = &buf[..available];
	if let Ok(parity_scale_codec::Compact(value)) = parity_scale_codec::Compact::<u32>::decode(&mut input) {
		return Some(value);
	}
	sp_runtime::print("Failed to decode compact u32 at:");
	sp_runtime::print(key);
	None
"""))
R("meta-mutate", (D, """		if let Some(hash) = MetadataOf::<T>::take(&owner) {
			MetadataOf::<T>::insert(&new_owner, hash);
			Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner, owner: new_owner, hash });
		}
""", """		let Some(hash) = MetadataOf::<T>::get(&owner) else { return };
		MetadataOf::<T>::remove(&owner);
		MetadataOf::<T>::insert(new_owner.clone(), hash);
		Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner, owner: new_owner, hash });
"""))

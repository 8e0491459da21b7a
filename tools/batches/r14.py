exec(open("tools/batches/r7.py").read().split("# weights")[0])
# dispatchables and small types, restructured more boldly
R("z14-propose-helper", (D, """			if let Some((until, _)) = <Blacklist<T>>::get(proposal_hash) {
				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);
			}

			T::Fungible""", """			Self::ensure_not_blacklisted(proposal_hash)?;

			T::Fungible"""), (D, """			if let Some((until, _)) = <Blacklist<T>>::get(proposal.hash()) {
				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);
			}
			<NextExternal""", """			Self::ensure_not_blacklisted(proposal.hash())?;
			<NextExternal"""), helper("""	fn ensure_not_blacklisted(hash: T::Hash) -> Result<(), Error<T>> {
		let blocked = Blacklist::<T>::get(hash).map_or(false, |(until, _)| frame_system::Pallet::<T>::block_number() < until);
		if blocked {
			Err(Error::<T>::ProposalBlacklisted)
		} else {
			Ok(())
		}
	}
"""))
R("z14-propose-mutate", (D, """			PublicProps::<T>::try_append((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;
""", """			PublicProps::<T>::try_mutate(|props| props.try_push((index, proposal, who))).map_err(|_| Error::<T>::TooMany)?;
"""))
R("z14-propose-count", (D, """			let index = Self::public_prop_count();
			let real""", """			let index = PublicPropCount::<T>::get();
			let real"""), (D, """			PublicPropCount::<T>::put(index + 1);
""", """			PublicPropCount::<T>::mutate(|count| *count += 1);
"""))
R("z14-propose-len", (D, """			let real_prop_count = PublicProps::<T>::decode_len().unwrap_or(0) as u32;
			let max_proposals = T::MaxProposals::get();
			ensure!(real_prop_count < max_proposals, Error::<T>::TooMany);
""", """			let waiting = PublicProps::<T>::get().len() as u32;
			if waiting >= T::MaxProposals::get() {
				return Err(Error::<T>::TooMany.into());
			}
"""))
R("z14-propose-depositors", (D, """			let depositors = BoundedVec::<_, T::MaxDeposits>::truncate_from(vec![who.clone()]);
			DepositOf::<T>::insert(index, (depositors, value));
""", """			let mut first = Vec::with_capacity(1);
			first.push(who.clone());
			let depositors: BoundedVec<T::AccountId, T::MaxDeposits> = BoundedVec::truncate_from(first);
			DepositOf::<T>::set(index, Some((depositors, value)));
"""))
R("z14-second-destructure", (D, """			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			T::Fungible::hold(&HoldReason::Proposal.into(), &who, deposit.1)?;
			let ok = deposit.0.try_push(who.clone()).is_ok();
			debug_assert!(ok, "`seconds` is below static limit; `try_insert` should succeed; qed");
			<DepositOf<T>>::insert(proposal, deposit);
""", """			let Some((mut backers, each)) = DepositOf::<T>::get(proposal) else {
				return Err(Error::<T>::ProposalMissing.into());
			};
			T::Fungible::hold(&HoldReason::Proposal.into(), &who, each)?;
			let pushed = backers.try_push(who.clone());
			debug_assert!(pushed.is_ok(), "`seconds` is below static limit; `try_insert` should succeed; qed");
			<DepositOf<T>>::insert(proposal, (backers, each));
"""))
R("z14-second-event-first", (D, """			<DepositOf<T>>::insert(proposal, deposit);
			Self::deposit_event(Event::<T>::Seconded { seconder: who, prop_index: proposal });
""", """			let event = Event::<T>::Seconded { seconder: who, prop_index: proposal };
			Self::deposit_event(event);
			<DepositOf<T>>::insert(proposal, deposit);
"""))
R("z14-emergency-mutate", (D, """			let h = status.proposal.hash();
			ensure!(!<Cancellations<T>>::contains_key(h), Error::<T>::AlreadyCanceled);

			<Cancellations<T>>::insert(h, true);
			Self::internal""", """			Cancellations::<T>::try_mutate_exists(status.proposal.hash(), |cancelled| {
				if cancelled.is_some() {
					return Err(Error::<T>::AlreadyCanceled);
				}
				*cancelled = Some(true);
				Ok(())
			})?;
			Self::internal"""))
R("z14-emergency-status", (D, """			let status = Self::referendum_status(ref_index)?;
			let h = status.proposal.hash();
""", """			let h = match ReferendumInfoOf::<T>::get(ref_index) {
				Some(ReferendumInfo::Ongoing(status)) => status.proposal.hash(),
				_ => return Err(Error::<T>::ReferendumInvalid.into()),
			};
"""))
R("z14-external-helper", (D, """			T::ExternalMajorityOrigin::ensure_origin(origin)?;
			<NextExternal<T>>::put((proposal, VoteThreshold::SimpleMajority));
			// The replaced proposal's metadata must not describe the new one.
			Self::clear_metadata(MetadataOwner::External);
			Ok(())
""", """			T::ExternalMajorityOrigin::ensure_origin(origin)?;
			Self::replace_external(proposal, VoteThreshold::SimpleMajority)
"""), (D, """			T::ExternalDefaultOrigin::ensure_origin(origin)?;
			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
			// The replaced proposal's metadata must not describe the new one.
			Self::clear_metadata(MetadataOwner::External);
			Ok(())
""", """			T::ExternalDefaultOrigin::ensure_origin(origin)?;
			Self::replace_external(proposal, VoteThreshold::SuperMajorityAgainst)
"""), helper("""	fn replace_external(proposal: BoundedCallOf<T>, threshold: VoteThreshold) -> DispatchResult {
		Self::clear_metadata(MetadataOwner::External);
		NextExternal::<T>::set(Some((proposal, threshold)));
		Ok(())
	}
"""))
R("z14-fast-match", (D, """			let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {
				Some(origin)
			} else if let Err(origin) = T::FastTrackOrigin::try_origin(origin) {
				Some(origin)
			} else {
				None
			};
			if let Some(ensure_instant) = maybe_ensure_instant {
				T::InstantOrigin::ensure_origin(ensure_instant)?;
				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
			}
""", """			let long_enough = voting_period >= T::FastTrackVotingPeriod::get();
			let attempt = if long_enough { T::FastTrackOrigin::try_origin(origin).map(|_| ()) } else { Err(origin) };
			match attempt {
				Ok(()) => {},
				Err(other) => {
					let _ = T::InstantOrigin::ensure_origin(other)?;
					if !T::InstantAllowed::get() {
						return Err(Error::<T>::InstantNotAllowed.into());
					}
				},
			}
"""))
R("z14-fast-take", (D, """			let (ext_proposal, threshold) = <NextExternal<T>>::get().ok_or(Error::<T>::ProposalMissing)?;
			ensure!(threshold != VoteThreshold::SuperMajorityApprove, Error::<T>::NotSimpleMajority,);
			ensure!(proposal_hash == ext_proposal.hash(), Error::<T>::InvalidHash);

			<NextExternal<T>>::kill();
			let now""", """			let (ext_proposal, threshold) = <NextExternal<T>>::take().ok_or(Error::<T>::ProposalMissing)?;
			if matches!(threshold, VoteThreshold::SuperMajorityApprove) {
				return Err(Error::<T>::NotSimpleMajority.into());
			}
			ensure!(ext_proposal.hash() == proposal_hash, Error::<T>::InvalidHash);

			let now"""))
R("z14-fast-end", (D, """			let ref_index = Self::inject_referendum(now.saturating_add(voting_period), ext_proposal, threshold, delay);
			Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(ref_index));
			Ok(())
""", """			let end = voting_period.saturating_add(now);
			let owner = MetadataOwner::Referendum(Self::inject_referendum(end, ext_proposal, threshold, delay));
			Self::transfer_metadata(MetadataOwner::External, owner);
			Ok(())
"""))
R("z14-veto-match", (D, """			if let Some((ext_proposal, _)) = NextExternal::<T>::get() {
				ensure!(proposal_hash == ext_proposal.hash(), Error::<T>::ProposalMissing);
			} else {
				return Err(Error::<T>::NoProposal.into());
			}

			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""", """			let waiting = NextExternal::<T>::get().map(|(p, _)| p.hash()).ok_or(Error::<T>::NoProposal)?;
			ensure!(waiting == proposal_hash, Error::<T>::ProposalMissing);

			let mut existing_vetoers = match <Blacklist<T>>::get(&proposal_hash) {
				Some((_, vetoers)) => vetoers,
				None => Default::default(),
			};
			match existing_vetoers.binary_search(&who) {
				Ok(_) => return Err(Error::<T>::AlreadyVetoed.into()),
				Err(at) => existing_vetoers.try_insert(at, who.clone()).map_err(|_| Error::<T>::TooMany)?,
			}
"""))
R("z14-veto-kill-first", (D, """			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
			<NextExternal<T>>::kill();
			Self::clear_metadata(MetadataOwner::External);
""", """			NextExternal::<T>::set(None);
			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
			Self::clear_metadata(MetadataOwner::External);
"""))
R("z14-veto-now", (D, """			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
""", """			let mut until = T::CooloffPeriod::get();
			until = until.saturating_add(frame_system::Pallet::<T>::block_number());
"""))
R("z14-cancel-wrappers", (D, """			ensure_root(origin)?;
			Self::internal_cancel_referendum(ref_index);
			Ok(())
""", """			ensure_root(origin).map_err(DispatchError::from).map(|()| Self::internal_cancel_referendum(ref_index))
"""))
R("z14-delegate-inline", (D, """			let who = ensure_signed(origin)?;
			let to = T::Lookup::lookup(to)?;
			let votes = Self::try_delegate(who, to, conviction, balance)?;
""", """			let from = ensure_signed(origin)?;
			let target = <T::Lookup as StaticLookup>::lookup(to)?;
			let votes = Self::try_delegate(from, target, conviction, balance)?;
"""))
R("z14-clear-put", (D, """			<PublicProps<T>>::kill();
			Ok(())
""", """			PublicProps::<T>::kill();
			Ok(())
"""))
R("z14-clear-take", (D, """			<PublicProps<T>>::kill();
			Ok(())
""", """			let _ = PublicProps::<T>::take();
			Ok(())
"""))
R("z14-other-tail", (D, """			let scope = if target == who { UnvoteScope::Any } else { UnvoteScope::OnlyExpired };
			Self::try_remove_vote(&target, index, scope)?;
			Ok(())
""", """			if who != target {
				return Self::try_remove_vote(&target, index, UnvoteScope::OnlyExpired);
			}
			Self::try_remove_vote(&who, index, UnvoteScope::Any)
"""))
R("z14-blacklist-helper", (D, """					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {
							T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
						}
					}
					Self::clear_metadata""", """					Self::slash_backers(prop_index);
					Self::clear_metadata"""), (D, """			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
					T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
				}
			}
			Self::deposit_event(Event::<T>::ProposalCanceled""", """			Self::slash_backers(prop_index);
			Self::deposit_event(Event::<T>::ProposalCanceled"""), helper("""	fn slash_backers(prop_index: PropIndex) {
		let Some((whos, amount)) = DepositOf::<T>::take(prop_index) else { return };
		let reason = HoldReason::Proposal.into();
		whos.iter().for_each(|who| {
			let (imbalance, _) = <T::Fungible as frame_support::traits::fungible::BalancedHold<T::AccountId>>::slash(&reason, who, amount);
			T::Slash::on_unbalanced(imbalance);
		});
	}
"""))
R("z14-blacklist-order", (D, """			if matches!(NextExternal::<T>::get(), Some((p, ..)) if p.hash() == proposal_hash) {
				NextExternal::<T>::kill();
				Self::clear_metadata(MetadataOwner::External);
			}
""", """			if let Some((waiting, _)) = NextExternal::<T>::get() {
				if proposal_hash == waiting.hash() {
					Self::clear_metadata(MetadataOwner::External);
					NextExternal::<T>::kill();
				}
			}
"""))
R("z14-blacklist-chain", (D, """			if let Some(ref_index) = maybe_ref_index {
				if let Ok(status) = Self::referendum_status(ref_index) {
					if status.proposal.hash() == proposal_hash {
						Self::internal_cancel_referendum(ref_index);
					}
				}
			}
""", """			let found = maybe_ref_index
				.and_then(|i| Self::referendum_status(i).ok().map(|s| (i, s.proposal.hash())))
				.filter(|(_, hash)| *hash == proposal_hash);
			if let Some((ref_index, _)) = found {
				Self::internal_cancel_referendum(ref_index);
			}
"""))
R("z14-blacklist-props", (D, """			PublicProps::<T>::mutate(|props| {
				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
					let (prop_index, ..) = props.remove(index);
""", """			PublicProps::<T>::mutate(|props| {
				let hashes: Vec<T::Hash> = props.iter().map(|(_, call, _)| call.hash()).collect();
				if let Some(index) = hashes.iter().position(|h| *h == proposal_hash) {
					let prop_index = props.remove(index).0;
"""))
R("z14-cancel-retain", (D, """			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));
""", """			let mut props = PublicProps::<T>::get();
			props.retain(|(i, _, _)| !(*i == prop_index));
			PublicProps::<T>::put(props);
"""))
R("z14-metadata-helper", (D, """			match owner {
				MetadataOwner::External => {
					let (_, threshold) = <NextExternal<T>>::get().ok_or(Error::<T>::NoProposal)?;
					Self::ensure_external_origin(threshold, origin)?;
				},
				MetadataOwner::Proposal(index) => {
					let who = ensure_signed(origin)?;
					let (_, _, proposer) = Self::proposal(index)?;
					ensure!(proposer == who, Error::<T>::NoPermission);
				},
				MetadataOwner::Referendum(index) => {
					let is_root = ensure_signed_or_root(origin)?.is_none();
					ensure!(is_root || maybe_hash.is_none(), Error::<T>::NoPermission);
					ensure!(is_root || Self::referendum_status(index).is_err(), Error::<T>::NoPermission);
				},
			}
			if let Some(hash)""", """			Self::ensure_may_describe(origin, &owner, maybe_hash.is_none())?;
			if let Some(hash)"""), helper("""	fn ensure_may_describe(origin: frame_system::pallet_prelude::OriginFor<T>, owner: &MetadataOwner, clearing: bool) -> DispatchResult {
		match *owner {
			MetadataOwner::External => match NextExternal::<T>::get() {
				Some((_, threshold)) => Ok(Self::ensure_external_origin(threshold, origin)?),
				None => Err(Error::<T>::NoProposal.into()),
			},
			MetadataOwner::Proposal(index) => {
				let who = frame_system::ensure_signed(origin)?;
				let proposer = Self::proposal(index)?.2;
				ensure!(who == proposer, Error::<T>::NoPermission);
				Ok(())
			},
			MetadataOwner::Referendum(index) => {
				if frame_system::ensure_signed_or_root(origin)?.is_some() {
					let over = Self::referendum_status(index).is_err();
					ensure!(clearing && over, Error::<T>::NoPermission);
				}
				Ok(())
			},
		}
	}
"""))
R("z14-metadata-early", (D, """			if let Some(hash) = maybe_hash {
				ensure!(T::Preimages::len(&hash).is_some(), Error::<T>::PreimageNotExist);
				MetadataOf::<T>::insert(owner.clone(), hash);
				Self::deposit_event(Event::<T>::MetadataSet { owner, hash });
			} else {
				Self::clear_metadata(owner);
			}
			Ok(())
""", """			let Some(hash) = maybe_hash else {
				Self::clear_metadata(owner);
				return Ok(());
			};
			if T::Preimages::len(&hash).is_none() {
				return Err(Error::<T>::PreimageNotExist.into());
			}
			MetadataOf::<T>::insert(&owner, &hash);
			Self::deposit_event(Event::<T>::MetadataSet { owner, hash });
			Ok(())
"""))
R("z14-vote-struct", (D, """			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
""", """			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by(|(index, _)| index.cmp(&ref_index)) {
					Ok(i) => {
						let previous = sp_std::mem::replace(&mut votes[i].1, vote);
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(previous).ok_or(ArithmeticError::Underflow)?;
						match previous {
							AccountVote::Standard { vote: Vote { aye, .. }, .. } => {
								status.tally.reduce(aye, *delegations);
							},
							AccountVote::Split { .. } => {},
						}
					},
"""))
R("z14-vote-take", (D, """		VotingOf::<T>::try_mutate(who, |voting| -> DispatchResult {
			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
					Err(i) => {
						votes.try_insert(i, (ref_index, vote)).map_err(|_| Error::<T>::MaxVotesReached)?;
					},
				}
				Self::deposit_event(Event::<T>::Voted { voter: who.clone(), ref_index, vote });
				// Shouldn't be possible to fail, but we handle it gracefully.
				status.tally.add(vote).ok_or(ArithmeticError::Overflow)?;
				if let Some(approve) = vote.as_standard() {
					status.tally.increase(approve, *delegations);
				}
				Ok(())
			} else {
				Err(Error::<T>::AlreadyDelegating.into())
			}
		})?;
""", """		let mut voting = VotingOf::<T>::get(who);
		let (votes, delegations) = match &mut voting {
			Voting::Direct { votes, delegations, .. } => (votes, *delegations),
			Voting::Delegating { .. } => return Err(Error::<T>::AlreadyDelegating.into()),
		};
		match votes.binary_search_by_key(&ref_index, |i| i.0) {
			Ok(i) => {
				let (_, previous) = votes[i];
				status.tally.remove(previous).ok_or(ArithmeticError::Underflow)?;
				if let Some(approve) = previous.as_standard() {
					status.tally.reduce(approve, delegations);
				}
				votes[i] = (ref_index, vote);
			},
			Err(i) => {
				votes.try_insert(i, (ref_index, vote)).map_err(|_| Error::<T>::MaxVotesReached)?;
			},
		}
		status.tally.add(vote).ok_or(ArithmeticError::Overflow)?;
		if let Some(approve) = vote.as_standard() {
			status.tally.increase(approve, delegations);
		}
		VotingOf::<T>::insert(who, voting);
		Self::deposit_event(Event::<T>::Voted { voter: who.clone(), ref_index, vote });
"""))
R("z14-remove-until", (D, """						if let Some((lock_periods, balance)) = votes[i].1.locked_if(approved) {
							let unlock_at =
								end.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods.into()));
							let now = frame_system::Pallet::<T>::block_number();
							if now < unlock_at {
								ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
								prior.accumulate(unlock_at, balance)
							}
						}
""", """						let still_locked = votes[i].1.locked_if(approved).and_then(|(periods, balance)| {
							let length = T::VoteLockingPeriod::get().saturating_mul(periods.into());
							let unlock_at = length.saturating_add(end);
							(unlock_at > frame_system::Pallet::<T>::block_number()).then_some((unlock_at, balance))
						});
						if let Some((unlock_at, balance)) = still_locked {
							if let UnvoteScope::OnlyExpired = scope {
								return Err(Error::<T>::NoPermission.into());
							}
							prior.accumulate(unlock_at, balance);
						}
"""))
R("z14-unlock-block", (D, """					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},""", """					prior.accumulate(Self::unlock_block(conviction), balance);
					voting.set_common(delegations, prior);
				},"""), (D, """					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);

					Ok(votes)""", """					prior.accumulate(Self::unlock_block(conviction), balance);
					voting.set_common(delegations, prior);

					Ok(votes)"""), helper("""	fn unlock_block(conviction: Conviction) -> BlockNumberFor<T> {
		let periods: BlockNumberFor<T> = conviction.lock_periods().into();
		frame_system::Pallet::<T>::block_number().saturating_add(periods.saturating_mul(T::VoteLockingPeriod::get()))
	}
"""))
R("z14-update-lock-match", (D, """		if lock_needed.is_zero() {
			T::Fungible::thaw(&FreezeReason::Vote.into(), who)
		} else {
			T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, lock_needed)
		}
""", """		let reason = FreezeReason::Vote.into();
		match lock_needed {
			needed if needed > Zero::zero() => T::Fungible::set_freeze(&reason, who, needed),
			_ => T::Fungible::thaw(&reason, who),
		}
"""))
R("z14-inject-mutate", (D, """		let ref_index = Self::referendum_count();
		ReferendumCount::<T>::put(ref_index + 1);
		let status = ReferendumStatus { end, proposal, threshold, delay, tally: Default::default() };
		let item = ReferendumInfo::Ongoing(status);
		<ReferendumInfoOf<T>>::insert(ref_index, item);
""", """		let ref_index = ReferendumCount::<T>::mutate(|count| {
			let index = *count;
			*count = index + 1;
			index
		});
		ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::new(end, proposal, threshold, delay));
"""))
R("z14-launch-next-pair", (D, """		if LastTabledWasExternal::<T>::take() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
		} else {
			Self::launch_external(now).or_else(|_| Self::launch_public(now))
		}
		.map_err(|_| Error::<T>::NoneWaiting.into())
""", """		let public_first = LastTabledWasExternal::<T>::take();
		let launched = match public_first {
			true => Self::launch_public(now).is_ok() || Self::launch_external(now).is_ok(),
			false => Self::launch_external(now).is_ok() || Self::launch_public(now).is_ok(),
		};
		ensure!(launched, Error::<T>::NoneWaiting);
		Ok(())
"""))
R("z14-tally-new-add", (T, """		let Delegations { votes, capital } = vote.conviction.votes(balance);
		Self {
			ayes: if vote.aye { votes } else { Zero::zero() },
			nays: if vote.aye { Zero::zero() } else { votes },
			turnout: capital,
		}
""", """		let Delegations { votes, capital: turnout } = vote.conviction.votes(balance);
		let (ayes, nays) = if vote.aye { (votes, Zero::zero()) } else { (Zero::zero(), votes) };
		Self { ayes, nays, turnout }
"""))
R("z14-delegations-zip", (T, """		Self { votes: self.votes.saturating_sub(o.votes), capital: self.capital.saturating_sub(o.capital) }
""", """		let Self { votes, capital } = self;
		let Self { votes: less_votes, capital: less_capital } = o;
		Self { capital: capital.saturating_sub(less_capital), votes: votes.saturating_sub(less_votes) }
"""))
R("z14-increase-side", (T, """		self.turnout = self.turnout.saturating_add(delegations.capital);
		match approve {
			true => self.ayes = self.ayes.saturating_add(delegations.votes),
			false => self.nays = self.nays.saturating_add(delegations.votes),
		}
		Some(())
""", """		let Delegations { votes, capital } = delegations;
		if approve {
			self.ayes = self.ayes.saturating_add(votes);
		} else {
			self.nays = self.nays.saturating_add(votes);
		}
		self.turnout = capital.saturating_add(self.turnout);
		Some(())
"""))
R("z14-encode-shift", (V, """		output.push_byte(u8::from(self.conviction) | if self.aye { 0b1000_0000 } else { 0 });
""", """		let mut byte: u8 = self.conviction.into();
		if self.aye {
			byte |= 1 << 7;
		}
		output.push_byte(byte);
"""))
R("z14-decode-order", (V, """		let b = input.read_byte()?;
		Ok(Vote {
			aye: (b & 0b1000_0000) == 0b1000_0000,
			conviction: Conviction::try_from(b & 0b0111_1111)
				.map_err(|_| parity_scale_codec::Error::from("Invalid conviction"))?,
		})
""", """		const AYE: u8 = 0x80;
		let b = input.read_byte()?;
		match Conviction::try_from(b & !AYE) {
			Ok(conviction) => Ok(Vote { aye: b & AYE != 0, conviction }),
			Err(()) => Err("Invalid conviction".into()),
		}
"""))
R("z14-locked-if-nested", (V, """		match self {
			AccountVote::Standard { vote, balance } if vote.aye == approved =>
				Some((vote.conviction.lock_periods(), balance)),
			_ => None,
		}
""", """		if let AccountVote::Standard { vote: Vote { aye, conviction }, balance } = self {
			if aye == approved {
				return Some((conviction.lock_periods(), balance));
			}
		}
		None
"""))
R("z14-locked-balance-loop", (V, """			Voting::Direct { votes, prior, .. } =>
				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),
""", """			Voting::Direct { votes, prior, .. } => {
				let mut needed = prior.locked();
				for (_, vote) in votes.iter() {
					let b = vote.balance();
					if b > needed {
						needed = b;
					}
				}
				needed
			},
"""))
R("z14-rejig-early", (V, """		if now >= self.0 {
			self.0 = Zero::zero();
			self.1 = Zero::zero();
		}
""", """		if self.0 > now {
			return;
		}
		*self = PriorLock(Zero::zero(), Zero::zero());
"""))
R("z14-accumulate-cmp", (V, """		self.0 = self.0.max(until);
		self.1 = self.1.max(amount);
""", """		if until > self.0 {
			self.0 = until;
		}
		self.1 = sp_std::cmp::max(amount, self.1);
"""))
R("z14-set-common-match", (V, """		let (d, p) = match self {
			Voting::Direct { ref mut delegations, ref mut prior, .. } => (delegations, prior),
			Voting::Delegating { ref mut delegations, ref mut prior, .. } => (delegations, prior),
		};
		*d = delegations;
		*p = prior;
""", """		match self {
			Voting::Direct { delegations: d, prior: p, .. } | Voting::Delegating { delegations: d, prior: p, .. } => {
				*p = prior;
				*d = delegations;
			},
		}
"""))
R("z14-votes-table", (C, """			x => capital.checked_mul(&u8::from(x).into()).unwrap_or_else(B::max_value),
""", """			_ => {
				let factor: B = u8::from(self).into();
				match capital.checked_mul(&factor) {
					Some(v) => v,
					None => B::max_value(),
				}
			},
"""))
R("z14-periods-pow", (C, """			Conviction::Locked1x => 1,
			Conviction::Locked2x => 2,
			Conviction::Locked3x => 4,
			Conviction::Locked4x => 8,
			Conviction::Locked5x => 16,
			Conviction::Locked6x => 32,
		}
	}

	/// The votes""", """			other => 1 << (u8::from(other) - 1),
		}
	}

	/// The votes"""))
R("z14-approved-if", (TH, """		let sqrt_voters = tally.turnout.integer_sqrt();
		let sqrt_electorate = electorate.integer_sqrt();
		if sqrt_voters.is_zero() {
			return false;
		}
		match *self {
			VoteThreshold::SuperMajorityApprove =>
				compare_rationals(tally.nays, sqrt_voters, tally.ayes, sqrt_electorate),
			VoteThreshold::SuperMajorityAgainst =>
				compare_rationals(tally.nays, sqrt_electorate, tally.ayes, sqrt_voters),
			VoteThreshold::SimpleMajority => tally.ayes > tally.nays,
		}
""", """		let Tally { ayes, nays, turnout } = tally;
		let sqrt_voters = turnout.integer_sqrt();
		if sqrt_voters == Zero::zero() {
			return false;
		}
		let sqrt_electorate = electorate.integer_sqrt();
		if let VoteThreshold::SimpleMajority = self {
			return nays < ayes;
		}
		let (against, with) = match self {
			VoteThreshold::SuperMajorityApprove => (sqrt_voters, sqrt_electorate),
			_ => (sqrt_electorate, sqrt_voters),
		};
		compare_rationals(nays, against, ayes, with)
"""))

D = "pallets/democracy/src/lib.rs"
V = "pallets/democracy/src/vote.rs"
T = "pallets/democracy/src/types.rs"
TH = "pallets/democracy/src/vote_threshold.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))

HOLDER = "impl<T: Config> Pallet<T> {\n\t// exposed immutables.\n"
def helper(body):
    return (D, HOLDER, HOLDER + body)

# helper extraction: blacklist check
BL = """			if let Some((until, _)) = <Blacklist<T>>::get(%s) {
				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);
			}
"""
R("blacklist-helper", (D, BL % "proposal_hash", "\t\t\tSelf::ensure_not_blacklisted(proposal_hash)?;\n"),
  (D, BL % "proposal.hash()", "\t\t\tSelf::ensure_not_blacklisted(proposal.hash())?;\n"),
  helper("""	fn ensure_not_blacklisted(hash: T::Hash) -> DispatchResult {
		if let Some((until, _)) = <Blacklist<T>>::get(hash) {
			if <frame_system::Pallet<T>>::block_number() < until {
				return Err(Error::<T>::ProposalBlacklisted.into());
			}
		}
		Ok(())
	}
"""))
R("slash-helper", (D, """					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {
							T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
						}
					}
""", "\t\t\t\t\tSelf::slash_deposits(prop_index);\n"), (D, """			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
					T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
				}
			}
""", "\t\t\tSelf::slash_deposits(prop_index);\n"), helper("""	fn slash_deposits(prop_index: PropIndex) {
		let Some((depositors, deposit)) = DepositOf::<T>::take(prop_index) else { return };
		depositors.iter().for_each(|depositor| {
			let (imbalance, _missing) = <T::Fungible as frame_support::traits::fungible::BalancedHold<T::AccountId>>::slash(&HoldReason::Proposal.into(), depositor, deposit);
			T::Slash::on_unbalanced(imbalance);
		});
	}
"""))
R("slash-while", (D, """			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
				for who in whos.into_iter() {
					T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);
				}
			}
			Self::deposit_event""", """			match DepositOf::<T>::take(prop_index) {
				Some((whos, amount)) => {
					let mut iter = whos.into_iter();
					while let Some(who) = iter.next() {
						let (credit, _) = T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount);
						T::Slash::on_unbalanced(credit);
					}
				},
				None => {},
			}
			Self::deposit_event"""))
R("propose-reorder", (D, """			DepositOf::<T>::insert(index, (depositors, value));

			PublicPropCount::<T>::put(index + 1);

""", """			PublicPropCount::<T>::put(index + 1);
			DepositOf::<T>::insert(index, (depositors, value));
"""))
R("propose-len", (D, """			let real_prop_count = PublicProps::<T>::decode_len().unwrap_or(0) as u32;
			let max_proposals = T::MaxProposals::get();
			ensure!(real_prop_count < max_proposals, Error::<T>::TooMany);
""", """			let real_prop_count = PublicProps::<T>::get().len() as u32;
			if real_prop_count >= T::MaxProposals::get() {
				return Err(Error::<T>::TooMany.into());
			}
"""))
R("propose-mutate", (D, "PublicProps::<T>::try_append((index, proposal, who)).map_err(|_| Error::<T>::TooMany)?;",
  """PublicProps::<T>::try_mutate(|props| props.try_push((index, proposal, who)).map_err(|_| Error::<T>::TooMany))?;"""))
R("propose-count-mutate", (D, "PublicPropCount::<T>::put(index + 1);", "PublicPropCount::<T>::mutate(|c| *c += 1);"))
R("second-mutate", (D, """			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;
			T::Fungible::hold(&HoldReason::Proposal.into(), &who, deposit.1)?;
			let ok = deposit.0.try_push(who.clone()).is_ok();
			debug_assert!(ok, "`seconds` is below static limit; `try_insert` should succeed; qed");
			<DepositOf<T>>::insert(proposal, deposit);
""", """			DepositOf::<T>::try_mutate(proposal, |maybe| -> DispatchResult {
				let (depositors, amount) = maybe.as_mut().ok_or(Error::<T>::ProposalMissing)?;
				T::Fungible::hold(&HoldReason::Proposal.into(), &who, *amount)?;
				let ok = depositors.try_push(who.clone()).is_ok();
				debug_assert!(ok, "`seconds` is below static limit; `try_insert` should succeed; qed");
				Ok(())
			})?;
"""))
R("second-len", (D, "let seconds = Self::len_of_deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;",
  "let seconds = DepositOf::<T>::get(proposal).map(|(l, _)| l.len() as u32).ok_or(Error::<T>::ProposalMissing)?;"))
R("fasttrack-match", (D, """			let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {
				Some(origin)
			} else if let Err(origin) = T::FastTrackOrigin::try_origin(origin) {
				Some(origin)
			} else {
				None
			};
			if let Some(ensure_instant) = maybe_ensure_instant {
				T::InstantOrigin::ensure_origin(ensure_instant)?;
				ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
			}
""", """			let instant = if voting_period >= T::FastTrackVotingPeriod::get() {
				T::FastTrackOrigin::try_origin(origin).err()
			} else {
				Some(origin)
			};
			if let Some(origin) = instant {
				let _ = T::InstantOrigin::ensure_origin(origin)?;
				if !T::InstantAllowed::get() {
					return Err(Error::<T>::InstantNotAllowed.into());
				}
			}
"""))
R("fasttrack-take", (D, """			let (ext_proposal, threshold) = <NextExternal<T>>::get().ok_or(Error::<T>::ProposalMissing)?;
			ensure!(threshold !=""", """			let (ext_proposal, threshold) = <NextExternal<T>>::take().ok_or(Error::<T>::ProposalMissing)?;
			ensure!(threshold !="""), (D, """			<NextExternal<T>>::kill();
			let now = <""", """			let now = <"""))
R("veto-match", (D, """			if let Some((ext_proposal, _)) = NextExternal::<T>::get() {
				ensure!(proposal_hash == ext_proposal.hash(), Error::<T>::ProposalMissing);
			} else {
				return Err(Error::<T>::NoProposal.into());
			}
""", """			let (ext_proposal, _) = NextExternal::<T>::get().ok_or(Error::<T>::NoProposal)?;
			ensure!(ext_proposal.hash() == proposal_hash, Error::<T>::ProposalMissing);
"""))
R("veto-search", (D, """			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
""", """			match existing_vetoers.binary_search(&who) {
				Ok(_) => return Err(Error::<T>::AlreadyVetoed.into()),
				Err(pos) => existing_vetoers.try_insert(pos, who.clone()).map_err(|_| Error::<T>::TooMany)?,
			}
"""))
R("blacklist-splitmutate", (D, """			PublicProps::<T>::mutate(|props| {
				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
					let (prop_index, ..) = props.remove(index);
					if let""", """			let removed = PublicProps::<T>::mutate(|props| {
				let index = props.iter().position(|p| p.1.hash() == proposal_hash)?;
				Some(props.remove(index))
			});
			{
				if let Some((prop_index, ..)) = removed {
					if let"""), (D, """					Self::clear_metadata(MetadataOwner::Proposal(prop_index));
				}
			});
""", """					Self::clear_metadata(MetadataOwner::Proposal(prop_index));
				}
			}
"""))
R("blacklist-flat", (D, """				if let Ok(status) = Self::referendum_status(ref_index) {
					if status.proposal.hash() == proposal_hash {
						Self::internal_cancel_referendum(ref_index);
					}
				}
""", """				match ReferendumInfoOf::<T>::get(ref_index) {
					Some(ReferendumInfo::Ongoing(status)) if status.proposal.hash() == proposal_hash =>
						Self::internal_cancel_referendum(ref_index),
					_ => (),
				}
"""))
R("blacklist-ext", (D, """			if matches!(NextExternal::<T>::get(), Some((p, ..)) if p.hash() == proposal_hash) {
				NextExternal::<T>::kill();
""", """			let is_queued = NextExternal::<T>::get().map_or(false, |(p, _)| p.hash() == proposal_hash);
			if is_queued {
				NextExternal::<T>::kill();
"""))
R("cancel-filter", (D, "PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));", """let mut props = PublicProps::<T>::get();
			props.retain(|(index, _, _)| *index != prop_index);
			PublicProps::<T>::put(props);"""))
R("cancel-reorder", (D, """			Self::deposit_event(Event::<T>::ProposalCanceled { prop_index });
			Self::clear_metadata(MetadataOwner::Proposal(prop_index));
""", """			Self::clear_metadata(MetadataOwner::Proposal(prop_index));
			Self::deposit_event(Event::<T>::ProposalCanceled { prop_index });
"""))
R("metadata-nested", (D, """					let is_root = ensure_signed_or_root(origin)?.is_none();
					ensure!(is_root || maybe_hash.is_none(), Error::<T>::NoPermission);
					ensure!(is_root || Self::referendum_status(index).is_err(), Error::<T>::NoPermission);
""", """					if ensure_signed_or_root(origin)?.is_some() {
						ensure!(maybe_hash.is_none(), Error::<T>::NoPermission);
						ensure!(Self::referendum_status(index).is_err(), Error::<T>::NoPermission);
					}
"""))
R("metadata-match", (D, """			if let Some(hash) = maybe_hash {
				ensure!(T::Preimages::len(&hash).is_some(), Error::<T>::PreimageNotExist);
				MetadataOf::<T>::insert(owner.clone(), hash);
				Self::deposit_event(Event::<T>::MetadataSet { owner, hash });
			} else {
				Self::clear_metadata(owner);
			}
			Ok(())
""", """			match maybe_hash {
				None => Self::clear_metadata(owner),
				Some(hash) => {
					if T::Preimages::len(&hash).is_none() {
						return Err(Error::<T>::PreimageNotExist.into());
					}
					MetadataOf::<T>::insert(&owner, hash);
					Self::deposit_event(Event::<T>::MetadataSet { owner, hash });
				},
			}
			Ok(())
"""))
R("vote-restructure", (D, """			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {
					Ok(i) => {
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;
					},
					Err(i) => {
""", """			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by(|(index, _)| index.cmp(&ref_index)) {
					Ok(i) => {
						let previous = sp_std::mem::replace(&mut votes[i].1, vote);
						Self::withdraw_vote(&mut status, previous, *delegations)?;
					},
					Err(i) => {
"""), (D, """						ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
						// Shouldn't be possible to fail, but we handle it gracefully.
						status.tally.remove(votes[i].1).ok_or(ArithmeticError::Underflow)?;
						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
""", """						ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
						Self::withdraw_vote(&mut status, votes[i].1, *delegations)?;
"""), helper("""	fn withdraw_vote(
		status: &mut ReferendumStatus<BlockNumberFor<T>, BoundedCallOf<T>, BalanceOf<T>>,
		vote: AccountVote<BalanceOf<T>>,
		delegations: Delegations<BalanceOf<T>>,
	) -> DispatchResult {
		status.tally.remove(vote).ok_or(ArithmeticError::Underflow)?;
		if let Some(approve) = vote.as_standard() {
			status.tally.reduce(approve, delegations);
		}
		Ok(())
	}
"""))
R("vote-early", (D, """			if let Voting::Direct { ref mut votes, delegations, .. } = voting {
				match votes.binary_search_by_key(&ref_index, |i| i.0) {""", """			let Voting::Direct { ref mut votes, delegations, .. } = voting else {
				return Err(Error::<T>::AlreadyDelegating.into());
			};
			{
				match votes.binary_search_by_key(&ref_index, |i| i.0) {"""), (D, """					status.tally.increase(approve, *delegations);
				}
				Ok(())
			} else {
				Err(Error::<T>::AlreadyDelegating.into())
			}
""", """					status.tally.increase(approve, *delegations);
				}
				Ok(())
			}
"""))
R("vote-order", (D, """		T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
		ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
""", """		ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
		T::Fungible::extend_freeze(&FreezeReason::Vote.into(), who, vote.balance())?;
"""))
R("unlock-helper", (D, """					let now = frame_system::Pallet::<T>::block_number();
					let lock_periods = conviction.lock_periods().into();
					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
""", """					prior.accumulate(Self::delegation_unlock_block(conviction), balance);
"""), n=2)
REFACS[-1]["edits"] += ((D, HOLDER, HOLDER + """	fn delegation_unlock_block(conviction: Conviction) -> BlockNumberFor<T> {
		let periods: BlockNumberFor<T> = conviction.lock_periods().into();
		let duration = T::VoteLockingPeriod::get().saturating_mul(periods);
		frame_system::Pallet::<T>::block_number().saturating_add(duration)
	}
"""),)
R("upstream-merge", (D, """				*delegations = delegations.saturating_add(amount);
				for &(ref_index, account_vote) in votes.iter() {
					if let AccountVote::Standard { vote, .. } = account_vote {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.increase(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32
""", """				*delegations = delegations.saturating_add(amount);
				Self::for_standard_votes(votes, |tally, aye| {
					tally.increase(aye, amount);
				})
"""), (D, """				*delegations = delegations.saturating_sub(amount);
				for &(ref_index, account_vote) in votes.iter() {
					if let AccountVote::Standard { vote, .. } = account_vote {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.reduce(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32
""", """				*delegations = delegations.saturating_sub(amount);
				Self::for_standard_votes(votes, |tally, aye| {
					tally.reduce(aye, amount);
				})
"""), helper("""	fn for_standard_votes<F: Fn(&mut Tally<BalanceOf<T>>, bool)>(
		votes: &frame_support::BoundedVec<(ReferendumIndex, AccountVote<BalanceOf<T>>), T::MaxVotes>,
		f: F,
	) -> u32 {
		for (ref_index, account_vote) in votes.iter() {
			let Some(aye) = account_vote.as_standard() else { continue };
			ReferendumInfoOf::<T>::mutate(*ref_index, |maybe_info| match maybe_info {
				Some(ReferendumInfo::Ongoing(status)) => f(&mut status.tally, aye),
				_ => {},
			});
		}
		votes.len() as u32
	}
"""))
R("upstream-getput", (D, """						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.increase(vote.aye, amount);
							}
						});
""", """						if let Ok(mut status) = Self::referendum_status(ref_index) {
							status.tally.increase(vote.aye, amount);
							ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));
						}
"""))
R("delegate-take", (D, """			let mut old = Voting::Delegating {
				balance,
				target: target.clone(),
				conviction,
				delegations: Default::default(),
				prior: Default::default(),
			};
			sp_std::mem::swap(&mut old, voting);
""", """			let new = Voting::Delegating {
				balance,
				target: target.clone(),
				conviction,
				delegations: Default::default(),
				prior: Default::default(),
			};
			let old = sp_std::mem::replace(voting, new);
"""))
R("delegate-event-inside", (D, """			T::Fungible::extend_freeze(&FreezeReason::Vote.into(), &who, balance)?;
			Ok(votes)
		})?;
		Self::deposit_event(Event::<T>::Delegated { who, target });
""", """			T::Fungible::extend_freeze(&FreezeReason::Vote.into(), &who, balance).map(|_| votes)
		})?;
		Self::deposit_event(Event::<T>::Delegated { who, target });
"""))
R("updatelock", (D, """		let lock_needed = VotingOf::<T>::mutate(who, |voting| {
			voting.rejig(frame_system::Pallet::<T>::block_number());
			voting.locked_balance()
		});
		if lock_needed.is_zero() {
			T::Fungible::thaw(&FreezeReason::Vote.into(), who)
		} else {
			T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, lock_needed)
		}
""", """		let now = frame_system::Pallet::<T>::block_number();
		let mut voting = VotingOf::<T>::get(who);
		voting.rejig(now);
		let lock_needed = voting.locked_balance();
		VotingOf::<T>::insert(who, voting);
		if lock_needed > Zero::zero() {
			return T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, lock_needed);
		}
		T::Fungible::thaw(&FreezeReason::Vote.into(), who)
"""))
R("launchnext-match", (D, """		if LastTabledWasExternal::<T>::take() {
			Self::launch_public(now).or_else(|_| Self::launch_external(now))
		} else {
			Self::launch_external(now).or_else(|_| Self::launch_public(now))
		}
		.map_err(|_| Error::<T>::NoneWaiting.into())
""", """		let launched = match LastTabledWasExternal::<T>::take() {
			true => Self::launch_public(now).is_ok() || Self::launch_external(now).is_ok(),
			false => Self::launch_external(now).is_ok() || Self::launch_public(now).is_ok(),
		};
		ensure!(launched, Error::<T>::NoneWaiting);
		Ok(())
"""))
R("launchexternal-early", (D, """		if let Some((proposal, threshold)) = <NextExternal<T>>::take() {
			LastTabledWasExternal::<T>::put(true);
			Self::deposit_event(Event::<T>::ExternalTabled);
			let ref_index = Self::inject_referendum(
				now.saturating_add(T::VotingPeriod::get()),
				proposal,
				threshold,
				T::EnactmentPeriod::get(),
			);
			Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(ref_index));
			Ok(())
		} else {
			return Err(Error::<T>::NoneWaiting.into());
		}
""", """		let (proposal, threshold) = <NextExternal<T>>::get().ok_or(Error::<T>::NoneWaiting)?;
		<NextExternal<T>>::kill();
		Self::deposit_event(Event::<T>::ExternalTabled);
		LastTabledWasExternal::<T>::put(true);
		let end = now.saturating_add(T::VotingPeriod::get());
		let ref_index = Self::inject_referendum(end, proposal, threshold, T::EnactmentPeriod::get());
		Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(ref_index));
		Ok(())
"""))
R("launchpublic-refundhelper", (D, """				// refund depositors
				for d in depositors.iter() {
					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
				}
""", """				Self::refund_depositors(&depositors, deposit)?;
"""), helper("""	fn refund_depositors(depositors: &[T::AccountId], deposit: BalanceOf<T>) -> DispatchResult {
		depositors.iter().try_for_each(|d| {
			T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort).map(|_| ())
		})
	}
"""))
R("launchpublic-cloneprops", (D, """			let (prop_index, proposal, _) = public_props.swap_remove(winner_index);
			<PublicProps<T>>::put(public_props);
""", """			let (prop_index, proposal, _proposer) = PublicProps::<T>::mutate(|props| props.swap_remove(winner_index));
"""))
R("bake-match", (D, """			let when = now.saturating_add(status.delay.max(One::one()));
			if T::Scheduler::schedule_named(
				(DEMOCRACY_ID, index).encode_into(),
				DispatchTime::At(when),
				None,
				63,
				frame_system::RawOrigin::Root.into(),
				status.proposal,
			)
			.is_err()
			{
				frame_support::print("LOGIC ERROR: bake_referendum/schedule_named failed");
			}
""", """			let delay = if status.delay < One::one() { One::one() } else { status.delay };
			let id = (DEMOCRACY_ID, index).encode_into();
			let origin = frame_system::RawOrigin::Root.into();
			let dispatch_time = DispatchTime::At(now.saturating_add(delay));
			match T::Scheduler::schedule_named(id, dispatch_time, None, 63, origin, status.proposal) {
				Ok(_) => {},
				Err(_) => frame_support::print("LOGIC ERROR: bake_referendum/schedule_named failed"),
			}
"""))
R("begin-rawloop", (D, """		<LowestUnbaked<T>>::mutate(|ref_index| {
			while *ref_index < last &&
				Self::referendum_info(*ref_index)
					.map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))
			{
				*ref_index += 1
			}
		});
""", """		let mut lowest = Self::lowest_unbaked();
		while lowest < last {
			if let Some(ReferendumInfo::Ongoing(_)) = Self::referendum_info(lowest) {
				break;
			}
			lowest += 1;
		}
		<LowestUnbaked<T>>::put(lowest);
"""))
R("begin-helper", (D, """		for (index, info) in Self::maturing_referenda_at_inner(now, next..last).into_iter() {
			let approved = Self::bake_referendum(now, index, info);
			ReferendumInfoOf::<T>::insert(index, ReferendumInfo::Finished { end: now, approved });
			weight = max_block_weight;
		}
""", """		let maturing = Self::maturing_referenda_at_inner(now, next..last);
		if !maturing.is_empty() {
			weight = max_block_weight;
		}
		maturing.into_iter().for_each(|(index, status)| {
			let approved = Self::bake_referendum(now, index, status);
			let info = ReferendumInfo::Finished { end: now, approved };
			ReferendumInfoOf::<T>::insert(index, info);
		});
"""))
R("mature-loop", (D, """		range
			.into_iter()
			.map(|i| (i, Self::referendum_info(i)))
			.filter_map(|(i, maybe_info)| match maybe_info {
				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),
				_ => None,
			})
			.filter(|(_, status)| status.end == n)
			.collect()
""", """		let mut maturing = Vec::new();
		for i in range {
			if let Ok(status) = Self::referendum_status(i) {
				if status.end == n {
					maturing.push((i, status));
				}
			}
		}
		maturing
"""))
R("mature-filtermap", (D, """			.map(|i| (i, Self::referendum_info(i)))
			.filter_map(|(i, maybe_info)| match maybe_info {
				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),
				_ => None,
			})
			.filter(|(_, status)| status.end == n)
""", """			.filter_map(|i| match Self::referendum_info(i) {
				Some(ReferendumInfo::Ongoing(status)) if status.end == n => Some((i, status)),
				_ => None,
			})
"""))
R("proposal-loop", (D, """		PublicProps::<T>::get()
			.into_iter()
			.find(|(prop_index, _, _)| prop_index == &index)
			.ok_or(Error::<T>::ProposalMissing)
""", """		for prop in PublicProps::<T>::get() {
			if prop.0 == index {
				return Ok(prop);
			}
		}
		Err(Error::<T>::ProposalMissing)
"""))
R("clearmeta", (D, """		if let Some(hash) = MetadataOf::<T>::take(&owner) {
			Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });
		}
""", """		let Some(hash) = MetadataOf::<T>::get(&owner) else { return };
		MetadataOf::<T>::remove(&owner);
		Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });
"""))
R("removevote-if", (D, """							let now = frame_system::Pallet::<T>::block_number();
							if now < unlock_at {
								ensure!(matches!(scope, UnvoteScope::Any), Error::<T>::NoPermission);
								prior.accumulate(unlock_at, balance)
							}
""", """							let still_locked = unlock_at > frame_system::Pallet::<T>::block_number();
							if still_locked && matches!(scope, UnvoteScope::OnlyExpired) {
								return Err(Error::<T>::NoPermission.into());
							}
							if still_locked {
								prior.accumulate(unlock_at, balance)
							}
"""))
R("unvotescope-eq", (D, "let scope = if target == who { UnvoteScope::Any } else { UnvoteScope::OnlyExpired };", "let scope = match target != who {\n\t\t\t\tfalse => UnvoteScope::Any,\n\t\t\t\ttrue => UnvoteScope::OnlyExpired,\n\t\t\t};"))
R("extorigin", (D, """				let _ = T::ExternalOrigin::ensure_origin(origin)?;
			},
			VoteThreshold::SuperMajorityAgainst => {
				let _ = T::ExternalDefaultOrigin::ensure_origin(origin)?;
			},
			VoteThreshold::SimpleMajority => {
				let _ = T::ExternalMajorityOrigin::ensure_origin(origin)?;
			},
		};
		Ok(())
""", """				T::ExternalOrigin::ensure_origin(origin).map(|_| ())
			},
			VoteThreshold::SuperMajorityAgainst => {
				T::ExternalDefaultOrigin::ensure_origin(origin).map(|_| ())
			},
			VoteThreshold::SimpleMajority => {
				T::ExternalMajorityOrigin::ensure_origin(origin).map(|_| ())
			},
		}
"""))
R("internalcancel-order", (D, """		Self::deposit_event(Event::<T>::Cancelled { ref_index });
		ReferendumInfoOf::<T>::remove(ref_index);
""", """		ReferendumInfoOf::<T>::remove(ref_index);
		Self::deposit_event(Event::<T>::Cancelled { ref_index });
"""))
R("inject-inline", (D, """		let status = ReferendumStatus { end, proposal, threshold, delay, tally: Default::default() };
		let item = ReferendumInfo::Ongoing(status);
		<ReferendumInfoOf<T>>::insert(ref_index, item);
""", """		<ReferendumInfoOf<T>>::insert(
			ref_index,
			ReferendumInfo::Ongoing(ReferendumStatus { end, proposal, threshold, delay, tally: Tally::default() }),
		);
"""))
R("decode-slice", (D, """	match parity_scale_codec::Compact::<u32>::decode(&mut input) {
		Ok(c) => Some(c.0),
		Err(_) => {
			sp_runtime::print("Failed to decode compact u32 at:");
			sp_runtime::print(key);
			None
		},
	}
""", """	let decoded = parity_scale_codec::Compact::<u32>::decode(&mut input);
	if decoded.is_err() {
		sp_runtime::print("Failed to decode compact u32 at:");
		sp_runtime::print(key);
	}
	decoded.ok().map(|c| c.0)
"""))

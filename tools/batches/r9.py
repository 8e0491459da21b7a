exec(open("tools/batches/r7.py").read().split("# weights")[0])
# idioms
R("i9-labelled", (D, "			let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {\n				Some(origin)\n			} else if let Err(origin) = T::FastTrackOrigin::try_origin(origin) {\n				Some(origin)\n			} else {\n				None\n			};\n",
 "			let maybe_ensure_instant = 'track: {\n				if voting_period < T::FastTrackVotingPeriod::get() {\n					break 'track Some(origin);\n				}\n				match T::FastTrackOrigin::try_origin(origin) {\n					Ok(_) => break 'track None,\n					Err(origin) => Some(origin),\n				}\n			};\n"))
R("i9-nested-fn", (D, "	fn update_lock(who: &T::AccountId) -> DispatchResult {\n		let lock_needed = VotingOf::<T>::mutate(who, |voting| {\n			voting.rejig(frame_system::Pallet::<T>::block_number());\n			voting.locked_balance()\n		});",
 "	fn update_lock(who: &T::AccountId) -> DispatchResult {\n		fn needed<T: Config>(voting: &mut VotingFor<T>, now: BlockNumberFor<T>) -> BalanceOf<T> {\n			voting.rejig(now);\n			voting.locked_balance()\n		}\n		type VotingFor<T> = Voting<BalanceOf<T>, <T as frame_system::Config>::AccountId, BlockNumberFor<T>, <T as Config>::MaxVotes>;\n		let now = frame_system::Pallet::<T>::block_number();\n		let lock_needed = VotingOf::<T>::mutate(who, |voting| needed::<T>(voting, now));"))
R("i9-replace", (D, "			let mut old = Voting::default();\n			sp_std::mem::swap(&mut old, voting);\n			match old {", "			match sp_std::mem::take(voting) {"))
R("i9-replace2", (D, "			let mut old = Voting::Delegating {\n				balance,\n				target: target.clone(),\n				conviction,\n				delegations: Default::default(),\n				prior: Default::default(),\n			};\n			sp_std::mem::swap(&mut old, voting);\n			match old {",
 "			let new = Voting::Delegating {\n				balance,\n				target: target.clone(),\n				conviction,\n				delegations: Default::default(),\n				prior: Default::default(),\n			};\n			match sp_std::mem::replace(voting, new) {"))
R("i9-then", (D, "			if let Some((until, _)) = <Blacklist<T>>::get(proposal.hash()) {\n				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);\n			}\n			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityApprove));",
 "			let listed = <Blacklist<T>>::get(proposal.hash())\n				.map(|(until, _)| <frame_system::Pallet<T>>::block_number() < until)\n				.unwrap_or(false);\n			ensure!(!listed, Error::<T>::ProposalBlacklisted);\n			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityApprove));"))
R("i9-isnoneor", (D, "			if let Some((until, _)) = <Blacklist<T>>::get(proposal.hash()) {\n				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);\n			}\n			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityApprove));",
 "			let now = <frame_system::Pallet<T>>::block_number();\n			ensure!(<Blacklist<T>>::get(proposal.hash()).is_none_or(|(until, _)| until <= now), Error::<T>::ProposalBlacklisted);\n			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityApprove));"))
R("i9-transfer-andthen", (D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			MetadataOf::<T>::insert(&new_owner, hash);\n			Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner, owner: new_owner, hash });\n		}",
 "		MetadataOf::<T>::take(&owner).into_iter().for_each(|hash| {\n			MetadataOf::<T>::insert(&new_owner, hash);\n			Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner.clone(), owner: new_owner.clone(), hash });\n		});"))
R("i9-transfer-letelse", (D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			MetadataOf::<T>::insert(&new_owner, hash);\n			Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner, owner: new_owner, hash });\n		}",
 "		let Some(hash) = MetadataOf::<T>::get(&owner) else { return };\n		MetadataOf::<T>::remove(&owner);\n		MetadataOf::<T>::insert(&new_owner, hash);\n		Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner, owner: new_owner, hash });"))
R("i9-transfer-swap", (D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			MetadataOf::<T>::insert(&new_owner, hash);\n			Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner, owner: new_owner, hash });\n		}",
 "		MetadataOf::<T>::mutate_exists(&owner, |entry| {\n			if let Some(hash) = entry.take() {\n				MetadataOf::<T>::insert(&new_owner, hash);\n				Self::deposit_event(Event::<T>::MetadataTransferred { prev_owner: owner.clone(), owner: new_owner.clone(), hash });\n			}\n		});"))
R("i9-macro",
  (D, "			ensure!(!<NextExternal<T>>::exists(), Error::<T>::DuplicateProposal);", "			macro_rules! must {\n				($c:expr, $e:ident) => {\n					if !$c {\n						return Err(Error::<T>::$e.into());\n					}\n				};\n			}\n			must!(!<NextExternal<T>>::exists(), DuplicateProposal);"))
R("i9-shared-generic", (D, "				for &(ref_index, account_vote) in votes.iter() {\n					if let AccountVote::Standard { vote, .. } = account_vote {\n						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {\n							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {\n								status.tally.increase(vote.aye, amount);\n							}\n						});\n					}\n				}",
  "				Self::each_standard(votes, |tally, aye| tally.increase(aye, amount));"),
 (D, "				for &(ref_index, account_vote) in votes.iter() {\n					if let AccountVote::Standard { vote, .. } = account_vote {\n						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {\n							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {\n								status.tally.reduce(vote.aye, amount);\n							}\n						});\n					}\n				}",
  "				Self::each_standard(votes, |tally, aye| tally.reduce(aye, amount));"),
 helper("	fn each_standard(votes: &[(ReferendumIndex, AccountVote<BalanceOf<T>>)], mut f: impl FnMut(&mut Tally<BalanceOf<T>>, bool) -> Option<()>) {\n		for (ref_index, account_vote) in votes {\n			if let AccountVote::Standard { vote, .. } = account_vote {\n				ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {\n					if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {\n						let _ = f(&mut status.tally, vote.aye);\n					}\n				});\n			}\n		}\n	}\n"))
R("i9-direction-enum", (D, "Self::reduce_upstream_delegation(&target, conviction.votes(balance));\n					let now = frame_system::Pallet::<T>::block_number();\n					let lock_periods = conviction.lock_periods().into();\n					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));\n					prior.accumulate(unlock_block, balance);\n					voting.set_common(delegations, prior);\n				},",
  "Self::reduce_upstream_delegation(&target, conviction.votes(balance));\n					prior.accumulate(Self::released_at(conviction), balance);\n					voting.set_common(delegations, prior);\n				},"),
 helper("	fn released_at(conviction: Conviction) -> BlockNumberFor<T> {\n		let periods: BlockNumberFor<T> = conviction.lock_periods().into();\n		frame_system::Pallet::<T>::block_number().saturating_add(periods.saturating_mul(T::VoteLockingPeriod::get()))\n	}\n"))
R("i9-newtype", (D, "	fn inject_referendum(\n		end: BlockNumberFor<T>,\n		proposal: BoundedCallOf<T>,\n		threshold: VoteThreshold,\n		delay: BlockNumberFor<T>,\n	) -> ReferendumIndex {\n		let ref_index = Self::referendum_count();\n		ReferendumCount::<T>::put(ref_index + 1);\n		let status = ReferendumStatus { end, proposal, threshold, delay, tally: Default::default() };\n		let item = ReferendumInfo::Ongoing(status);\n		<ReferendumInfoOf<T>>::insert(ref_index, item);",
 "	fn inject_referendum(\n		end: BlockNumberFor<T>,\n		proposal: BoundedCallOf<T>,\n		threshold: VoteThreshold,\n		delay: BlockNumberFor<T>,\n	) -> ReferendumIndex {\n		let ref_index = ReferendumCount::<T>::mutate(|count| {\n			let this = *count;\n			*count += 1;\n			this\n		});\n		ReferendumInfoOf::<T>::set(ref_index, Some(ReferendumInfo::Ongoing(ReferendumStatus { end, proposal, threshold, delay, tally: Default::default() })));"))
R("i9-find-tuple", (D, "		PublicProps::<T>::get()\n			.into_iter()\n			.find(|(prop_index, _, _)| prop_index == &index)\n			.ok_or(Error::<T>::ProposalMissing)", "		for prop in PublicProps::<T>::get() {\n			if prop.0 == index {\n				return Ok(prop);\n			}\n		}\n		Err(Error::<T>::ProposalMissing)"))
R("i9-find-pos", (D, "		PublicProps::<T>::get()\n			.into_iter()\n			.find(|(prop_index, _, _)| prop_index == &index)\n			.ok_or(Error::<T>::ProposalMissing)", "		let mut props = PublicProps::<T>::get().into_inner();\n		match props.iter().position(|p| p.0 == index) {\n			Some(at) => Ok(props.swap_remove(at)),\n			None => Err(Error::<T>::ProposalMissing),\n		}"))
R("i9-backing-fold", (D, "		Self::deposit_of(proposal).map(|(l, d)| d.saturating_mul((l.len() as u32).into()))", "		let (backers, each) = Self::deposit_of(proposal)?;\n		let count: u32 = backers.len() as u32;\n		Some(BalanceOf::<T>::from(count).saturating_mul(each))"))
R("i9-second-option", (D, "			ensure!(seconds < T::MaxDeposits::get(), Error::<T>::TooMany);\n			let mut deposit = Self::deposit_of(proposal).ok_or(Error::<T>::ProposalMissing)?;\n", "			if seconds >= T::MaxDeposits::get() {\n				return Err(Error::<T>::TooMany.into());\n			}\n			let Some(mut deposit) = Self::deposit_of(proposal) else {\n				return Err(Error::<T>::ProposalMissing.into());\n			};\n"))
R("i9-mature-fold", (D, "		range\n			.into_iter()\n			.map(|i| (i, Self::referendum_info(i)))\n			.filter_map(|(i, maybe_info)| match maybe_info {\n				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),\n				_ => None,\n			})\n			.filter(|(_, status)| status.end == n)\n			.collect()",
 "		range.fold(Vec::new(), |mut due, i| {\n			if let Some(ReferendumInfo::Ongoing(status)) = Self::referendum_info(i) {\n				if status.end == n {\n					due.push((i, status));\n				}\n			}\n			due\n		})"))
R("i9-mature-flatmap", (D, "			.map(|i| (i, Self::referendum_info(i)))\n			.filter_map(|(i, maybe_info)| match maybe_info {\n				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),\n				_ => None,\n			})\n			.filter(|(_, status)| status.end == n)\n			.collect()",
 "			.filter_map(|i| match Self::referendum_info(i)? {\n				ReferendumInfo::Ongoing(status) if status.end == n => Some((i, status)),\n				_ => None,\n			})\n			.collect()"))
R("i9-bake-iserr", (D, "			if T::Scheduler::schedule_named(\n				(DEMOCRACY_ID, index).encode_into(),\n				DispatchTime::At(when),\n				None,\n				63,\n				frame_system::RawOrigin::Root.into(),\n				status.proposal,\n			)\n			.is_err()\n			{\n				frame_support::print(\"LOGIC ERROR: bake_referendum/schedule_named failed\");\n			}",
 "			let name = (DEMOCRACY_ID, index).encode_into();\n			let scheduled = T::Scheduler::schedule_named(\n				name,\n				DispatchTime::At(when),\n				None,\n				63,\n				frame_system::RawOrigin::Root.into(),\n				status.proposal,\n			);\n			if let Err(_e) = scheduled {\n				frame_support::print(\"LOGIC ERROR: bake_referendum/schedule_named failed\");\n			}"))
R("i9-origin-map", (D, "		match threshold {\n			VoteThreshold::SuperMajorityApprove => {\n				let _ = T::ExternalOrigin::ensure_origin(origin)?;\n			},\n			VoteThreshold::SuperMajorityAgainst => {\n				let _ = T::ExternalDefaultOrigin::ensure_origin(origin)?;\n			},\n			VoteThreshold::SimpleMajority => {\n				let _ = T::ExternalMajorityOrigin::ensure_origin(origin)?;\n			},\n		};\n		Ok(())",
 "		use VoteThreshold::*;\n		match threshold {\n			SuperMajorityApprove => T::ExternalOrigin::ensure_origin(origin).map(|_| ()),\n			SuperMajorityAgainst => T::ExternalDefaultOrigin::ensure_origin(origin).map(drop),\n			SimpleMajority => T::ExternalMajorityOrigin::ensure_origin(origin).map(|_| ()),\n		}"))
R("i9-setmeta-flag", (D, "					let is_root = ensure_signed_or_root(origin)?.is_none();\n					ensure!(is_root || maybe_hash.is_none(), Error::<T>::NoPermission);\n					ensure!(is_root || Self::referendum_status(index).is_err(), Error::<T>::NoPermission);",
 "					if let Some(_who) = ensure_signed_or_root(origin)? {\n						let clearing = maybe_hash.is_none();\n						let ongoing = Self::referendum_status(index).is_ok();\n						ensure!(clearing && !ongoing, Error::<T>::NoPermission);\n					}"))
R("i9-e-prime-btree", (E, "						if new_members_ids_sorted.binary_search(c).is_err() &&\n							new_runners_up_ids_sorted.binary_search(c).is_err()\n						{", "						let seated = new_members_ids_sorted.iter().chain(new_runners_up_ids_sorted.iter()).any(|x| x == c);\n						if !seated {"))
R("i9-e-members-idx", (E, "		Self::members().into_iter().map(|m| m.who).collect::<Vec<T::AccountId>>()", "		let mut ids = Vec::new();\n		for m in Self::members() {\n			ids.push(m.who);\n		}\n		ids"))
R("i9-e-implicit-extend", (E, "		Self::members()\n			.into_iter()\n			.map(|m| (m.who, m.deposit))\n			.chain(Self::runners_up().into_iter().map(|r| (r.who, r.deposit)))\n			.collect::<Vec<_>>()", "		let mut all = Self::members();\n		all.extend(Self::runners_up());\n		all.into_iter().map(|SeatHolder { who, deposit, .. }| (who, deposit)).collect()"))
R("i9-e-vote-match", (E, "			let voter = Voting::<T>::get(&who);\n			if current_block < voter.lockup_till {\n				ensure!(value >= voter.stake, Error::<T>::LowBalance);\n			} else {\n				ensure!(value > T::Currency::minimum_balance(), Error::<T>::LowBalance);\n			};",
 "			let Voter { stake, lockup_till, .. } = Voting::<T>::get(&who);\n			let enough = match current_block < lockup_till {\n				true => value >= stake,\n				false => value > T::Currency::minimum_balance(),\n			};\n			ensure!(enough, Error::<T>::LowBalance);"))
R("i9-e-vote-allowed", (E, "			let candidates_count = <Candidates<T>>::decode_len().unwrap_or(0);\n			let members_count = <Members<T>>::decode_len().unwrap_or(0);\n			let runners_up_count = <RunnersUp<T>>::decode_len().unwrap_or(0);\n", "			let [candidates_count, members_count, runners_up_count] = [\n				<Candidates<T>>::decode_len().unwrap_or_default(),\n				<Members<T>>::decode_len().unwrap_or_default(),\n				<RunnersUp<T>>::decode_len().unwrap_or_default(),\n			];\n"))
R("i9-e-defunct-not-any", (E, "		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())", "		let serves = |v: &T::AccountId| Self::is_member(v) || Self::is_runner_up(v) || Self::is_candidate(v).is_ok();\n		!votes.iter().any(serves)"))
R("i9-e-clean-loop", (E, "			<Voting<T>>::iter()\n				.take(num_voters as usize)\n				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))\n				.take(num_defunct as usize)\n				.try_for_each(|(dv, _)| Self::do_remove_voter(&dv))?;\n\n			Ok(())", "			let defunct = <Voting<T>>::iter()\n				.take(num_voters as usize)\n				.filter_map(|(voter, x)| Self::is_defunct_voter(&x.votes).then_some(voter))\n				.take(num_defunct as usize)\n				.collect::<Vec<_>>();\n			for voter in &defunct {\n				Self::do_remove_voter(voter)?;\n			}\n			Ok(())"))
R("i9-e-stake-branch", (E, "			let locked_stake = value.min(T::Currency::total_balance(&who));\n", "			let balance = T::Currency::total_balance(&who);\n			let locked_stake = if value > balance { balance } else { value };\n"))
R("i9-e-submit-match", (E, "			let index = Self::is_candidate(&who).err().ok_or(Error::<T>::DuplicatedCandidate)?;\n", "			let index = match Self::is_candidate(&who) {\n				Ok(()) => return Err(Error::<T>::DuplicatedCandidate.into()),\n				Err(free) => free,\n			};\n"))
R("i9-e-splitpoint", (E, "					let split_point = desired_seats.min(new_set_with_stake.len());\n", "					let split_point = if new_set_with_stake.len() < desired_seats { new_set_with_stake.len() } else { desired_seats };\n"))
R("i9-e-replace-orelse", (E, "		if let Some(current_prime) = maybe_current_prime {\n			if &current_prime != who {\n				T::ChangeMembers::set_prime(Some(current_prime));\n			}\n		}", "		match maybe_current_prime {\n			Some(prime) if prime != *who => T::ChangeMembers::set_prime(Some(prime)),\n			_ => {},\n		}"))
R("i9-o-fold", (O, "			<Vesting<T>>::set(account, Some(new_vesting_schedules));", "			<Vesting<T>>::insert(account, new_vesting_schedules);"))
R("i9-o-ifdur", (O, "				if duration == 0 {\n					continue;\n				}\n				let per_block", "				if duration.is_zero() {\n					continue;\n				}\n				let per_block"), (O, "use sp_runtime::{traits::BlockNumberProvider, BoundedVec};", "use sp_runtime::{traits::{BlockNumberProvider, Zero}, BoundedVec};"))

exec(open("tools/batches/r7.py").read().split("# weights")[0])
# elections, restructured more boldly
SELECT = "					let mut prime_votes =\n						new_members_sorted_by_id.iter()"
R("x15-vote-window", (E, """			let voter = Voting::<T>::get(&who);
			if current_block < voter.lockup_till {
				ensure!(value >= voter.stake, Error::<T>::LowBalance);
			} else {
				ensure!(value > T::Currency::minimum_balance(), Error::<T>::LowBalance);
			};
""", """			let Voter { stake, lockup_till, .. } = Voting::<T>::get(&who);
			let enough = match lockup_till > current_block {
				true => !(value < stake),
				false => value > T::Currency::minimum_balance(),
			};
			ensure!(enough, Error::<T>::LowBalance);
"""))
R("x15-vote-insert", (E, """			T::Currency::set_freeze(&FreezeReason::Voting.into(), &who, locked_stake)?;
			Voting::<T>::insert(
				&who,
				Voter { votes, stake: locked_stake, lockup_till: current_block + T::VotingLockPeriod::get() },
			);
""", """			Voting::<T>::mutate(&who, |v| {
				v.votes = votes;
				v.stake = locked_stake;
				v.lockup_till = T::VotingLockPeriod::get() + current_block;
			});
			T::Currency::set_freeze(&FreezeReason::Voting.into(), &who, locked_stake)?;
"""))
R("x15-remove-checks", (E, """			ensure!(Self::is_voter(&who), Error::<T>::MustBeVoter);
			ensure!(Self::can_unlock(&who), Error::<T>::VotingPeriodNotEnded);
			Self::do_remove_voter(&who)?;
			Ok(())
""", """			match (Self::is_voter(&who), Self::can_unlock(&who)) {
				(false, _) => Err(Error::<T>::MustBeVoter.into()),
				(true, false) => Err(Error::<T>::VotingPeriodNotEnded.into()),
				(true, true) => Self::do_remove_voter(&who),
			}
"""))
R("x15-remove-try-get", (E, """			ensure!(Self::is_voter(&who), Error::<T>::MustBeVoter);
			ensure!(Self::can_unlock(&who), Error::<T>::VotingPeriodNotEnded);
""", """			let voter = Voting::<T>::try_get(&who).map_err(|_| Error::<T>::MustBeVoter)?;
			ensure!(frame_system::Pallet::<T>::block_number() >= voter.lockup_till, Error::<T>::VotingPeriodNotEnded);
"""))
R("x15-submit-one-read", (E, """			let actual_count = <Candidates<T>>::decode_len().unwrap_or(0) as u32;
			ensure!(actual_count <= candidate_count""", """			let mut standing = Candidates::<T>::get();
			let actual_count = standing.len() as u32;
			ensure!(actual_count <= candidate_count"""), (E, """			let index = Self::is_candidate(&who).err().ok_or(Error::<T>::DuplicatedCandidate)?;
""", """			let index = match standing.binary_search_by(|(c, _)| c.cmp(&who)) {
				Ok(_) => return Err(Error::<T>::DuplicatedCandidate.into()),
				Err(index) => index,
			};
"""), (E, """			<Candidates<T>>::mutate(|c| c.insert(index, (who, T::CandidacyBond::get())));
			Ok(())
""", """			standing.insert(index, (who, T::CandidacyBond::get()));
			Candidates::<T>::put(standing);
			Ok(())
"""))
R("x15-submit-bond", (E, """			T::Currency::hold(&HoldReason::Candidacy.into(), &who, T::CandidacyBond::get())
				.map_err(|_| Error::<T>::InsufficientCandidateFunds)?;

			<Candidates<T>>::mutate(|c| c.insert(index, (who, T::CandidacyBond::get())));
""", """			let bond = T::CandidacyBond::get();
			if T::Currency::hold(&HoldReason::Candidacy.into(), &who, bond).is_err() {
				return Err(Error::<T>::InsufficientCandidateFunds.into());
			}

			<Candidates<T>>::mutate(|c| c.insert(index, (who, bond)));
"""))
R("x15-submit-roles", (E, """			ensure!(!Self::is_member(&who), Error::<T>::MemberSubmit);
			ensure!(!Self::is_runner_up(&who), Error::<T>::RunnerUpSubmit);
""", """			if Self::members_ids().contains(&who) {
				return Err(Error::<T>::MemberSubmit.into());
			}
			if Self::runners_up().iter().map(|r| &r.who).any(|r| *r == who) {
				return Err(Error::<T>::RunnerUpSubmit.into());
			}
"""))
R("x15-renounce-release", (E, """						// can't fail anymore.
						let SeatHolder { deposit, .. } = runners_up.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
						Self::deposit_event(Event::Renounced { candidate: who });
						Ok(())
""", """						// can't fail anymore.
						Self::release_bond(who, runners_up.remove(index).deposit)
"""), (E, """						let (_, deposit) = candidates.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
						Self::deposit_event(Event::Renounced { candidate: who });
						Ok(())
""", """						let (_, deposit) = candidates.remove(index);
						Self::release_bond(who, deposit)
"""), ehelper("""	fn release_bond(who: T::AccountId, deposit: BalanceOf<T>) -> Result<(), Error<T>> {
		T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
			.map_err(|_| Error::<T>::UnableToReleaseBond)?;
		Self::deposit_event(Event::Renounced { candidate: who });
		Ok(())
	}
"""))
R("x15-renounce-take", (E, """					<Candidates<T>>::try_mutate::<_, Error<T>, _>(|candidates| {
						ensure!(count >= candidates.len() as u32, Error::<T>::InvalidWitnessData);
						let index = candidates
							.binary_search_by(|(c, _)| c.cmp(&who))
							.map_err(|_| Error::<T>::InvalidRenouncing)?;
						let (_, deposit) = candidates.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
						Self::deposit_event(Event::Renounced { candidate: who });
						Ok(())
					})?;
""", """					let mut candidates = Self::candidates();
					ensure!(candidates.len() as u32 <= count, Error::<T>::InvalidWitnessData);
					let Ok(index) = candidates.binary_search_by_key(&&who, |(c, _)| c) else {
						return Err(Error::<T>::InvalidRenouncing.into());
					};
					let deposit = candidates.remove(index).1;
					Candidates::<T>::put(candidates);
					T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
						.map_err(|_| Error::<T>::UnableToReleaseBond)?;
					Self::deposit_event(Event::Renounced { candidate: who });
"""))
R("x15-kick-order", (E, """			let _ = Self::remove_and_replace_member(&who, slash_bond)?;
			Self::deposit_event(Event::MemberKicked { member: who });

			if rerun_election {
				Self::do_phragmen();
			}
""", """			Self::remove_and_replace_member(&who, slash_bond).map(|_replaced| {
				Self::deposit_event(Event::MemberKicked { member: who });
			})?;
			match rerun_election {
				true => {
					let _weight = Self::do_phragmen();
				},
				false => {},
			}
"""))
R("x15-clean-loop", (E, """			<Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize)
				.try_for_each(|(dv, _)| Self::do_remove_voter(&dv))?;

			Ok(())
""", """			for (dv, _) in <Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize)
			{
				Self::do_remove_voter(&dv)?;
			}
			Ok(())
"""))
R("x15-clean-keys", (E, """			<Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize)
				.try_for_each(|(dv, _)| Self::do_remove_voter(&dv))?;

			Ok(())
""", """			let defunct: Vec<T::AccountId> = <Voting<T>>::iter()
				.take(num_voters as usize)
				.filter_map(|(who, x)| Self::is_defunct_voter(&x.votes).then_some(who))
				.take(num_defunct as usize)
				.collect();
			defunct.iter().try_for_each(Self::do_remove_voter)
"""))
R("x15-replace-helper", (E, """			// slash or unreserve
			if slash {
				let (imbalance, _remainder) = T::Currency::slash(&HoldReason::Candidacy.into(), who, removed.deposit);
				debug_assert!(_remainder.is_zero());
				T::LoserCandidate::on_unbalanced(imbalance);
				Self::deposit_event(Event::SeatHolderSlashed { seat_holder: who.clone(), amount: removed.deposit });
			} else {
				T::Currency::release(&HoldReason::Candidacy.into(), who, removed.deposit, Precision::Exact)
					.map_err(|_| Error::<T>::UnableToReleaseBond)?;
			}
""", """			Self::settle_bond(who, removed.deposit, slash)?;
"""), ehelper("""	fn settle_bond(who: &T::AccountId, amount: BalanceOf<T>, slash: bool) -> Result<(), Error<T>> {
		let reason = HoldReason::Candidacy.into();
		if !slash {
			return match T::Currency::release(&reason, who, amount, Precision::Exact) {
				Ok(_) => Ok(()),
				Err(_) => Err(Error::<T>::UnableToReleaseBond),
			};
		}
		let (imbalance, _remainder) = T::Currency::slash(&reason, who, amount);
		debug_assert!(_remainder.is_zero());
		T::LoserCandidate::on_unbalanced(imbalance);
		Self::deposit_event(Event::SeatHolderSlashed { seat_holder: who.clone(), amount });
		Ok(())
	}
"""))
R("x15-replace-incoming", (E, """		let outgoing = &[who.clone()];
		let maybe_current_prime = T::ChangeMembers::get_prime();
		let return_value = match maybe_replacement {
			// member ids are already sorted, other two elements have one item.
			Some(incoming) => {
				T::ChangeMembers::change_members_sorted(&[incoming.who], outgoing, &remaining_member_ids_sorted[..]);
				true
			},
			None => {
				T::ChangeMembers::change_members_sorted(&[], outgoing, &remaining_member_ids_sorted[..]);
				false
			},
		};
""", """		let maybe_current_prime = T::ChangeMembers::get_prime();
		let return_value = maybe_replacement.is_some();
		let incoming: Vec<T::AccountId> = maybe_replacement.into_iter().map(|s| s.who).collect();
		T::ChangeMembers::change_members_sorted(&incoming, &[who.clone()], &remaining_member_ids_sorted);
"""))
R("x15-replace-prime", (E, """		if let Some(current_prime) = maybe_current_prime {
			if &current_prime != who {
				T::ChangeMembers::set_prime(Some(current_prime));
			}
		}
""", """		let kept = maybe_current_prime.filter(|prime| prime != who);
		if kept.is_some() {
			T::ChangeMembers::set_prime(kept);
		}
"""))
R("x15-replace-pop", (E, """			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {""", """			let mut waiting = RunnersUp::<T>::get();
			let best = waiting.pop();
			RunnersUp::<T>::put(waiting);
			let maybe_next_best = best.map(|next_best| {"""))
R("x15-replace-match", (E, """				if let Err(index) = members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					members.insert(index, next_best.clone());
				} else {
					// overlap. This can never happen. If so, it seems like our intended replacement
					// is already a member, so not much more to do.
					log::error!(target: LOG_TARGET, "A member seems to also be a runner-up.");
				}
				next_best
""", """				match members.binary_search_by_key(&&next_best.who, |m| &m.who) {
					Ok(_) => log::error!(target: LOG_TARGET, "A member seems to also be a runner-up."),
					Err(index) => members.insert(index, next_best.clone()),
				}
				next_best
"""))
R("x15-defunct-any", (E, """		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())
""", """		!votes.iter().any(|v| Self::is_candidate(v).is_ok() || Self::is_runner_up(v) || Self::is_member(v))
"""))
R("x15-implicit-push", (E, """		Self::members()
			.into_iter()
			.map(|m| (m.who, m.deposit))
			.chain(Self::runners_up().into_iter().map(|r| (r.who, r.deposit)))
			.collect::<Vec<_>>()
""", """		let mut seats = Members::<T>::get();
		seats.extend(RunnersUp::<T>::get());
		seats.into_iter().map(|SeatHolder { who, deposit, .. }| (who, deposit)).collect()
"""))
R("x15-phragmen-pool", (E, """		let mut candidates_and_deposit = Self::candidates();
		// add all the previous members and runners-up as candidates as well.
		candidates_and_deposit.append(&mut Self::implicit_candidates_with_deposit());

		if candidates_and_deposit.len().is_zero() {
""", """		let candidates_and_deposit: Vec<(T::AccountId, BalanceOf<T>)> =
			Candidates::<T>::get().into_iter().chain(Self::implicit_candidates_with_deposit()).collect();

		if candidates_and_deposit.is_empty() {
"""))
R("x15-phragmen-ids", (E, """		let candidate_ids = candidates_and_deposit.iter().map(|(x, _)| x).cloned().collect::<Vec<_>>();
""", """		let mut candidate_ids: Vec<T::AccountId> = Vec::with_capacity(candidates_and_deposit.len());
		for (id, _) in &candidates_and_deposit {
			candidate_ids.push(id.clone());
		}
"""))
R("x15-phragmen-edges", (E, """		let mut num_edges: u32 = 0;

""", ""), (E, """			.map(|(voter, stake, votes)| {
				num_edges = num_edges.saturating_add(votes.len() as u32);
				(voter, to_votes(stake), votes)
			})
""", """			.map(|(voter, stake, votes)| (voter, to_votes(stake), votes))
"""), (E, """		let weight_edges = num_edges;
""", """		let weight_edges = voters_and_stakes.iter().fold(0u32, |n, (_, _, votes)| n.saturating_add(votes.len() as u32));
"""))
R("x15-phragmen-helper-term", (E, """					<Candidates<T>>::kill();

					Self::deposit_event(Event::NewTerm { new_members: new_members_sorted_by_id });
					<ElectionRounds<T>>::mutate(|v| *v += 1);
""", """					Self::close_round(new_members_sorted_by_id);
"""), ehelper("""	fn close_round(new_members: Vec<(T::AccountId, BalanceOf<T>)>) {
		ElectionRounds::<T>::put(ElectionRounds::<T>::get() + 1);
		Candidates::<T>::kill();
		Self::deposit_event(Event::NewTerm { new_members });
	}
"""))
R("x15-phragmen-prime-fn", (E, """					let mut prime_votes =
						new_members_sorted_by_id.iter().map(|c| (&c.0, BalanceOf::<T>::zero())).collect::<Vec<_>>();
					for (_, stake, votes) in voters_and_stakes.into_iter() {
						for (vote_multiplier, who) in votes.iter().enumerate().map(|(vote_position, who)| {
							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)
						}) {
							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {
								prime_votes[i].1 =
									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));
							}
						}
					}
""", """					let mut prime_votes: Vec<(&T::AccountId, BalanceOf<T>)> =
						new_members_sorted_by_id.iter().map(|(id, _)| (id, Zero::zero())).collect();
					for (_, stake, votes) in voters_and_stakes.iter() {
						for (position, who) in votes.iter().enumerate() {
							let Ok(i) = prime_votes.binary_search_by(|(id, _)| (*id).cmp(who)) else { continue };
							let multiplier = (T::MaxVotesPerVoter::get() as usize - position) as u32;
							let (_, score) = &mut prime_votes[i];
							*score = score.saturating_add(stake.saturating_mul(multiplier.into()));
						}
					}
"""))
R("x15-phragmen-losers", (E, """					candidates_and_deposit.iter().for_each(|(c, d)| {
						if new_members_ids_sorted.binary_search(c).is_err() &&
							new_runners_up_ids_sorted.binary_search(c).is_err()
						{
							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
						}
					});
""", """					for (c, d) in candidates_and_deposit.iter() {
						let keeps_seat = new_members_ids_sorted.binary_search(c).is_ok() ||
							new_runners_up_ids_sorted.binary_search(c).is_ok();
						if keeps_seat {
							continue;
						}
						let imbalance = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d).0;
						T::LoserCandidate::on_unbalanced(imbalance);
						Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
					}
"""))
R("x15-phragmen-losers-contains", (E, """						if new_members_ids_sorted.binary_search(c).is_err() &&
							new_runners_up_ids_sorted.binary_search(c).is_err()
						{
""", """						if !new_members_ids_sorted.contains(c) && !new_runners_up_ids_sorted.contains(c) {
"""))
R("x15-phragmen-deposit", (E, """						candidates_and_deposit
							.iter()
							.find_map(|(c, d)| if c == x { Some(*d) } else { None })
							.defensive_unwrap_or_default()
""", """						let found = candidates_and_deposit.iter().find(|(c, _)| c == x);
						found.map(|(_, d)| *d).defensive_unwrap_or_default()
"""))
R("x15-phragmen-split", (E, """					let split_point = desired_seats.min(new_set_with_stake.len());
					let mut new_members_sorted_by_id = new_set_with_stake.drain(..split_point).collect::<Vec<_>>();
					new_members_sorted_by_id.sort_by(|i, j| i.0.cmp(&j.0));

					// all the rest will be runners-up
					new_set_with_stake.reverse();
					let new_runners_up_sorted_by_rank = new_set_with_stake;
""", """					let split_point = new_set_with_stake.len().min(desired_seats);
					let mut rest = new_set_with_stake.split_off(split_point);
					let mut new_members_sorted_by_id = new_set_with_stake;
					new_members_sorted_by_id.sort_by_key(|(id, _)| id.clone());

					// all the rest will be runners-up
					rest.reverse();
					let new_runners_up_sorted_by_rank = rest;
"""))
R("x15-phragmen-backed", (E, """					let mut new_set_with_stake = winners
						.into_iter()
						.filter_map(|(m, b)| if b.is_zero() { None } else { Some((m, to_balance(b))) })
						.collect::<Vec<(T::AccountId, BalanceOf<T>)>>();
""", """					let mut new_set_with_stake: Vec<(T::AccountId, BalanceOf<T>)> = winners
						.into_iter()
						.filter(|(_, backing)| *backing != 0)
						.map(|(who, backing)| (who, to_balance(backing)))
						.collect();
"""))
R("x15-phragmen-members-loop", (E, """					<Members<T>>::put(
						new_members_sorted_by_id
							.iter()
							.map(|(who, stake)| SeatHolder {
								deposit: deposit_of_candidate(who),
								who: who.clone(),
								stake: *stake,
							})
							.collect::<Vec<_>>(),
					);
""", """					let mut seated = Vec::with_capacity(new_members_sorted_by_id.len());
					for (who, stake) in new_members_sorted_by_id.iter().cloned() {
						let deposit = deposit_of_candidate(&who);
						seated.push(SeatHolder { who, stake, deposit });
					}
					Members::<T>::put(seated);
"""))
R("x15-phragmen-voters-for", (E, """		match Voting::<T>::iter().try_for_each(|(voter, Voter { stake, votes, .. })| {
			if voters_and_stakes.len() < max_voters {
				voters_and_stakes.push((voter, stake, votes));
				Ok(())
			} else {
				Err(())
			}
		}) {
			Ok(_) => (),
			Err(_) => {
				log::error!(
					target: LOG_TARGET,
					"Failed to run election. Number of voters exceeded",
				);
				Self::deposit_event(Event::ElectionError);
				return T::DbWeight::get().reads(3 + max_voters as u64);
			},
		}
""", """		for (voter, Voter { stake, votes, .. }) in Voting::<T>::iter() {
			if voters_and_stakes.len() == max_voters {
				log::error!(
					target: LOG_TARGET,
					"Failed to run election. Number of voters exceeded",
				);
				Self::deposit_event(Event::ElectionError);
				return T::DbWeight::get().reads(3 + max_voters as u64);
			}
			voters_and_stakes.push((voter, stake, votes));
		}
"""))
R("x15-phragmen-match", (E, """		if candidates_and_deposit.len().is_zero() {
			Self::deposit_event(Event::EmptyTerm);
			return T::DbWeight::get().reads(3);
		}
""", """		let contested = !candidates_and_deposit.is_empty();
		if !contested {
			let reads = T::DbWeight::get().reads(3);
			Self::deposit_event(Event::EmptyTerm);
			return reads;
		}
"""))
R("x15-genesis-for", (E, """			let members = self
				.members
				.iter()
				.map(|(ref member, ref stake)| {
""", """			let seat = |(member, stake): &(T::AccountId, BalanceOf<T>)| {
"""), (E, """					member.clone()
				})
				.collect::<Vec<T::AccountId>>();
""", """					member.clone()
			};
			let members = self.members.iter().map(seat).collect::<Vec<T::AccountId>>();
"""))
R("x15-genesis-len", (E, """			assert!(
				self.members.len() as u32 <= T::DesiredMembers::get(),
				"Cannot accept more than DesiredMembers genesis member",
			);
""", """			if self.members.len() as u32 > T::DesiredMembers::get() {
				panic!("Cannot accept more than DesiredMembers genesis member");
			}
"""))
R("x15-can-unlock-voter", (E, """		let current_block = <frame_system::Pallet<T>>::block_number();
		Voting::<T>::get(who).lockup_till <= current_block
""", """		let Voter { lockup_till, .. } = Self::voting(who);
		!(lockup_till > frame_system::Pallet::<T>::block_number())
"""))
R("x15-do-remove-take", (E, """		T::Currency::thaw(&FreezeReason::Voting.into(), who).map_err(|_| Error::<T>::UnableToReleaseBond)?;
		Voting::<T>::remove(who);
		Ok(())
""", """		let _ = Voting::<T>::take(who);
		T::Currency::thaw(&FreezeReason::Voting.into(), who).or_else(|_| Err(Error::<T>::UnableToReleaseBond.into()))
"""))
R("x15-is-member-ids", (E, """		Self::members().binary_search_by(|m| m.who.cmp(who)).is_ok()
""", """		Self::members_ids().binary_search(who).is_ok()
"""))
R("x15-is-runner-find", (E, """		Self::runners_up().iter().any(|r| &r.who == who)
""", """		Self::runners_up().into_iter().find(|SeatHolder { who: r, .. }| who == r).is_some()
"""))
OS = "			weight"

E = "pallets/elections-phragmen/src/lib.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))
HOLDER = "	fn is_voter(who: &T::AccountId) -> bool {\n"
R("init-early", (E, """			if !term_duration.is_zero() && (n % term_duration).is_zero() {
				Self::do_phragmen()
			} else {
				Weight::zero()
			}
""", """			if term_duration.is_zero() {
				return Weight::zero();
			}
			match (n % term_duration).is_zero() {
				true => Self::do_phragmen(),
				false => Weight::zero(),
			}
"""))
R("vote-bounds", (E, """			let allowed_votes = candidates_count.saturating_add(members_count).saturating_add(runners_up_count);
			ensure!(!allowed_votes.is_zero(), Error::<T>::UnableToVote);
			ensure!(votes.len() <= allowed_votes, Error::<T>::TooManyVotes);
""", """			let allowed_votes = runners_up_count.saturating_add(members_count).saturating_add(candidates_count);
			if allowed_votes == 0 {
				return Err(Error::<T>::UnableToVote.into());
			}
			if votes.len() > allowed_votes {
				return Err(Error::<T>::TooManyVotes.into());
			}
"""))
R("vote-limit", (E, """			if current_block < voter.lockup_till {
				ensure!(value >= voter.stake, Error::<T>::LowBalance);
			} else {
				ensure!(value > T::Currency::minimum_balance(), Error::<T>::LowBalance);
			};
""", """			let still_locked = voter.lockup_till > current_block;
			let enough = match still_locked {
				true => voter.stake <= value,
				false => T::Currency::minimum_balance() < value,
			};
			ensure!(enough, Error::<T>::LowBalance);
"""))
R("vote-min", (E, """			let locked_stake = value.min(T::Currency::total_balance(&who));
""", """			let total = T::Currency::total_balance(&who);
			let locked_stake = if total < value { total } else { value };
"""))
R("vote-construct", (E, """			Voting::<T>::insert(
				&who,
				Voter { votes, stake: locked_stake, lockup_till: current_block + T::VotingLockPeriod::get() },
			);
""", """			let lockup_till = current_block + T::VotingLockPeriod::get();
			Voting::<T>::mutate(&who, |voter| {
				voter.votes = votes;
				voter.stake = locked_stake;
				voter.lockup_till = lockup_till;
			});
"""))
R("vote-len", (E, """			let candidates_count = <Candidates<T>>::decode_len().unwrap_or(0);
			let members_count = <Members<T>>::decode_len().unwrap_or(0);
			let runners_up_count = <RunnersUp<T>>::decode_len().unwrap_or(0);
""", """			let candidates_count = Self::candidates().len();
			let members_count = Self::members().len();
			let runners_up_count = Self::runners_up().len();
"""))
R("submit-match", (E, """			let index = Self::is_candidate(&who).err().ok_or(Error::<T>::DuplicatedCandidate)?;
""", """			let Err(index) = Self::is_candidate(&who) else { return Err(Error::<T>::DuplicatedCandidate.into()) };
"""))
R("submit-bondlet", (E, """			T::Currency::hold(&HoldReason::Candidacy.into(), &who, T::CandidacyBond::get())
				.map_err(|_| Error::<T>::InsufficientCandidateFunds)?;

			<Candidates<T>>::mutate(|c| c.insert(index, (who, T::CandidacyBond::get())));
			Ok(())
""", """			let bond = T::CandidacyBond::get();
			if T::Currency::hold(&HoldReason::Candidacy.into(), &who, bond).is_err() {
				return Err(Error::<T>::InsufficientCandidateFunds.into());
			}
			let mut candidates = Self::candidates();
			candidates.insert(index, (who, bond));
			<Candidates<T>>::put(candidates);
			Ok(())
"""))
R("submit-order", (E, """			ensure!(!Self::is_member(&who), Error::<T>::MemberSubmit);
			ensure!(!Self::is_runner_up(&who), Error::<T>::RunnerUpSubmit);
""", """			ensure!(!Self::is_runner_up(&who), Error::<T>::RunnerUpSubmit);
			ensure!(!Self::is_member(&who), Error::<T>::MemberSubmit);
"""))
R("renounce-helper", (E, """						let SeatHolder { deposit, .. } = runners_up.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
""", """						let removed = runners_up.remove(index);
						Self::release_bond(&who, removed.deposit)?;
"""), (E, """						let (_, deposit) = candidates.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
""", """						let (_, deposit) = candidates.remove(index);
						Self::release_bond(&who, deposit)?;
"""), (E, """				T::Currency::release(&HoldReason::Candidacy.into(), who, removed.deposit, Precision::Exact)
					.map_err(|_| Error::<T>::UnableToReleaseBond)?;
""", """				Self::release_bond(who, removed.deposit)?;
"""), (E, HOLDER, """	fn release_bond(who: &T::AccountId, deposit: BalanceOf<T>) -> Result<(), Error<T>> {
		match T::Currency::release(&HoldReason::Candidacy.into(), who, deposit, Precision::Exact) {
			Ok(_) => Ok(()),
			Err(_) => Err(Error::<T>::UnableToReleaseBond),
		}
	}

""" + HOLDER))
R("renounce-event-out", (E, """					<RunnersUp<T>>::try_mutate::<_, Error<T>, _>(|runners_up| {
						let index = runners_up
							.iter()
							.position(|SeatHolder { who: r, .. }| r == &who)
							.ok_or(Error::<T>::InvalidRenouncing)?;
						// can't fail anymore.
						let SeatHolder { deposit, .. } = runners_up.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
						Self::deposit_event(Event::Renounced { candidate: who });
						Ok(())
					})?;
""", """					let mut runners_up = Self::runners_up();
					let index =
						runners_up.iter().position(|holder| holder.who == who).ok_or(Error::<T>::InvalidRenouncing)?;
					let SeatHolder { deposit, .. } = runners_up.remove(index);
					<RunnersUp<T>>::put(runners_up);
					T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
						.map_err(|_| Error::<T>::UnableToReleaseBond)?;
					Self::deposit_event(Event::Renounced { candidate: who });
"""))
R("kick-order", (E, """			Self::deposit_event(Event::MemberKicked { member: who });

			if rerun_election {
				Self::do_phragmen();
			}
""", """			Self::deposit_event(Event::MemberKicked { member: who });
			if !rerun_election {
				return Ok(());
			}
			let _weight = Self::do_phragmen();
"""))
R("defunct-loop", (E, """			<Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize)
				.try_for_each(|(dv, _)| Self::do_remove_voter(&dv))?;
""", """			let defunct = <Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize);
			for (dv, _) in defunct {
				Self::do_remove_voter(&dv)?;
			}
"""))
R("defunct-any", (E, """		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())
""", """		!votes.iter().any(|v| Self::is_member(v) || Self::is_runner_up(v) || Self::is_candidate(v).is_ok())
"""))
R("defunct-for", (E, """		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())
""", """		for v in votes {
			if Self::is_member(v) || Self::is_runner_up(v) || Self::is_candidate(v).is_ok() {
				return false;
			}
		}
		true
"""))
R("removevoter-match", (E, """		T::Currency::thaw(&FreezeReason::Voting.into(), who).map_err(|_| Error::<T>::UnableToReleaseBond)?;
		Voting::<T>::remove(who);
		Ok(())
""", """		match T::Currency::thaw(&FreezeReason::Voting.into(), who) {
			Ok(()) => {
				Voting::<T>::remove(who);
				Ok(())
			},
			Err(_) => Err(Error::<T>::UnableToReleaseBond.into()),
		}
"""))
R("replace-while", (E, """			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {
""", """			let next = {
				let mut runners_up = Self::runners_up();
				let best = runners_up.pop();
				<RunnersUp<T>>::put(runners_up);
				best
			};
			let maybe_next_best = next.map(|next_best| {
"""))
R("replace-flow", (E, """		let return_value = match maybe_replacement {
			// member ids are already sorted, other two elements have one item.
			Some(incoming) => {
				T::ChangeMembers::change_members_sorted(&[incoming.who], outgoing, &remaining_member_ids_sorted[..]);
				true
			},
			None => {
				T::ChangeMembers::change_members_sorted(&[], outgoing, &remaining_member_ids_sorted[..]);
				false
			},
		};
""", """		let return_value = maybe_replacement.is_some();
		if let Some(incoming) = maybe_replacement {
			T::ChangeMembers::change_members_sorted(&[incoming.who], outgoing, &remaining_member_ids_sorted[..]);
		} else {
			T::ChangeMembers::change_members_sorted(&[], outgoing, &remaining_member_ids_sorted[..]);
		}
"""))
R("replace-prime", (E, """		if let Some(current_prime) = maybe_current_prime {
			if &current_prime != who {
				T::ChangeMembers::set_prime(Some(current_prime));
			}
		}
""", """		match maybe_current_prime {
			Some(prime) if prime != *who => T::ChangeMembers::set_prime(Some(prime)),
			_ => (),
		}
"""))
R("replace-incoming-vec", (E, """		let return_value = match maybe_replacement {
			// member ids are already sorted, other two elements have one item.
			Some(incoming) => {
				T::ChangeMembers::change_members_sorted(&[incoming.who], outgoing, &remaining_member_ids_sorted[..]);
				true
			},
			None => {
				T::ChangeMembers::change_members_sorted(&[], outgoing, &remaining_member_ids_sorted[..]);
				false
			},
		};
""", """		let return_value = maybe_replacement.is_some();
		let incoming = maybe_replacement.into_iter().map(|holder| holder.who).collect::<Vec<_>>();
		T::ChangeMembers::change_members_sorted(&incoming, outgoing, &remaining_member_ids_sorted[..]);
"""))
R("ph-voters-loop", (E, """		match Voting::<T>::iter().try_for_each(|(voter, Voter { stake, votes, .. })| {
			if voters_and_stakes.len() < max_voters {
				voters_and_stakes.push((voter, stake, votes));
				Ok(())
			} else {
				Err(())
			}
		}) {
			Ok(_) => (),
			Err(_) => {
				log::error!(
					target: LOG_TARGET,
					"Failed to run election. Number of voters exceeded",
				);
				Self::deposit_event(Event::ElectionError);
				return T::DbWeight::get().reads(3 + max_voters as u64);
			},
		}
""", """		for (voter, Voter { stake, votes, .. }) in Voting::<T>::iter() {
			if voters_and_stakes.len() >= max_voters {
				log::error!(
					target: LOG_TARGET,
					"Failed to run election. Number of voters exceeded",
				);
				Self::deposit_event(Event::ElectionError);
				return T::DbWeight::get().reads(3 + max_voters as u64);
			}
			voters_and_stakes.push((voter, stake, votes));
		}
"""))
R("ph-slash-for", (E, """					candidates_and_deposit.iter().for_each(|(c, d)| {
						if new_members_ids_sorted.binary_search(c).is_err() &&
							new_runners_up_ids_sorted.binary_search(c).is_err()
						{
							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
						}
					});
""", """					for (c, d) in &candidates_and_deposit {
						let elected = new_members_ids_sorted.binary_search(c).is_ok() ||
							new_runners_up_ids_sorted.binary_search(c).is_ok();
						if elected {
							continue;
						}
						let imbalance = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d).0;
						T::LoserCandidate::on_unbalanced(imbalance);
						Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
					}
"""))
R("ph-slash-contains", (E, """						if new_members_ids_sorted.binary_search(c).is_err() &&
							new_runners_up_ids_sorted.binary_search(c).is_err()
						{
""", """						if !new_members_ids_sorted.contains(c) && !new_runners_up_ids_sorted.contains(c) {
"""))
R("ph-deposit-find", (E, """						candidates_and_deposit
							.iter()
							.find_map(|(c, d)| if c == x { Some(*d) } else { None })
							.defensive_unwrap_or_default()
""", """						candidates_and_deposit
							.iter()
							.find(|(c, _)| c == x)
							.map(|(_, d)| *d)
							.defensive_unwrap_or_default()
"""))
R("ph-prime-loop", (E, """						for (vote_multiplier, who) in votes.iter().enumerate().map(|(vote_position, who)| {
							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)
						}) {
							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {
								prime_votes[i].1 =
									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));
							}
						}
""", """						for (vote_position, who) in votes.iter().enumerate() {
							let vote_multiplier = (T::MaxVotesPerVoter::get() as usize - vote_position) as u32;
							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {
								let points = stake.saturating_mul(vote_multiplier.into());
								prime_votes[i].1 = prime_votes[i].1.saturating_add(points);
							}
						}
"""))
R("ph-winners", (E, """						.filter_map(|(m, b)| if b.is_zero() { None } else { Some((m, to_balance(b))) })
						.collect::<Vec<(T::AccountId, BalanceOf<T>)>>();
""", """						.filter(|(_, b)| !b.is_zero())
						.map(|(m, b)| (m, to_balance(b)))
						.collect::<Vec<(T::AccountId, BalanceOf<T>)>>();
"""))
R("ph-match", (E, """				.map_err(|e| {
					log::error!(target: LOG_TARGET, "Failed to run election [{:?}].", e,);
					Self::deposit_event(Event::ElectionError);
				});
""", """				.unwrap_or_else(|e| {
					log::error!(target: LOG_TARGET, "Failed to run election [{:?}].", e,);
					Self::deposit_event(Event::ElectionError);
				});
"""))
R("ph-empty", (E, """		if candidates_and_deposit.len().is_zero() {
""", """		if candidates_and_deposit.is_empty() {
"""))
R("ph-concat", (E, """		let mut candidates_and_deposit = Self::candidates();
		// add all the previous members and runners-up as candidates as well.
		candidates_and_deposit.append(&mut Self::implicit_candidates_with_deposit());
""", """		let candidates_and_deposit = Self::candidates()
			.into_iter()
			.chain(Self::implicit_candidates_with_deposit())
			.collect::<Vec<_>>();
"""))
R("ph-votersmap", (E, """		let voters_and_votes = voters_and_stakes
			.iter()
			.cloned()
			.map(|(voter, stake, votes)| {
				num_edges = num_edges.saturating_add(votes.len() as u32);
				(voter, to_votes(stake), votes)
			})
			.collect::<Vec<_>>();
""", """		let mut voters_and_votes = Vec::new();
		for (voter, stake, votes) in voters_and_stakes.iter() {
			num_edges = num_edges.saturating_add(votes.len() as u32);
			voters_and_votes.push((voter.clone(), to_votes(*stake), votes.clone()));
		}
"""))
R("ph-rounds", (E, "<ElectionRounds<T>>::mutate(|v| *v += 1);", "<ElectionRounds<T>>::put(Self::election_rounds() + 1);"))
R("ph-split", (E, """					let split_point = desired_seats.min(new_set_with_stake.len());
					let mut new_members_sorted_by_id = new_set_with_stake.drain(..split_point).collect::<Vec<_>>();
""", """					let mut new_members_sorted_by_id =
						new_set_with_stake.drain(..new_set_with_stake.len().min(desired_seats)).collect::<Vec<_>>();
"""))
R("ph-splitoff", (E, """					let mut new_members_sorted_by_id = new_set_with_stake.drain(..split_point).collect::<Vec<_>>();
""", """					let losers = new_set_with_stake.split_off(split_point);
					let mut new_members_sorted_by_id = new_set_with_stake;
					let mut new_set_with_stake = losers;
"""))
R("canunlock", (E, """		let current_block = <frame_system::Pallet<T>>::block_number();
		Voting::<T>::get(who).lockup_till <= current_block
""", """		<frame_system::Pallet<T>>::block_number() >= Voting::<T>::get(who).lockup_till
"""))
R("add-if", (E, """		Members::<T>::mutate(|members| match members.binary_search_by(|m| m.who.cmp(who)) {
			Ok(_) => (),
			Err(pos) => {
				let s = SeatHolder { who: who.clone(), stake: Default::default(), deposit: Default::default() };
				members.insert(pos, s)
			},
		})
""", """		let mut members = Self::members();
		if let Err(pos) = members.binary_search_by(|m| m.who.cmp(who)) {
			members.insert(pos, SeatHolder { who: who.clone(), stake: Zero::zero(), deposit: Zero::zero() });
			Members::<T>::put(members);
		}
"""))
R("ismember-any", (E, """		Self::members().binary_search_by(|m| m.who.cmp(who)).is_ok()
""", """		Self::members().iter().any(|m| &m.who == who)
"""))

E = "pallets/elections-phragmen/src/lib.rs"
O = "pallets/on-slash-vesting/src/lib.rs"
D = "pallets/democracy/src/lib.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))
HOOK = "	/// Check if `who` is a candidate. It returns the insert index"
def helper(text):
    return (E, HOOK, text + "\n" + HOOK)

R("e5-forfeit-helper", (E, """				let (imbalance, _remainder) = T::Currency::slash(&HoldReason::Candidacy.into(), who, removed.deposit);
				debug_assert!(_remainder.is_zero());
				T::LoserCandidate::on_unbalanced(imbalance);
				Self::deposit_event(Event::SeatHolderSlashed""", """				Self::forfeit(who, removed.deposit);
				Self::deposit_event(Event::SeatHolderSlashed"""),
  (E, """							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
""", """							Self::forfeit(c, *d);
"""), helper("""	/// Burns a candidacy deposit.
	fn forfeit(who: &T::AccountId, amount: BalanceOf<T>) {
		let (imbalance, _rest) = T::Currency::slash(&HoldReason::Candidacy.into(), who, amount);
		T::LoserCandidate::on_unbalanced(imbalance);
	}
"""))
R("e5-release-helper", (E, """						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
""", """						Self::give_back(&who, deposit)?;
"""), (E, """				T::Currency::release(&HoldReason::Candidacy.into(), who, removed.deposit, Precision::Exact)
					.map_err(|_| Error::<T>::UnableToReleaseBond)?;
""", """				Self::give_back(who, removed.deposit)?;
"""), helper("""	fn give_back(who: &T::AccountId, amount: BalanceOf<T>) -> Result<(), Error<T>> {
		match T::Currency::release(&HoldReason::Candidacy.into(), who, amount, Precision::Exact) {
			Ok(_) => Ok(()),
			Err(_) => Err(Error::<T>::UnableToReleaseBond),
		}
	}
"""), n=2)
R("e5-gather-voters", (E, """		let mut voters_and_stakes = Vec::new();
		match Voting::<T>::iter().try_for_each(|(voter, Voter { stake, votes, .. })| {
			if voters_and_stakes.len() < max_voters {
				voters_and_stakes.push((voter, stake, votes));
				Ok(())
			} else {
				Err(())
			}
		}) {
			Ok(_) => (),
			Err(_) => {
				log::error!(
					target: LOG_TARGET,
					"Failed to run election. Number of voters exceeded",
				);
				Self::deposit_event(Event::ElectionError);
				return T::DbWeight::get().reads(3 + max_voters as u64);
			},
		}
""", """		let Some(voters_and_stakes) = Self::gather_voters(max_voters) else {
			log::error!(
				target: LOG_TARGET,
				"Failed to run election. Number of voters exceeded",
			);
			Self::deposit_event(Event::ElectionError);
			return T::DbWeight::get().reads(3 + max_voters as u64);
		};
"""), helper("""	/// All voters with their stake and votes, unless there are too many.
	fn gather_voters(max_voters: usize) -> Option<Vec<(T::AccountId, BalanceOf<T>, Vec<T::AccountId>)>> {
		let mut out = Vec::new();
		for (voter, Voter { stake, votes, .. }) in Voting::<T>::iter() {
			if out.len() == max_voters {
				return None;
			}
			out.push((voter, stake, votes));
		}
		Some(out)
	}
"""))
R("e5-prime-helper", (E, """					let mut prime_votes =
						new_members_sorted_by_id.iter().map(|c| (&c.0, BalanceOf::<T>::zero())).collect::<Vec<_>>();
					for (_, stake, votes) in voters_and_stakes.into_iter() {
						for (vote_multiplier, who) in votes.iter().enumerate().map(|(vote_position, who)| {
							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)
						}) {
							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {
								prime_votes[i].1 =
									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));
							}
						}
					}
					// We then select the new member with the highest weighted stake. In the case of
					// a tie, the last person in the list with the tied score is selected. This is
					// the person with the "highest" account id based on the sort above.
					let prime = prime_votes.into_iter().max_by_key(|x| x.1).map(|x| x.0.clone());
""", """					let prime = Self::elect_prime(&new_members_sorted_by_id, voters_and_stakes);
"""), helper("""	fn elect_prime(
		members: &[(T::AccountId, BalanceOf<T>)],
		voters: Vec<(T::AccountId, BalanceOf<T>, Vec<T::AccountId>)>,
	) -> Option<T::AccountId> {
		let mut scores = members.iter().map(|c| (&c.0, BalanceOf::<T>::zero())).collect::<Vec<_>>();
		for (_, stake, votes) in voters.into_iter() {
			for (vote_multiplier, who) in votes
				.iter()
				.enumerate()
				.map(|(vote_position, who)| ((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who))
			{
				if let Ok(i) = scores.binary_search_by_key(&who, |k| k.0) {
					scores[i].1 = scores[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));
				}
			}
		}
		scores.into_iter().max_by_key(|x| x.1).map(|x| x.0.clone())
	}
"""))
R("e5-slash-losers-helper", (E, """					candidates_and_deposit.iter().for_each(|(c, d)| {
						if new_members_ids_sorted.binary_search(c).is_err() &&
							new_runners_up_ids_sorted.binary_search(c).is_err()
						{
							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
						}
					});
""", """					Self::slash_losers(&candidates_and_deposit, &new_members_ids_sorted, &new_runners_up_ids_sorted);
"""), helper("""	fn slash_losers(
		candidates: &[(T::AccountId, BalanceOf<T>)],
		members: &[T::AccountId],
		runners_up: &[T::AccountId],
	) {
		for (c, d) in candidates.iter().filter(|(c, _)| {
			members.binary_search(c).is_err() && runners_up.binary_search(c).is_err()
		}) {
			let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
			T::LoserCandidate::on_unbalanced(imbalance);
			Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
		}
	}
"""))
R("e5-members-order", (E, """					// clean candidates.
					<Candidates<T>>::kill();

""", ""), (E, """					// write final values to storage.
""", """					<Candidates<T>>::kill();

					// write final values to storage.
"""))
R("e5-candidates-put", (E, "					<Candidates<T>>::kill();", "					<Candidates<T>>::put(Vec::<(T::AccountId, BalanceOf<T>)>::new());"))
R("e5-runnersids", (E, """					let mut new_runners_up_ids_sorted =
						new_runners_up_sorted_by_rank.iter().map(|(r, _)| r.clone()).collect::<Vec<_>>();
					new_runners_up_ids_sorted.sort();
""", """					let mut new_runners_up_ids_sorted = Vec::with_capacity(new_runners_up_sorted_by_rank.len());
					for (r, _) in new_runners_up_sorted_by_rank.iter() {
						new_runners_up_ids_sorted.push(r.clone());
					}
					new_runners_up_ids_sorted.sort();
"""))
R("e5-oldmembers", (E, """					let old_members_ids_sorted =
						<Members<T>>::take().into_iter().map(|m| m.who).collect::<Vec<T::AccountId>>();
""", """					let old_members_ids_sorted = Self::members_ids();
					<Members<T>>::kill();
"""))
R("e5-oldrunners-unused", (E, """					let mut old_runners_up_ids_sorted =
						<RunnersUp<T>>::take().into_iter().map(|r| r.who).collect::<Vec<T::AccountId>>();
					old_runners_up_ids_sorted.sort();
""", """					<RunnersUp<T>>::kill();
"""))
R("e5-rev", (E, """					new_set_with_stake.reverse();
					let new_runners_up_sorted_by_rank = new_set_with_stake;
""", """					let new_runners_up_sorted_by_rank = new_set_with_stake.into_iter().rev().collect::<Vec<_>>();
"""))
R("e5-winners-for", (E, """					let mut new_set_with_stake = winners
						.into_iter()
						.filter_map(|(m, b)| if b.is_zero() { None } else { Some((m, to_balance(b))) })
						.collect::<Vec<(T::AccountId, BalanceOf<T>)>>();
""", """					let mut new_set_with_stake: Vec<(T::AccountId, BalanceOf<T>)> = Vec::new();
					for (m, b) in winners {
						if !b.is_zero() {
							new_set_with_stake.push((m, to_balance(b)));
						}
					}
"""))
R("e5-seatholder-helper", (E, """					<Members<T>>::put(
						new_members_sorted_by_id
							.iter()
							.map(|(who, stake)| SeatHolder {
								deposit: deposit_of_candidate(who),
								who: who.clone(),
								stake: *stake,
							})
							.collect::<Vec<_>>(),
					);
""", """					let mut seats = Vec::new();
					for (who, stake) in new_members_sorted_by_id.iter() {
						let deposit = deposit_of_candidate(who);
						seats.push(SeatHolder { who: who.clone(), stake: *stake, deposit });
					}
					<Members<T>>::put(seats);
"""))
R("e5-ph-iflet", (E, """		let _ =
			sp_npos_elections::seq_phragmen(num_to_elect, candidate_ids, voters_and_votes, None)
				.map(|ElectionResult::<T::AccountId, Perbill> { winners, assignments: _ }| {
""", """		let outcome = sp_npos_elections::seq_phragmen(num_to_elect, candidate_ids, voters_and_votes, None);
		let _ = outcome
				.map(|result: ElectionResult<T::AccountId, Perbill>| {
					let winners = result.winners;
"""))
R("e5-vote-lockup", (E, """			if current_block < voter.lockup_till {
				ensure!(value >= voter.stake, Error::<T>::LowBalance);
			} else {
				ensure!(value > T::Currency::minimum_balance(), Error::<T>::LowBalance);
			};
""", """			let enough = match current_block < voter.lockup_till {
				true => value >= voter.stake,
				false => value > T::Currency::minimum_balance(),
			};
			ensure!(enough, Error::<T>::LowBalance);
"""))
R("e5-vote-check-helper", (E, """			let candidates_count = <Candidates<T>>::decode_len().unwrap_or(0);
			let members_count = <Members<T>>::decode_len().unwrap_or(0);
			let runners_up_count = <RunnersUp<T>>::decode_len().unwrap_or(0);
""", ""), (E, """			let allowed_votes = candidates_count.saturating_add(members_count).saturating_add(runners_up_count);
""", """			let allowed_votes = Self::votable();
"""), helper("""	fn votable() -> usize {
		let candidates = <Candidates<T>>::decode_len().unwrap_or_default();
		let members = <Members<T>>::decode_len().unwrap_or_default();
		let runners_up = <RunnersUp<T>>::decode_len().unwrap_or_default();
		candidates.saturating_add(members).saturating_add(runners_up)
	}
"""))
R("e5-vote-mutate", (E, """			Voting::<T>::insert(
				&who,
				Voter { votes, stake: locked_stake, lockup_till: current_block + T::VotingLockPeriod::get() },
			);
""", """			Voting::<T>::mutate(&who, |v| {
				v.votes = votes;
				v.stake = locked_stake;
				v.lockup_till = current_block + T::VotingLockPeriod::get();
			});
"""))
R("e5-vote-order", (E, """			ensure!(votes.len() <= T::MaxVotesPerVoter::get() as usize, Error::<T>::MaximumVotesExceeded);
			ensure!(!votes.is_empty(), Error::<T>::NoVotes);

""", """			let wanted = votes.len();
			ensure!(wanted > 0, Error::<T>::NoVotes);
			ensure!(wanted <= T::MaxVotesPerVoter::get() as usize, Error::<T>::MaximumVotesExceeded);

"""))
R("e5-removevoter", (E, """			ensure!(Self::is_voter(&who), Error::<T>::MustBeVoter);
			ensure!(Self::can_unlock(&who), Error::<T>::VotingPeriodNotEnded);
			Self::do_remove_voter(&who)?;
			Ok(())
""", """			if !Self::is_voter(&who) {
				return Err(Error::<T>::MustBeVoter.into());
			}
			if !Self::can_unlock(&who) {
				return Err(Error::<T>::VotingPeriodNotEnded.into());
			}
			Self::do_remove_voter(&who)
"""))
R("e5-submit", (E, """			let index = Self::is_candidate(&who).err().ok_or(Error::<T>::DuplicatedCandidate)?;

			ensure!(!Self::is_member(&who), Error::<T>::MemberSubmit);
			ensure!(!Self::is_runner_up(&who), Error::<T>::RunnerUpSubmit);

			T::Currency::hold(&HoldReason::Candidacy.into(), &who, T::CandidacyBond::get())
				.map_err(|_| Error::<T>::InsufficientCandidateFunds)?;

			<Candidates<T>>::mutate(|c| c.insert(index, (who, T::CandidacyBond::get())));
			Ok(())
""", """			ensure!(!Self::is_member(&who), Error::<T>::MemberSubmit);
			ensure!(!Self::is_runner_up(&who), Error::<T>::RunnerUpSubmit);

			let mut candidates = Self::candidates();
			let index = match candidates.binary_search_by(|(c, _)| c.cmp(&who)) {
				Ok(_) => return Err(Error::<T>::DuplicatedCandidate.into()),
				Err(index) => index,
			};

			let bond = T::CandidacyBond::get();
			T::Currency::hold(&HoldReason::Candidacy.into(), &who, bond)
				.map_err(|_| Error::<T>::InsufficientCandidateFunds)?;

			candidates.insert(index, (who, bond));
			<Candidates<T>>::put(candidates);
			Ok(())
"""))
R("e5-renounce-getput", (E, """					<RunnersUp<T>>::try_mutate::<_, Error<T>, _>(|runners_up| {
						let index = runners_up
							.iter()
							.position(|SeatHolder { who: r, .. }| r == &who)
							.ok_or(Error::<T>::InvalidRenouncing)?;
						// can't fail anymore.
						let SeatHolder { deposit, .. } = runners_up.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
							.map_err(|_| Error::<T>::UnableToReleaseBond)?;
						Self::deposit_event(Event::Renounced { candidate: who });
						Ok(())
					})?;
""", """					let mut runners_up = Self::runners_up();
					let Some(index) = runners_up.iter().position(|r| r.who == who) else {
						return Err(Error::<T>::InvalidRenouncing.into());
					};
					let deposit = runners_up.remove(index).deposit;
					T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
						.map_err(|_| Error::<T>::UnableToReleaseBond)?;
					<RunnersUp<T>>::put(runners_up);
					Self::deposit_event(Event::Renounced { candidate: who });
"""))
R("e5-renounce-cand-pos", (E, """						let index = candidates
							.binary_search_by(|(c, _)| c.cmp(&who))
							.map_err(|_| Error::<T>::InvalidRenouncing)?;
						let (_, deposit) = candidates.remove(index);
""", """						let Ok(index) = candidates.binary_search_by(|(c, _)| c.cmp(&who)) else {
							return Err(Error::<T>::InvalidRenouncing);
						};
						let deposit = candidates.remove(index).1;
"""))
R("e5-kick-rerun", (E, """			let _ = Self::remove_and_replace_member(&who, slash_bond)?;
			Self::deposit_event(Event::MemberKicked { member: who });

			if rerun_election {
				Self::do_phragmen();
			}

			// no refund needed.
			Ok(())
""", """			Self::remove_and_replace_member(&who, slash_bond).map(|_replaced| {
				Self::deposit_event(Event::MemberKicked { member: who });
				if rerun_election {
					Self::do_phragmen();
				}
			})
"""))
R("e5-defunct-collect", (E, """			<Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize)
				.try_for_each(|(dv, _)| Self::do_remove_voter(&dv))?;

			Ok(())
""", """			let defunct = <Voting<T>>::iter()
				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.map(|(dv, _)| dv)
				.take(num_defunct as usize)
				.collect::<Vec<_>>();
			for dv in defunct {
				Self::do_remove_voter(&dv)?;
			}

			Ok(())
"""))
R("e5-init-flip", (E, """			let term_duration = T::TermDuration::get();
			if !term_duration.is_zero() && (n % term_duration).is_zero() {
				Self::do_phragmen()
			} else {
				Weight::zero()
			}
""", """			let term_duration = T::TermDuration::get();
			let due = match term_duration.is_zero() {
				true => false,
				false => (n % term_duration).is_zero(),
			};
			if !due {
				return Weight::zero();
			}
			Self::do_phragmen()
"""))
R("e5-replace-split", (E, """			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {
				// defensive-only: Members and runners-up are disjoint. This will always be err and
				// give us an index to insert.
				if let Err(index) = members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					members.insert(index, next_best.clone());
				} else {
					// overlap. This can never happen. If so, it seems like our intended replacement
					// is already a member, so not much more to do.
					log::error!(target: LOG_TARGET, "A member seems to also be a runner-up.");
				}
				next_best
			});
			Ok(maybe_next_best)
""", """			let mut runners_up = Self::runners_up();
			let maybe_next_best = runners_up.pop();
			<RunnersUp<T>>::put(runners_up);
			if let Some(next_best) = &maybe_next_best {
				match members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					Err(index) => members.insert(index, next_best.clone()),
					Ok(_) => log::error!(target: LOG_TARGET, "A member seems to also be a runner-up."),
				}
			}
			Ok(maybe_next_best)
"""))
R("e5-replace-ids", (E, """		let remaining_member_ids_sorted = Self::members().into_iter().map(|x| x.who).collect::<Vec<_>>();
""", """		let remaining_member_ids_sorted = Self::members_ids();
"""))
R("e5-replace-prime-filter", (E, """		if let Some(current_prime) = maybe_current_prime {
			if &current_prime != who {
				T::ChangeMembers::set_prime(Some(current_prime));
			}
		}
""", """		if let Some(kept) = maybe_current_prime.filter(|p| p != who) {
			T::ChangeMembers::set_prime(Some(kept));
		}
"""))
R("e5-replace-value", (E, """		Ok(return_value)
""", """		if return_value {
			Ok(true)
		} else {
			Ok(false)
		}
"""))
R("e5-runner-contains", (E, """		Self::runners_up().iter().any(|r| &r.who == who)
""", """		for runner in Self::runners_up() {
			if runner.who == *who {
				return true;
			}
		}
		false
"""))
R("e5-implicit-loop", (E, """		Self::members()
			.into_iter()
			.map(|m| (m.who, m.deposit))
			.chain(Self::runners_up().into_iter().map(|r| (r.who, r.deposit)))
			.collect::<Vec<_>>()
""", """		let mut all = Vec::new();
		for seat in Self::members() {
			all.push((seat.who, seat.deposit));
		}
		for seat in Self::runners_up() {
			all.push((seat.who, seat.deposit));
		}
		all
"""))
R("e5-genesis-loop", (E, """			let members = self
				.members
				.iter()
				.map(|(ref member, ref stake)| {
""", """			let mut members: Vec<T::AccountId> = Vec::new();
			for (member, stake) in self.members.iter() {
"""), (E, """					member.clone()
				})
				.collect::<Vec<T::AccountId>>();

""", """					members.push(member.clone());
			}

"""))
R("e5-canunlock", (E, """		let current_block = <frame_system::Pallet<T>>::block_number();
		Voting::<T>::get(who).lockup_till <= current_block
""", """		let Voter { lockup_till, .. } = Voting::<T>::get(who);
		!(lockup_till > <frame_system::Pallet<T>>::block_number())
"""))
R("e5-doremove", (E, """		T::Currency::thaw(&FreezeReason::Voting.into(), who).map_err(|_| Error::<T>::UnableToReleaseBond)?;
		Voting::<T>::remove(who);
		Ok(())
""", """		let thawed = T::Currency::thaw(&FreezeReason::Voting.into(), who);
		if thawed.is_err() {
			return Err(Error::<T>::UnableToReleaseBond.into());
		}
		let _ = Voting::<T>::take(who);
		Ok(())
"""))
R("e5-defunct-none", (E, """		votes.iter().all(|v| !Self::is_member(v) && !Self::is_runner_up(v) && Self::is_candidate(v).is_err())
""", """		let stands = |v: &T::AccountId| Self::is_candidate(v).is_ok() || Self::is_runner_up(v) || Self::is_member(v);
		votes.iter().filter(|v| stands(v)).count() == 0
"""))
R("o5-helper", (O, """			for schedule in vesting_schedules {
				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
				// A schedule that did not start yet still starts when it was meant to.
				let start = now.max(schedule.starting_block());
				let start_block = T::BlockNumberToBalance::convert(start);
				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
				let duration = end_block.saturating_sub(start_block);
				// Nothing is locked anymore in a schedule that already ended.
				if duration == 0 {
					continue;
				}
				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, start);
				if new_schedule.is_valid() {
					// The push should always succeed because we are iterating over a bounded vector.
					let push_result = new_vesting_schedules.try_push(new_schedule);
					debug_assert!(push_result.is_ok());
				}
			}
""", """			for schedule in vesting_schedules.iter() {
				let start = if schedule.starting_block() > now { schedule.starting_block() } else { now };
				let duration = schedule
					.ending_block_as_balance::<T::BlockNumberToBalance>()
					.saturating_sub(T::BlockNumberToBalance::convert(start));
				if duration > 0 {
					let locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
					let rate = FixedU128::from_rational(locked, duration).saturating_mul_int(1u128);
					let slashed = pallet_vesting::VestingInfo::new(locked, rate, start);
					if slashed.is_valid() {
						let _pushed = new_vesting_schedules.try_push(slashed);
					}
				}
			}
"""))
R("o5-filtermap", (O, """			let mut new_vesting_schedules = BoundedVec::with_bounded_capacity(vesting_schedules.len());
			let now""", """			let mut new_vesting_schedules = BoundedVec::new();
			let now"""), (O, """			for schedule in vesting_schedules {
				let total_locked""", """			for schedule in vesting_schedules.into_iter() {
				let total_locked"""))
R("o5-insert", (O, """			<Vesting<T>>::set(account, Some(new_vesting_schedules));
""", """			<Vesting<T>>::insert(account, new_vesting_schedules);
"""))
R("o5-letelse", (O, """		if let Some(vesting_schedules) = <Vesting<T>>::get(account) {
			let mut""", """		let Some(vesting_schedules) = <Vesting<T>>::get(account) else {
			return;
		};
		{
			let mut"""))

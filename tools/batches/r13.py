exec(open("tools/batches/r7.py").read().split("# weights")[0])
# the functions the earlier batches left alone
# --- elections state checks
R("t13-members-bool", (E, "		match Self::intersects(&Self::candidates_ids(), &Self::runners_up_ids()) {\n			true => Err(\"Candidates and runners up sets should always be disjoint\".into()),\n			false => Ok(()),\n		}", "		let candidates = Self::candidates_ids();\n		let runners_up = Self::runners_up_ids();\n		frame_support::ensure!(!Self::intersects(&candidates, &runners_up), \"Candidates and runners up sets should always be disjoint\");\n		Ok(())"))
R("t13-members-if", (E, "		match Self::intersects(&Pallet::<T>::members_ids(), &Self::candidates_ids()) ||\n			Self::intersects(&Pallet::<T>::members_ids(), &Self::runners_up_ids())\n		{\n			true => Err(\"Members set should be disjoint from candidates and runners-up sets\".into()),\n			false => Ok(()),\n		}", "		let members = Self::members_ids();\n		let others = [Self::candidates_ids(), Self::runners_up_ids()];\n		if others.iter().any(|o| Self::intersects(&members, o)) {\n			return Err(\"Members set should be disjoint from candidates and runners-up sets\".into());\n		}\n		Ok(())"))
R("t13-members-two", (E, "		match Self::intersects(&Pallet::<T>::members_ids(), &Self::candidates_ids()) ||\n			Self::intersects(&Pallet::<T>::members_ids(), &Self::runners_up_ids())\n		{\n			true => Err(\"Members set should be disjoint from candidates and runners-up sets\".into()),\n			false => Ok(()),\n		}", "		const MESSAGE: &str = \"Members set should be disjoint from candidates and runners-up sets\";\n		let members = Self::members_ids();\n		if Self::intersects(&members, &Self::candidates_ids()) {\n			return Err(MESSAGE.into());\n		}\n		if Self::intersects(&members, &Self::runners_up_ids()) {\n			return Err(MESSAGE.into());\n		}\n		Ok(())"))
R("t13-stake-any", (E, "		match Members::<T>::get().iter().chain(RunnersUp::<T>::get().iter()).all(|s| s.stake != BalanceOf::<T>::zero())\n		{\n			true => Ok(()),\n			false => Err(\"Members and RunnersUp must have approval stake\".into()),\n		}", "		let unbacked = |s: &SeatHolder<T::AccountId, BalanceOf<T>>| s.stake.is_zero();\n		if Members::<T>::get().iter().any(unbacked) || RunnersUp::<T>::get().iter().any(unbacked) {\n			return Err(\"Members and RunnersUp must have approval stake\".into());\n		}\n		Ok(())"))
R("t13-stake-loop", (E, "		match Members::<T>::get().iter().chain(RunnersUp::<T>::get().iter()).all(|s| s.stake != BalanceOf::<T>::zero())\n		{\n			true => Ok(()),\n			false => Err(\"Members and RunnersUp must have approval stake\".into()),\n		}", "		for seat in Members::<T>::get().into_iter().chain(RunnersUp::<T>::get()) {\n			frame_support::ensure!(!seat.stake.is_zero(), \"Members and RunnersUp must have approval stake\");\n		}\n		Ok(())"))
R("t13-stake-extend", (E, "		match Members::<T>::get().iter().chain(RunnersUp::<T>::get().iter()).all(|s| s.stake != BalanceOf::<T>::zero())\n		{", "		let mut seats = Members::<T>::get();\n		seats.extend(RunnersUp::<T>::get());\n		match seats.iter().all(|s| s.stake > Zero::zero()) {"))
R("t13-intersects-loop", (E, "		a.iter().any(|e| b.contains(e))\n", "		for e in a {\n			if b.iter().any(|x| x == e) {\n				return true;\n			}\n		}\n		false\n"))
R("t13-intersects-find", (E, "		a.iter().any(|e| b.contains(e))\n", "		a.iter().find(|e| b.contains(*e)).is_some()\n"))
R("t13-intersects-all", (E, "		a.iter().any(|e| b.contains(e))\n", "		!a.iter().all(|e| !b.contains(e))\n"))
R("t13-ids-into", (E, "		Pallet::<T>::candidates().iter().map(|(x, _)| x).cloned().collect::<Vec<_>>()\n", "		let mut ids = Vec::new();\n		for (who, _) in Candidates::<T>::get() {\n			ids.push(who);\n		}\n		ids\n"))
R("t13-ids-unzip", (E, "		Pallet::<T>::candidates().iter().map(|(x, _)| x).cloned().collect::<Vec<_>>()\n", "		let (ids, _): (Vec<_>, Vec<_>) = Candidates::<T>::get().into_iter().unzip();\n		ids\n"))
R("t13-try-and-then", (E, "		Self::try_state_members()?;\n		Self::try_state_runners_up()?;\n		Self::try_state_candidates()?;\n		Self::try_state_candidates_runners_up_disjoint()?;\n		Self::try_state_members_disjoint()?;\n		Self::try_state_members_approval_stake()\n", "		Self::try_state_members()\n			.and_then(|_| Self::try_state_runners_up())\n			.and_then(|_| Self::try_state_candidates())\n			.and_then(|_| Self::try_state_members_approval_stake())\n			.and_then(|_| Self::try_state_candidates_runners_up_disjoint())\n			.and_then(|_| Self::try_state_members_disjoint())\n"))
R("t13-try-list", (E, "		Self::try_state_members()?;\n		Self::try_state_runners_up()?;\n		Self::try_state_candidates()?;\n		Self::try_state_candidates_runners_up_disjoint()?;\n		Self::try_state_members_disjoint()?;\n		Self::try_state_members_approval_stake()\n", "		for check in [\n			Self::try_state_members,\n			Self::try_state_runners_up,\n			Self::try_state_candidates,\n			Self::try_state_candidates_runners_up_disjoint,\n			Self::try_state_members_disjoint,\n			Self::try_state_members_approval_stake,\n		] {\n			check()?;\n		}\n		Ok(())\n"))
R("t13-sorted-ensure", (E, "		let mut members = Members::<T>::get().clone();\n		members.sort_by_key(|m| m.who.clone());\n\n		if Members::<T>::get() == members {\n			Ok(())\n		} else {\n			Err(\"try_state checks: Members must be always sorted by account ID\".into())\n		}", "		let members = Members::<T>::get();\n		let mut sorted = members.clone();\n		sorted.sort_by(|a, b| a.who.cmp(&b.who));\n		frame_support::ensure!(sorted == members, \"try_state checks: Members must be always sorted by account ID\");\n		Ok(())"))
R("t13-sorted-windows", (E, "		let mut members = Members::<T>::get().clone();\n		members.sort_by_key(|m| m.who.clone());\n\n		if Members::<T>::get() == members {\n			Ok(())\n		} else {\n			Err(\"try_state checks: Members must be always sorted by account ID\".into())\n		}", "		if Members::<T>::get().windows(2).all(|w| w[0].who <= w[1].who) {\n			Ok(())\n		} else {\n			Err(\"try_state checks: Members must be always sorted by account ID\".into())\n		}"))
R("t13-sorted-is", (E, "		let mut candidates = Candidates::<T>::get().clone();\n		candidates.sort_by_key(|(c, _)| c.clone());\n\n		if Candidates::<T>::get() == candidates {", "		if Candidates::<T>::get().iter().map(|(c, _)| c).is_sorted() {"))
R("t13-sorted-runners", (E, "		let mut sorted = RunnersUp::<T>::get();\n		// worst stake first\n		sorted.sort_by(|a, b| a.stake.cmp(&b.stake));\n\n		if RunnersUp::<T>::get() == sorted {\n			Ok(())\n		} else {\n			Err(", "		let stored = Self::runners_up();\n		let sorted = {\n			let mut s = stored.clone();\n			s.sort_by_key(|r| r.stake);\n			s\n		};\n		if stored != sorted {\n			return Err(\"try_state checks: Runners Up must always be sorted by stake (worst to best)\".into());\n		}\n		if true {\n			Ok(())\n		} else {\n			Err("))
# --- tally
ADD = "				let Delegations { votes, capital } = vote.conviction.votes(balance);\n				self.turnout = self.turnout.checked_add(&capital)?;\n				match vote.aye {\n					true => self.ayes = self.ayes.checked_add(&votes)?,\n					false => self.nays = self.nays.checked_add(&votes)?,\n				}\n"
REM = ADD.replace("checked_add", "checked_sub")
SADD = "				let aye = Conviction::None.votes(aye);\n				let nay = Conviction::None.votes(nay);\n				self.turnout = self.turnout.checked_add(&aye.capital)?.checked_add(&nay.capital)?;\n				self.ayes = self.ayes.checked_add(&aye.votes)?;\n				self.nays = self.nays.checked_add(&nay.votes)?;\n"
SREM = SADD.replace("checked_add", "checked_sub")
R("y13-add-slot", (T, ADD, "				let Delegations { votes, capital } = vote.conviction.votes(balance);\n				self.turnout = self.turnout.checked_add(&capital)?;\n				let side = if vote.aye { &mut self.ayes } else { &mut self.nays };\n				*side = side.checked_add(&votes)?;\n"))
R("y13-add-if", (T, ADD, "				let d = vote.conviction.votes(balance);\n				self.turnout = self.turnout.checked_add(&d.capital)?;\n				if vote.aye {\n					self.ayes = self.ayes.checked_add(&d.votes)?;\n				} else {\n					self.nays = self.nays.checked_add(&d.votes)?;\n				}\n"))
R("y13-add-tally", (T, ADD, "				let new = Self::new(vote, balance);\n				self.turnout = self.turnout.checked_add(&new.turnout)?;\n				if vote.aye {\n					self.ayes = self.ayes.checked_add(&new.ayes)?;\n				} else {\n					self.nays = self.nays.checked_add(&new.nays)?;\n				}\n"))
R("y13-add-helper", (T, SADD, "				self.put_in(Conviction::None.votes(aye), Conviction::None.votes(nay))?;\n"), (T, "	/// Increment some amount of votes.\n", "	fn put_in(&mut self, aye: Delegations<Balance>, nay: Delegations<Balance>) -> Option<()> {\n		self.turnout = self.turnout.checked_add(&aye.capital)?.checked_add(&nay.capital)?;\n		self.ayes = self.ayes.checked_add(&aye.votes)?;\n		self.nays = self.nays.checked_add(&nay.votes)?;\n		Some(())\n	}\n\n	/// Increment some amount of votes.\n"))
R("y13-remove-order", (T, SREM, "				let (aye, nay) = (Conviction::None.votes(aye), Conviction::None.votes(nay));\n				let turnout = self.turnout.checked_sub(&aye.capital).and_then(|t| t.checked_sub(&nay.capital))?;\n				self.turnout = turnout;\n				self.ayes = self.ayes.checked_sub(&aye.votes)?;\n				self.nays = self.nays.checked_sub(&nay.votes)?;\n"))
R("y13-remove-let-else", (T, REM, "				let Delegations { votes, capital } = vote.conviction.votes(balance);\n				let Some(turnout) = self.turnout.checked_sub(&capital) else { return None };\n				self.turnout = turnout;\n				match vote.aye {\n					true => self.ayes = self.ayes.checked_sub(&votes)?,\n					false => self.nays = self.nays.checked_sub(&votes)?,\n				}\n"))
R("y13-reduce-if", (T, "		self.turnout = self.turnout.saturating_sub(delegations.capital);\n		match approve {\n			true => self.ayes = self.ayes.saturating_sub(delegations.votes),\n			false => self.nays = self.nays.saturating_sub(delegations.votes),\n		}\n", "		let (ayes, nays) = match approve {\n			true => (self.ayes.saturating_sub(delegations.votes), self.nays),\n			false => (self.ayes, self.nays.saturating_sub(delegations.votes)),\n		};\n		*self = Self { ayes, nays, turnout: self.turnout.saturating_sub(delegations.capital) };\n"))
R("y13-new-match", (T, "		Self {\n			ayes: if vote.aye { votes } else { Zero::zero() },\n			nays: if vote.aye { Zero::zero() } else { votes },\n			turnout: capital,\n		}\n", "		let (ayes, nays) = if vote.aye { (votes, Zero::zero()) } else { (Zero::zero(), votes) };\n		Self { ayes, nays, turnout: capital }\n"))
R("y13-status-inline", (T, "		let s = ReferendumStatus { end, proposal, threshold, delay, tally: Tally::default() };\n		ReferendumInfo::Ongoing(s)\n", "		Self::Ongoing(ReferendumStatus { tally: Default::default(), delay, threshold, proposal, end })\n"))
# --- voting
R("y13-locked-loop", (V, "				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),\n", "			{\n				let mut needed = prior.locked();\n				for (_, vote) in votes.iter() {\n					needed = needed.max(vote.balance());\n				}\n				needed\n			},\n"))
R("y13-locked-max", (V, "				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),\n", "				votes.iter().map(|(_, v)| v.balance()).chain(core::iter::once(prior.locked())).max().unwrap_or_else(Zero::zero),\n"))
R("y13-locked-max2", (V, "				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),\n", "				votes.iter().map(|(_, v)| v.balance()).max().map_or(prior.locked(), |m| m.max(prior.locked())),\n"))
R("y13-locked-ord", (V, "				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),\n", "				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), Ord::max),\n"))
R("y13-locked-deleg", (V, "			Voting::Delegating { balance, prior, .. } => *balance.max(&prior.locked()),\n", "			Voting::Delegating { balance, prior, .. } => {\n				let before = prior.locked();\n				if *balance > before { *balance } else { before }\n			},\n"))
R("y13-rejig-two", (V, "		match self {\n			Voting::Direct { prior, .. } => prior,\n			Voting::Delegating { prior, .. } => prior,\n		}\n		.rejig(now);\n", "		let (Voting::Direct { prior, .. } | Voting::Delegating { prior, .. }) = self;\n		prior.rejig(now)\n"))
R("y13-rejig-default", (V, "		if now >= self.0 {\n			self.0 = Zero::zero();\n			self.1 = Zero::zero();\n		}\n", "		let PriorLock(until, _) = *self;\n		if until > now {\n			return;\n		}\n		*self = PriorLock(Zero::zero(), Zero::zero());\n"))
R("y13-accumulate-new", (V, "		self.0 = self.0.max(until);\n		self.1 = self.1.max(amount);\n", "		*self = Self(self.0.max(until), self.1.max(amount));\n"))
R("y13-accumulate-if", (V, "		self.0 = self.0.max(until);\n		self.1 = self.1.max(amount);\n", "		if until > self.0 {\n			self.0 = until;\n		}\n		if self.1 < amount {\n			self.1 = amount;\n		}\n"))
R("y13-common-arms", (V, "		let (d, p) = match self {\n			Voting::Direct { ref mut delegations, ref mut prior, .. } => (delegations, prior),\n			Voting::Delegating { ref mut delegations, ref mut prior, .. } => (delegations, prior),\n		};\n		*d = delegations;\n		*p = prior;\n", "		match self {\n			Voting::Direct { delegations: d, prior: p, .. } | Voting::Delegating { delegations: d, prior: p, .. } => {\n				*d = delegations;\n				*p = prior;\n			},\n		}\n"))
R("y13-standard-let", (V, "		match self {\n			AccountVote::Standard { vote, .. } => Some(vote.aye),\n			_ => None,\n		}\n", "		if let AccountVote::Standard { vote: Vote { aye, .. }, .. } = self {\n			return Some(aye);\n		}\n		None\n"))
R("y13-default-spelled", (V, "			votes: Default::default(),\n			delegations: Default::default(),\n			prior: PriorLock(Zero::zero(), Default::default()),\n", "			votes: BoundedVec::default(),\n			delegations: Delegations::default(),\n			prior: PriorLock(BlockNumber::zero(), Balance::default()),\n"))
# --- democracy
R("d13-backing-match", (D, "		Self::deposit_of(proposal).map(|(l, d)| d.saturating_mul((l.len() as u32).into()))\n", "		let (backers, deposit) = DepositOf::<T>::get(proposal)?;\n		let count = backers.len() as u32;\n		Some(deposit.saturating_mul(count.into()))\n"))
R("d13-maturing-loop", (D, "		range\n			.into_iter()\n			.map(|i| (i, Self::referendum_info(i)))\n			.filter_map(|(i, maybe_info)| match maybe_info {\n				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),\n				_ => None,\n			})\n			.filter(|(_, status)| status.end == n)\n			.collect()\n", "		let mut due = Vec::new();\n		for i in range {\n			if let Some(ReferendumInfo::Ongoing(status)) = ReferendumInfoOf::<T>::get(i) {\n				if status.end == n {\n					due.push((i, status));\n				}\n			}\n		}\n		due\n"))
R("d13-maturing-guard", (D, "			.map(|i| (i, Self::referendum_info(i)))\n			.filter_map(|(i, maybe_info)| match maybe_info {\n				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),\n				_ => None,\n			})\n			.filter(|(_, status)| status.end == n)\n", "			.filter_map(|i| match Self::referendum_info(i)? {\n				ReferendumInfo::Ongoing(status) if status.end == n => Some((i, status)),\n				_ => None,\n			})\n"))
R("d13-maturing-status", (D, "			.map(|i| (i, Self::referendum_info(i)))\n			.filter_map(|(i, maybe_info)| match maybe_info {\n				Some(ReferendumInfo::Ongoing(status)) => Some((i, status)),\n				_ => None,\n			})\n", "			.filter_map(|i| Self::referendum_status(i).ok().map(|status| (i, status)))\n"))
R("d13-start-end", (D, "		<Pallet<T>>::inject_referendum(\n			<frame_system::Pallet<T>>::block_number().saturating_add(T::VotingPeriod::get()),\n			proposal,\n			threshold,\n			delay,\n		)\n", "		let now = frame_system::Pallet::<T>::block_number();\n		let end = now.saturating_add(T::VotingPeriod::get());\n		Self::inject_referendum(end, proposal, threshold, delay)\n"))
R("d13-inject-mutate", (D, "		let ref_index = Self::referendum_count();\n		ReferendumCount::<T>::put(ref_index + 1);\n", "		let ref_index = ReferendumCount::<T>::mutate(|count| {\n			let index = *count;\n			*count += 1;\n			index\n		});\n"))
R("d13-inject-new", (D, "		let status = ReferendumStatus { end, proposal, threshold, delay, tally: Default::default() };\n		let item = ReferendumInfo::Ongoing(status);\n		<ReferendumInfoOf<T>>::insert(ref_index, item);\n", "		ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::new(end, proposal, threshold.clone(), delay));\n"))
R("d13-undelegate-take", (D, "			let mut old = Voting::default();\n			sp_std::mem::swap(&mut old, voting);\n			match old {\n				Voting::Delegating { balance, target, conviction, delegations, mut prior } => {\n					// remove any delegation votes to our current target.\n", "			let old = sp_std::mem::take(voting);\n			match old {\n				Voting::Delegating { balance, target, conviction, delegations, mut prior } => {\n"))
R("d13-undelegate-else", (D, "			let mut old = Voting::default();\n			sp_std::mem::swap(&mut old, voting);\n			match old {\n				Voting::Delegating { balance, target, conviction, delegations, mut prior } => {\n					// remove any delegation votes to our current target.\n					let votes = Self::reduce_upstream_delegation(&target, conviction.votes(balance));\n					let now = frame_system::Pallet::<T>::block_number();\n					let lock_periods = conviction.lock_periods().into();\n					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));\n					prior.accumulate(unlock_block, balance);\n					voting.set_common(delegations, prior);\n\n					Ok(votes)\n				},\n				Voting::Direct { .. } => Err(Error::<T>::NotDelegating.into()),\n			}\n", "			let Voting::Delegating { balance, target, conviction, delegations, mut prior } = voting.clone() else {\n				return Err(Error::<T>::NotDelegating.into());\n			};\n			let votes = Self::reduce_upstream_delegation(&target, conviction.votes(balance));\n			let locked_for = T::VoteLockingPeriod::get().saturating_mul(conviction.lock_periods().into());\n			prior.accumulate(frame_system::Pallet::<T>::block_number().saturating_add(locked_for), balance);\n			*voting = Voting::default();\n			voting.set_common(delegations, prior);\n			Ok(votes)\n"))
R("d13-undelegate-direct", (D, "					voting.set_common(delegations, prior);\n\n					Ok(votes)\n				},\n				Voting::Direct { .. } => Err(Error::<T>::NotDelegating.into()),", "					*voting = Voting::Direct { votes: Default::default(), delegations, prior };\n\n					Ok(votes)\n				},\n				Voting::Direct { .. } => Err(Error::<T>::NotDelegating.into()),"))
R("d13-lock-match", (D, "		if lock_needed.is_zero() {\n			T::Fungible::thaw(&FreezeReason::Vote.into(), who)\n		} else {\n			T::Fungible::set_freeze(&FreezeReason::Vote.into(), who, lock_needed)\n		}\n", "		let reason = FreezeReason::Vote.into();\n		match lock_needed {\n			needed if needed.is_zero() => T::Fungible::thaw(&reason, who),\n			needed => T::Fungible::set_freeze(&reason, who, needed),\n		}\n"))
R("d13-lock-get", (D, "		let lock_needed = VotingOf::<T>::mutate(who, |voting| {\n			voting.rejig(frame_system::Pallet::<T>::block_number());\n			voting.locked_balance()\n		});\n", "		let mut voting = VotingOf::<T>::get(who);\n		voting.rejig(frame_system::Pallet::<T>::block_number());\n		let lock_needed = voting.locked_balance();\n		VotingOf::<T>::insert(who, voting);\n"))
R("d13-next-if", (D, "		if LastTabledWasExternal::<T>::take() {\n			Self::launch_public(now).or_else(|_| Self::launch_external(now))\n		} else {\n			Self::launch_external(now).or_else(|_| Self::launch_public(now))\n		}\n		.map_err(|_| Error::<T>::NoneWaiting.into())\n", "		let public_first = LastTabledWasExternal::<T>::take();\n		let first = if public_first { Self::launch_public(now) } else { Self::launch_external(now) };\n		if first.is_ok() {\n			return Ok(());\n		}\n		let second = if public_first { Self::launch_external(now) } else { Self::launch_public(now) };\n		match second {\n			Ok(()) => Ok(()),\n			Err(_) => Err(Error::<T>::NoneWaiting.into()),\n		}\n"))
R("d13-next-fns", (D, "		if LastTabledWasExternal::<T>::take() {\n			Self::launch_public(now).or_else(|_| Self::launch_external(now))\n		} else {\n			Self::launch_external(now).or_else(|_| Self::launch_public(now))\n		}\n		.map_err(|_| Error::<T>::NoneWaiting.into())\n", "		type Launch<T> = fn(BlockNumberFor<T>) -> DispatchResult;\n		let (first, second): (Launch<T>, Launch<T>) = if LastTabledWasExternal::<T>::take() {\n			(Self::launch_public, Self::launch_external)\n		} else {\n			(Self::launch_external, Self::launch_public)\n		};\n		first(now).or_else(|_| second(now)).map_err(|_| Error::<T>::NoneWaiting.into())\n"))
R("d13-external-else", (D, "		if let Some((proposal, threshold)) = <NextExternal<T>>::take() {\n			LastTabledWasExternal::<T>::put(true);\n			Self::deposit_event(Event::<T>::ExternalTabled);\n			let ref_index = Self::inject_referendum(\n				now.saturating_add(T::VotingPeriod::get()),\n				proposal,\n				threshold,\n				T::EnactmentPeriod::get(),\n			);\n			Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(ref_index));\n			Ok(())\n		} else {\n			return Err(Error::<T>::NoneWaiting.into());\n		}\n", "		let (proposal, threshold) = NextExternal::<T>::take().ok_or(Error::<T>::NoneWaiting)?;\n		Self::deposit_event(Event::<T>::ExternalTabled);\n		let end = now.saturating_add(T::VotingPeriod::get());\n		let ref_index = Self::inject_referendum(end, proposal, threshold, T::EnactmentPeriod::get());\n		LastTabledWasExternal::<T>::put(true);\n		Self::transfer_metadata(MetadataOwner::External, MetadataOwner::Referendum(ref_index));\n		Ok(())\n"))
R("d13-external-start", (D, "			let ref_index = Self::inject_referendum(\n				now.saturating_add(T::VotingPeriod::get()),\n				proposal,\n				threshold,\n				T::EnactmentPeriod::get(),\n			);\n			Self::transfer_metadata(MetadataOwner::External, ", "			let (voting, enactment) = (T::VotingPeriod::get(), T::EnactmentPeriod::get());\n			let ref_index = Self::inject_referendum(now.saturating_add(voting), proposal, threshold, enactment);\n			Self::transfer_metadata(MetadataOwner::External, "))
R("d13-clear-let", (D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });\n		}\n", "		let Some(hash) = MetadataOf::<T>::get(&owner) else { return };\n		MetadataOf::<T>::remove(&owner);\n		Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });\n"))
R("d13-clear-each", (D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			Self::deposit_event(Event::<T>::MetadataCleared { owner, hash });\n		}\n", "		MetadataOf::<T>::take(&owner).into_iter().for_each(|hash| Self::deposit_event(Event::<T>::MetadataCleared { owner: owner.clone(), hash }));\n"))
R("d13-ensure-external", (D, "		match threshold {\n			VoteThreshold::SuperMajorityApprove => {\n				let _ = T::ExternalOrigin::ensure_origin(origin)?;\n			},\n			VoteThreshold::SuperMajorityAgainst => {\n				let _ = T::ExternalDefaultOrigin::ensure_origin(origin)?;\n			},\n			VoteThreshold::SimpleMajority => {\n				let _ = T::ExternalMajorityOrigin::ensure_origin(origin)?;\n			},\n		};\n		Ok(())\n", "		match threshold {\n			VoteThreshold::SuperMajorityApprove => T::ExternalOrigin::ensure_origin(origin).map(|_| ()),\n			VoteThreshold::SuperMajorityAgainst => T::ExternalDefaultOrigin::ensure_origin(origin).map(drop),\n			VoteThreshold::SimpleMajority => T::ExternalMajorityOrigin::ensure_origin(origin).and(Ok(())),\n		}\n"))
R("d13-proposal-position", (D, "		PublicProps::<T>::get()\n			.into_iter()\n			.find(|(prop_index, _, _)| prop_index == &index)\n			.ok_or(Error::<T>::ProposalMissing)\n", "		for prop in PublicProps::<T>::get() {\n			if prop.0 == index {\n				return Ok(prop);\n			}\n		}\n		Err(Error::<T>::ProposalMissing)\n"))
R("d13-compact-map", (D, "	match parity_scale_codec::Compact::<u32>::decode(&mut input) {\n		Ok(c) => Some(c.0),\n		Err(_) => {\n			sp_runtime::print(\"Failed to decode compact u32 at:\");\n			sp_runtime::print(key);\n			None\n		},\n	}\n", "	let decoded = parity_scale_codec::Compact::<u32>::decode(&mut input).ok();\n	if decoded.is_none() {\n		sp_runtime::print(\"Failed to decode compact u32 at:\");\n		sp_runtime::print(key);\n	}\n	decoded.map(|c| c.0)\n"))
R("d13-begin-first", (D, "		let next = Self::lowest_unbaked();\n		let last = Self::referendum_count();\n		let r = last.saturating_sub(next);\n\n		// pick out", "		let (next, last) = (LowestUnbaked::<T>::get(), ReferendumCount::<T>::get());\n		let r = last.saturating_sub(next);\n\n		// pick out"))
R("d13-begin-while", (D, "		<LowestUnbaked<T>>::mutate(|ref_index| {\n			while *ref_index < last &&\n				Self::referendum_info(*ref_index)\n					.map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))\n			{\n				*ref_index += 1\n			}\n		});\n", "		let mut lowest = LowestUnbaked::<T>::get();\n		while lowest < last {\n			if let Some(ReferendumInfo::Ongoing(_)) = Self::referendum_info(lowest) {\n				break;\n			}\n			lowest += 1;\n		}\n		LowestUnbaked::<T>::put(lowest);\n"))
R("d13-begin-find", (D, "		<LowestUnbaked<T>>::mutate(|ref_index| {\n			while *ref_index < last &&\n				Self::referendum_info(*ref_index)\n					.map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))\n			{\n				*ref_index += 1\n			}\n		});\n", "		<LowestUnbaked<T>>::mutate(|ref_index| {\n			while *ref_index < last {\n				match Self::referendum_info(*ref_index) {\n					None | Some(ReferendumInfo::Finished { .. }) => *ref_index += 1,\n					Some(ReferendumInfo::Ongoing(..)) => return,\n				}\n			}\n		});\n"))

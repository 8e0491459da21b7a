exec(open("tools/batches/r7.py").read().split("# weights")[0])
# loops rewritten
CP = "				for who in whos.into_iter() {\n					T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0);\n				}\n			}\n			Self::deposit_event(Event::<T>::ProposalCanceled"
TAIL = "\n			}\n			Self::deposit_event(Event::<T>::ProposalCanceled"
ONE = "T::Slash::on_unbalanced(T::Fungible::slash(&HoldReason::Proposal.into(), %s, amount).0);"
R("l10-cp-index", (D, CP, "				for i in 0..whos.len() {\n					" + ONE % "&whos[i]" + "\n				}" + TAIL))
R("l10-cp-while", (D, CP, "				let mut i = 0usize;\n				while i < whos.len() {\n					let who = &whos[i];\n					" + ONE % "who" + "\n					i += 1;\n				}" + TAIL))
R("l10-cp-while-n", (D, CP, "				let n = whos.len();\n				let mut i = 0usize;\n				while i < n {\n					" + ONE % "&whos[i]" + "\n					i = i.saturating_add(1);\n				}" + TAIL))
R("l10-cp-loop", (D, CP, "				let mut i = 0usize;\n				loop {\n					if i >= whos.len() {\n						break;\n					}\n					" + ONE % "&whos[i]" + "\n					i += 1;\n				}" + TAIL))
R("l10-cp-get", (D, CP, "				let mut i = 0usize;\n				while let Some(who) = whos.get(i) {\n					" + ONE % "who" + "\n					i += 1;\n				}" + TAIL))
R("l10-cp-next", (D, CP, "				let mut rest = whos.into_iter();\n				while let Some(who) = rest.next() {\n					" + ONE % "&who" + "\n				}" + TAIL))
R("l10-cp-pop", (D, CP, "				whos.into_iter().for_each(|who| " + (ONE % "&who")[:-1] + ");" + TAIL))
R("l10-cp-two", (D, CP, "				let taken = whos.into_iter().map(|who| T::Fungible::slash(&HoldReason::Proposal.into(), &who, amount).0).collect::<sp_std::vec::Vec<_>>();\n				taken.into_iter().for_each(T::Slash::on_unbalanced);" + TAIL))
R("l10-cp-option", (D, "			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {\n" + CP, "			for (whos, amount) in DepositOf::<T>::take(prop_index) {\n				for who in whos {\n					" + ONE % "&who" + "\n				}" + TAIL))
R("l10-cp-flat", (D, "			if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {\n" + CP, "			for (who, amount) in DepositOf::<T>::take(prop_index).into_iter().flat_map(|(whos, amount)| whos.into_iter().map(move |who| (who, amount))) {\n					" + ONE % "&who" + TAIL))
RF = "				for d in depositors.iter() {\n					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;\n				}\n"
R("l10-rf-try", (D, RF, "				depositors.iter().try_for_each(|d| T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort).map(|_| ()))?;\n"))
R("l10-rf-fold", (D, RF, "				depositors.iter().try_fold((), |_, d| T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort).map(drop))?;\n"))
R("l10-rf-match", (D, RF, "				for i in 0..depositors.len() {\n					match T::Fungible::release(&HoldReason::Proposal.into(), &depositors[i], deposit, Precision::BestEffort) {\n						Ok(_) => continue,\n						Err(e) => return Err(e),\n					}\n				}\n"))
R("l10-rf-collect", (D, RF, "				depositors\n					.iter()\n					.map(|d| T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort))\n					.collect::<Result<sp_std::vec::Vec<_>, _>>()?;\n"))
DL = "				*delegations = delegations.saturating_add(amount);\n				for &(ref_index, account_vote) in votes.iter() {\n					if let AccountVote::Standard { vote, .. } = account_vote {\n						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {\n							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {\n								status.tally.increase(vote.aye, amount);\n							}\n						});\n					}\n				}\n"
R("l10-dl-index", (D, DL, DL.replace("for &(ref_index, account_vote) in votes.iter() {", "for i in 0..votes.len() {\n					let (ref_index, account_vote) = votes[i];")))
R("l10-dl-filter", (D, DL, DL.replace("for &(ref_index, account_vote) in votes.iter() {\n					if let AccountVote::Standard { vote, .. } = account_vote {", "for (ref_index, vote) in votes.iter().filter_map(|(r, v)| if let AccountVote::Standard { vote, .. } = v { Some((*r, *vote)) } else { None }) {\n					{")))
R("l10-dl-continue", (D, DL, DL.replace("if let AccountVote::Standard { vote, .. } = account_vote {", "let AccountVote::Standard { vote, .. } = account_vote else { continue };\n					{")))
R("l10-dl-while", (D, DL, DL.replace("for &(ref_index, account_vote) in votes.iter() {", "let mut at = 0;\n				while at < votes.len() {\n					let (ref_index, account_vote) = votes[at];\n					at += 1;")))
MA = "		for (index, info) in Self::maturing_referenda_at_inner(now, next..last).into_iter() {\n"
R("l10-ma-index", (D, MA, "		let done = Self::maturing_referenda_at_inner(now, next..last);\n		for i in 0..done.len() {\n			let (index, info) = done[i].clone();\n"))
R("l10-ma-while", (D, MA, "		let mut done = Self::maturing_referenda_at_inner(now, next..last).into_iter();\n		while let Some((index, info)) = done.next() {\n"))
R("l10-lub", (D, "			while *ref_index < last &&\n				Self::referendum_info(*ref_index)\n					.map_or(true, |info| matches!(info, ReferendumInfo::Finished { .. }))\n			{\n				*ref_index += 1\n			}\n", "			loop {\n				if *ref_index >= last {\n					break;\n				}\n				if matches!(Self::referendum_info(*ref_index), Some(ReferendumInfo::Ongoing(_))) {\n					break;\n				}\n				*ref_index += 1;\n			}\n"))
PV = "					for (_, stake, votes) in voters_and_stakes.into_iter() {\n						for (vote_multiplier, who) in votes.iter().enumerate().map(|(vote_position, who)| {\n							((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)\n						}) {\n							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {\n								prime_votes[i].1 =\n									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));\n							}\n						}\n					}\n"
R("l10-pv-index", (E, PV, "					for (_, stake, votes) in voters_and_stakes.into_iter() {\n						for at in 0..votes.len() {\n							let vote_multiplier = (T::MaxVotesPerVoter::get() as usize - at) as u32;\n							if let Ok(i) = prime_votes.binary_search_by_key(&&votes[at], |k| k.0) {\n								prime_votes[i].1 =\n									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));\n							}\n						}\n					}\n"))
R("l10-pv-enum", (E, PV, "					for (_, stake, votes) in voters_and_stakes.iter() {\n						for (at, who) in votes.iter().enumerate() {\n							let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) else { continue };\n							let vote_multiplier = (T::MaxVotesPerVoter::get() as usize - at) as u32;\n							let (_, total) = &mut prime_votes[i];\n							*total = total.saturating_add((*stake).saturating_mul(vote_multiplier.into()));\n						}\n					}\n"))
R("l10-pv-foreach", (E, PV, "					voters_and_stakes.into_iter().for_each(|(_, stake, votes)| {\n						votes.iter().enumerate().for_each(|(at, who)| {\n							let vote_multiplier = (T::MaxVotesPerVoter::get() as usize - at) as u32;\n							if let Ok(i) = prime_votes.binary_search_by_key(&who, |k| k.0) {\n								prime_votes[i].1 =\n									prime_votes[i].1.saturating_add(stake.saturating_mul(vote_multiplier.into()));\n							}\n						});\n					});\n"))
SL = "	for schedule in vesting_schedules {\n"
O = "pallets/on-slash-vesting/src/lib.rs"
R("l10-sl-index", (O, "			for schedule in vesting_schedules {\n", "			for i in 0..vesting_schedules.len() {\n				let schedule = vesting_schedules[i];\n"))
R("l10-sl-while", (O, "			for schedule in vesting_schedules {\n", "			let mut i = 0;\n			while let Some(schedule) = vesting_schedules.get(i) {\n				i += 1;\n"))
R("l10-sl-iter", (O, "			for schedule in vesting_schedules {\n", "			for schedule in vesting_schedules.iter() {\n"))
R("l10-sl-opt", (O, "		if let Some(vesting_schedules) = <Vesting<T>>::get(account) {\n", "		for vesting_schedules in <Vesting<T>>::get(account) {\n"))
LR = "pallets/linear-release/src/lib.rs"
VA = "			for reason in reasons {\n				Self::do_vest(who.clone(), reason)?;\n			}\n			Ok(())\n"
R("l10-va-try", (LR, VA, "			let mut reasons = reasons;\n			reasons.try_for_each(|reason| Self::do_vest(who.clone(), reason))\n"))
R("l10-va-while", (LR, VA, "			let mut reasons = reasons;\n			while let Some(reason) = reasons.next() {\n				Self::do_vest(who.clone(), reason)?;\n			}\n			Ok(())\n"))
R("l10-va-loop", (LR, VA, "			let mut reasons = reasons;\n			loop {\n				match reasons.next() {\n					Some(reason) => Self::do_vest(who.clone(), reason)?,\n					None => return Ok(()),\n				}\n			}\n"))
R("l10-opt-while", (D, "		if let Some(hash) = MetadataOf::<T>::take(&owner) {\n			MetadataOf::<T>::insert(&new_owner, hash);", "		let taken = MetadataOf::<T>::take(&owner);\n		for hash in taken.iter() {\n			MetadataOf::<T>::insert(&new_owner, *hash);"))
R("l10-opt-map", (D, "			if let Some((until, _)) = <Blacklist<T>>::get(proposal.hash()) {\n				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);\n			}\n", "			for (until, _) in <Blacklist<T>>::get(proposal.hash()) {\n				ensure!(<frame_system::Pallet<T>>::block_number() >= until, Error::<T>::ProposalBlacklisted,);\n			}\n"))

exec(open("tools/batches/r7.py").read().split("# weights")[0])
# panics that cannot happen
R("n8-index-expect", (D, "						if let Some(approve) = votes[i].1.as_standard() {\n							status.tally.reduce(approve, *delegations);\n						}\n						ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));\n					},\n					Some(ReferendumInfo::Finished",
  "						if let Some(approve) = votes.get(i).expect(\"just found; qed\").1.as_standard() {\n							status.tally.reduce(approve, *delegations);\n						}\n						ReferendumInfoOf::<T>::insert(ref_index, ReferendumInfo::Ongoing(status));\n					},\n					Some(ReferendumInfo::Finished"))
R("n8-unwrap-some", (D, "		if let Some((proposal, threshold)) = <NextExternal<T>>::take() {\n			LastTabledWasExternal", "		let waiting = <NextExternal<T>>::take();\n		if waiting.is_some() {\n			let (proposal, threshold) = waiting.unwrap();\n			LastTabledWasExternal"))
R("n8-assert", (D, "				votes.remove(i);\n			}\n			Ok(())", "				assert!(i < votes.len());\n				votes.remove(i);\n			}\n			Ok(())"))
R("n8-remove-index", (D, "			PublicProps::<T>::mutate(|props| props.retain(|p| p.0 != prop_index));\n", "			PublicProps::<T>::mutate(|props| {\n				while let Some(at) = props.iter().position(|p| p.0 == prop_index) {\n					props.remove(at);\n				}\n			});\n"))
R("n8-take-slice", (E, "					let mut new_members_sorted_by_id = new_set_with_stake.drain(..split_point).collect::<Vec<_>>();\n", "					let mut new_members_sorted_by_id = new_set_with_stake[..split_point].to_vec();\n					new_set_with_stake.drain(..split_point);\n"))
R("n8-splitoff", (E, "					let mut new_members_sorted_by_id = new_set_with_stake.drain(..split_point).collect::<Vec<_>>();\n", "					let losers = new_set_with_stake.split_off(split_point);\n					let mut new_members_sorted_by_id = new_set_with_stake;\n					let mut new_set_with_stake = losers;\n"))
R("n8-index-loop", (E, "					candidates_and_deposit.iter().for_each(|(c, d)| {\n						if new_members_ids_sorted", "					for at in 0..candidates_and_deposit.len() {\n						let (c, d) = &candidates_and_deposit[at];\n						if new_members_ids_sorted"),
  (E, "							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });\n						}\n					});", "							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });\n						}\n					}"))
R("n8-while-index", (D, "				for d in depositors.iter() {\n					T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;\n				}", "				let mut at = 0;\n				while at < depositors.len() {\n					T::Fungible::release(&HoldReason::Proposal.into(), &depositors[at], deposit, Precision::BestEffort)?;\n					at += 1;\n				}"))
R("n8-pop-expect", (E, "			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {", "			let maybe_next_best = <RunnersUp<T>>::mutate(|r| if r.is_empty() { None } else { Some(r.pop().expect(\"not empty; qed\")) }).map(|next_best| {"))
R("n8-remove-last", (E, "			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {", "			let maybe_next_best = <RunnersUp<T>>::mutate(|r| if r.is_empty() { None } else { let last = r.len() - 1; Some(r.remove(last)) }).map(|next_best| {"))
R("n8-first", (D, "		if let Some((winner_index, _)) = public_props.iter().enumerate().max_by_key(", "		if public_props.is_empty() {\n			return Err(Error::<T>::NoneWaiting.into());\n		}\n		let _first = &public_props[0];\n		if let Some((winner_index, _)) = public_props.iter().enumerate().max_by_key("))
R("n8-unwrap-or", (D, "			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;", "			let found = existing_vetoers.binary_search(&who);\n			ensure!(found.is_err(), Error::<T>::AlreadyVetoed);\n			let insert_position = found.unwrap_err();"))
R("n8-partition", (D, "			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;", "			ensure!(existing_vetoers.binary_search(&who).is_err(), Error::<T>::AlreadyVetoed);\n			let insert_position = existing_vetoers.partition_point(|v| v < &who);"))
R("n8-term", (E, "			if !term_duration.is_zero() && (n % term_duration).is_zero() {\n				Self::do_phragmen()\n			} else {\n				Weight::zero()\n			}", "		if term_duration.is_zero() {\n			return Weight::zero();\n		}\n		if (n % term_duration).is_zero() {\n			Self::do_phragmen()\n		} else {\n			Weight::zero()\n		}"))
R("n8-unreachable", (D, "			ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);\n", "			if !T::InstantAllowed::get() {\n				return Err(Error::<T>::InstantNotAllowed.into());\n			}\n			assert!(T::InstantAllowed::get());\n"))
R("n8-signed-expect", (D, "		let info = ReferendumInfoOf::<T>::get(ref_index);\n		VotingOf", "		let info = ReferendumInfoOf::<T>::contains_key(ref_index).then(|| ReferendumInfoOf::<T>::get(ref_index).expect(\"it is stored; qed\"));\n		VotingOf"))

E = "pallets/elections-phragmen/src/lib.rs"
O = "pallets/on-slash-vesting/src/lib.rs"
D = "pallets/democracy/src/lib.rs"
T = "pallets/democracy/src/types.rs"
V = "pallets/democracy/src/vote.rs"
C = "pallets/democracy/src/conviction.rs"
TH = "pallets/democracy/src/vote_threshold.rs"
REFACS = []
def R(id, *edits, n=1):
    REFACS.append(dict(id=id, edits=edits, n=n))
HOOK = "	/// Ok if the given referendum is active, Err otherwise"
def helper(text):
    return (D, HOOK, text + "\n" + HOOK)
EHOOK = "	/// Run the phragmen election with all required side processes"
def ehelper(text):
    return (E, EHOOK, text + "\n" + EHOOK)
# weights
R("w7-vote-declared", (D, "T::WeightInfo::vote_new().max(T::WeightInfo::vote_existing())", "T::WeightInfo::vote_existing().max(T::WeightInfo::vote_new())"))
R("w7-ext-declared", (D, "T::WeightInfo::external_propose_majority().saturating_add(T::DbWeight::get().reads_writes(1, 1))", "T::DbWeight::get().reads_writes(1, 1).saturating_add(T::WeightInfo::external_propose_majority())"))
R("w7-ext-add", (D, "T::WeightInfo::external_propose_default().saturating_add(T::DbWeight::get().reads_writes(1, 1))", "T::WeightInfo::external_propose_default() + T::DbWeight::get().reads(1) + T::DbWeight::get().writes(1)"))
R("w7-delegate-post", (D, "			Ok(Some(T::WeightInfo::delegate(votes)).into())", "			let used = T::WeightInfo::delegate(votes);\n			Ok(PostDispatchInfo { actual_weight: Some(used), pays_fee: Pays::Yes })"),
  (D, "	weights::Weight,\n", "	dispatch::{Pays, PostDispatchInfo},\n	weights::Weight,\n"))
R("w7-delegate-map", (D, "			let votes = Self::try_delegate(who, to, conviction, balance)?;\n\n			Ok(Some(T::WeightInfo::delegate(votes)).into())", "			Self::try_delegate(who, to, conviction, balance).map(|votes| Some(T::WeightInfo::delegate(votes)).into()).map_err(Into::into)"))
R("w7-undelegate-class", (D, "#[pallet::weight(T::WeightInfo::undelegate(T::MaxVotes::get()))]", "#[pallet::weight((T::WeightInfo::undelegate(T::MaxVotes::get()), DispatchClass::Normal))]"))
R("w7-blacklist-pays", (D, "#[pallet::weight((T::WeightInfo::blacklist(), DispatchClass::Operational))]", "#[pallet::weight((T::WeightInfo::blacklist(), DispatchClass::Operational, Pays::Yes))]"),
  (D, "	weights::Weight,\n", "	dispatch::Pays,\n	weights::Weight,\n"))
R("w7-begin-flags", (D, """		let max_block_weight = T::BlockWeights::get().max_block;
		let mut weight = Weight::zero();
""", """		let mut full = false;
"""), (D, """			if Self::launch_next(now).is_ok() {
				weight = max_block_weight;
			} else {
				weight.saturating_accrue(T::WeightInfo::on_initialize_base_with_launch_period(r));
			}
		} else {
			weight.saturating_accrue(T::WeightInfo::on_initialize_base(r));
		}
""", """			full = Self::launch_next(now).is_ok();
		}
"""), (D, "ReferendumInfo::Finished { end: now, approved });\n			weight = max_block_weight;\n", "ReferendumInfo::Finished { end: now, approved });\n			full = true;\n"),
  (D, """				*ref_index += 1
			}
		});

		weight
""", """				*ref_index += 1
			}
		});

		if full {
			T::BlockWeights::get().max_block
		} else if (now % T::LaunchPeriod::get()).is_zero() {
			T::WeightInfo::on_initialize_base_with_launch_period(r)
		} else {
			T::WeightInfo::on_initialize_base(r)
		}
"""))
R("w7-begin-base", (D, "		let mut weight = Weight::zero();\n", "		let mut weight;\n"), (D, "				weight.saturating_accrue(T::WeightInfo::on_initialize_base_with_launch_period(r));", "				weight = T::WeightInfo::on_initialize_base_with_launch_period(r);"),
  (D, "			weight.saturating_accrue(T::WeightInfo::on_initialize_base(r));", "			weight = T::WeightInfo::on_initialize_base(r);"))
R("w7-begin-match", (D, """			if Self::launch_next(now).is_ok() {
				weight = max_block_weight;
			} else {
				weight.saturating_accrue(T::WeightInfo::on_initialize_base_with_launch_period(r));
			}
""", """			weight = match Self::launch_next(now) {
				Ok(()) => max_block_weight,
				Err(_) => T::WeightInfo::on_initialize_base_with_launch_period(r),
			};
"""))
R("w7-begin-count", (D, "ReferendumInfo::Finished { end: now, approved });\n			weight = max_block_weight;\n		}\n", "ReferendumInfo::Finished { end: now, approved });\n			concluded += 1;\n		}\n		if concluded > 0 {\n			weight = max_block_weight;\n		}\n"),
  (D, "		// tally up votes for any expiring referenda.\n", "		// tally up votes for any expiring referenda.\n		let mut concluded = 0u32;\n"))
R("w7-begin-extend", (D, "		for (index, info) in Self::maturing_referenda_at_inner(now, next..last).into_iter() {\n", "		let maturing = Self::maturing_referenda_at_inner(now, next..last);\n		if !maturing.is_empty() {\n			weight = max_block_weight;\n		}\n		for (index, info) in maturing.into_iter() {\n"),
  (D, "ReferendumInfo::Finished { end: now, approved });\n			weight = max_block_weight;\n", "ReferendumInfo::Finished { end: now, approved });\n"))
R("w7-e-renounce-fn", (E, """#[pallet::weight(match *renouncing {
			Renouncing::Candidate(count) => T::WeightInfo::renounce_candidacy_candidate(count),
			Renouncing::Member => T::WeightInfo::renounce_candidacy_members(),
			Renouncing::RunnerUp => T::WeightInfo::renounce_candidacy_runners_up(),
		})]""", """#[pallet::weight(Pallet::<T>::renounce_weight(renouncing))]"""), ehelper("""	fn renounce_weight(renouncing: &Renouncing) -> Weight {
		match renouncing {
			Renouncing::Member => T::WeightInfo::renounce_candidacy_members(),
			Renouncing::RunnerUp => T::WeightInfo::renounce_candidacy_runners_up(),
			Renouncing::Candidate(count) => T::WeightInfo::renounce_candidacy_candidate(*count),
		}
	}
"""))
R("w7-e-vote-declared", (E, """			T::WeightInfo::vote_more(votes.len() as u32)
			.max(T::WeightInfo::vote_less(votes.len() as u32))
			.max(T::WeightInfo::vote_equal(votes.len() as u32))
""", """			{
				let n = votes.len() as u32;
				T::WeightInfo::vote_equal(n).max(T::WeightInfo::vote_less(n).max(T::WeightInfo::vote_more(n)))
			}
"""))
R("w7-e-vote-post", (E, "			Ok(None::<Weight>.into())\n", "			Ok(().into())\n"))
R("w7-e-kick-weight", (E, """#[pallet::weight(if *rerun_election {
			T::WeightInfo::remove_member_without_replacement()
		} else {
			T::WeightInfo::remove_member_with_replacement()
		})]""", """#[pallet::weight(match rerun_election {
			false => T::WeightInfo::remove_member_with_replacement(),
			true => T::WeightInfo::remove_member_without_replacement(),
		})]"""))
R("w7-e-ph-weights", (E, """		let weight_candidates = candidates_and_deposit.len() as u32;
		let weight_voters = voters_and_votes.len() as u32;
		let weight_edges = num_edges;
""", """		let weight = T::WeightInfo::election_phragmen(
			candidates_and_deposit.len() as u32,
			voters_and_votes.len() as u32,
			num_edges,
		);
"""), (E, "		T::WeightInfo::election_phragmen(weight_candidates, weight_voters, weight_edges)\n", "		weight\n"))
R("w7-e-ph-edges", (E, """				num_edges = num_edges.saturating_add(votes.len() as u32);
				(voter, to_votes(stake), votes)
			})
			.collect::<Vec<_>>();
""", """				(voter, to_votes(stake), votes)
			})
			.collect::<Vec<_>>();
		for (_, _, votes) in voters_and_votes.iter() {
			num_edges = num_edges.saturating_add(votes.len() as u32);
		}
"""))
R("w7-e-ph-edges-fold", (E, """				num_edges = num_edges.saturating_add(votes.len() as u32);
				(voter, to_votes(stake), votes)
			})
			.collect::<Vec<_>>();
""", """				(voter, to_votes(stake), votes)
			})
			.collect::<Vec<_>>();
		let num_edges = voters_and_votes.iter().fold(0u32, |n, (_, _, votes)| n.saturating_add(votes.len() as u32));
"""), (E, "		let mut num_edges: u32 = 0;\n\n", ""))
# events
R("v7-e-renounce-tail", (E, "					Self::remove_and_replace_member(&who, false).map_err(|_| Error::<T>::InvalidRenouncing)?;\n					Self::deposit_event(Event::Renounced { candidate: who });\n", "					Self::remove_and_replace_member(&who, false).map_err(|_| Error::<T>::InvalidRenouncing)?;\n"),
  (E, "						Self::deposit_event(Event::Renounced { candidate: who });\n						Ok(())", "						Ok(())"),
  (E, "					})?;\n				},\n			};\n			Ok(())", "					})?;\n				},\n			};\n			Self::deposit_event(Event::Renounced { candidate: who });\n			Ok(())"), n=2)
R("v7-e-kick-event-clone", (E, "			let _ = Self::remove_and_replace_member(&who, slash_bond)?;\n			Self::deposit_event(Event::MemberKicked { member: who });\n", "			let event = Event::MemberKicked { member: who.clone() };\n			Self::remove_and_replace_member(&who, slash_bond)?;\n			Self::deposit_event(event);\n"))
R("v7-e-slash-event-first", (E, """							let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);
							T::LoserCandidate::on_unbalanced(imbalance);
							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
""", """							Self::deposit_event(Event::CandidateSlashed { candidate: c.clone(), amount: *d });
							T::LoserCandidate::on_unbalanced(T::Currency::slash(&HoldReason::Candidacy.into(), c, *d).0);
"""))
R("v7-e-error-helper", (E, "				Self::deposit_event(Event::ElectionError);\n				return T::DbWeight::get().reads(3 + max_voters as u64);", "				return Self::election_failed(T::DbWeight::get().reads(3 + max_voters as u64));"),
  ehelper("""	fn election_failed(used: Weight) -> Weight {
		Self::deposit_event(Event::ElectionError);
		used
	}
"""))
R("v7-d-blacklist-event-first", (D, """			Self::deposit_event(Event::<T>::Blacklisted { proposal_hash });
			Ok(())
		}

		/// Remove a proposal.""", """			Ok(())
		}

		/// Remove a proposal."""), (D, """			Blacklist::<T>::insert(&proposal_hash, permanent);

			// Remove the queued""", """			Blacklist::<T>::insert(&proposal_hash, permanent);
			Self::deposit_event(Event::<T>::Blacklisted { proposal_hash });

			// Remove the queued"""))
R("v7-d-passed-let", (D, "			Self::deposit_event(Event::<T>::NotPassed { ref_index: index });\n		}\n\n		approved", "			let event = Event::<T>::NotPassed { ref_index: index };\n			Self::deposit_event(event);\n		}\n\n		approved"))
# storage access (C66)
R("a7-delegate-getput", (D, """	fn reduce_upstream_delegation(who: &T::AccountId, amount: Delegations<BalanceOf<T>>) -> u32 {
		VotingOf::<T>::mutate(who, |voting| match voting {""", """	fn reduce_upstream_delegation(who: &T::AccountId, amount: Delegations<BalanceOf<T>>) -> u32 {
		let mut voting = VotingOf::<T>::get(who);
		let count = match &mut voting {"""),
  (D, """								status.tally.reduce(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32
			},
		})
""", """								status.tally.reduce(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32
			},
		};
		VotingOf::<T>::insert(who, voting);
		count
"""))
R("a7-delegate-getput2", (D, """	fn increase_upstream_delegation(who: &T::AccountId, amount: Delegations<BalanceOf<T>>) -> u32 {
		VotingOf::<T>::mutate(who, |voting| match voting {""", """	fn increase_upstream_delegation(who: &T::AccountId, amount: Delegations<BalanceOf<T>>) -> u32 {
		let mut voting = VotingOf::<T>::get(who);
		let count = match &mut voting {"""),
  (D, """								status.tally.increase(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32
			},
		})
""", """								status.tally.increase(vote.aye, amount);
							}
						});
					}
				}
				votes.len() as u32
			},
		};
		VotingOf::<T>::insert(who, voting);
		count
"""))
R("a7-target-known", (D, "		ensure!(balance <= T::Fungible::total_balance(&who), Error::<T>::InsufficientFunds);\n\n		let votes = VotingOf", "		ensure!(balance <= T::Fungible::total_balance(&who), Error::<T>::InsufficientFunds);\n		log_target::<T>(VotingOf::<T>::contains_key(&target));\n\n		let votes = VotingOf"),
  (D, "/// Decode `Compact<u32>` from the trie at given key.", "fn log_target<T: Config>(known: bool) {\n	if !known {\n		frame_support::print(\"delegating to an idle account\");\n	}\n}\n\n/// Decode `Compact<u32>` from the trie at given key."))
# stored types
R("c7-derive-order", (V, "#[derive(Copy, Clone, Eq, PartialEq, Default, RuntimeDebug)]", "#[derive(Clone, Copy, PartialEq, Eq, RuntimeDebug, Default)]"))
R("c7-threshold-derive", (TH, "#[derive(Clone, Copy, PartialEq, Eq, Encode, MaxEncodedLen, Decode, sp_runtime::RuntimeDebug, TypeInfo)]", "#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Clone, Copy, PartialEq, Eq, sp_runtime::RuntimeDebug)]"))
R("c7-type-param", (T, "pub struct Delegations<Balance> {", "pub struct Delegations<B> {"), (T, "	/// The number of votes (this is post-conviction).\n	pub votes: Balance,\n	/// The amount of raw capital, used for the turnout.\n	pub capital: Balance,\n", "	/// The number of votes (this is post-conviction).\n	pub votes: B,\n	/// The amount of raw capital, used for the turnout.\n	pub capital: B,\n"))

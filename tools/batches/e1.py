L = "pallets/elections-phragmen/src/lib.rs"
P = "elections-phragmen"
def T(name, body, b="ExtBuilder::default()"):
    return "#[test]\nfn %s() {\n\t%s.build_and_execute(|| {\n%s\n\t});\n}\n" % (name, b, body)
SEEDS = [
dict(id="e-slash-config", prop="C29", pallet=P,
 edits=[(L, "let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, *d);", "let (imbalance, _) = T::Currency::slash(&HoldReason::Candidacy.into(), c, T::CandidacyBond::get().min(*d));")],
 needs="a candidacy bond that was lowered before the election the candidate loses", breaks="the loser is slashed less than the bond and the rest stays held",
 demo=T("vp_demo_slash", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); }
		for i in 4..=5u64 { assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		CANDIDACY_BOND.with(|v| *v.borrow_mut() = 1);
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(balances(&3), (27, 0));
""")),
dict(id="e-bond-min", prop="C25", pallet=P,
 edits=[(L, "						let SeatHolder { deposit, .. } = runners_up.remove(index);\n", "						let deposit = runners_up.remove(index).deposit.min(T::CandidacyBond::get());\n")],
 needs="a candidacy bond that was lowered between candidacy and renouncing as runner-up", breaks="part of the bond stays held for ever",
 demo=T("vp_demo_bond", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![3]);
		CANDIDACY_BOND.with(|v| *v.borrow_mut() = 1);
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(3), Renouncing::RunnerUp));
		assert_eq!(balances(&3), (30, 0));
""", "ExtBuilder::default().desired_runners_up(1)")),
dict(id="e-lock-slashed", prop="C22", pallet=P,
 edits=[(L, "				ensure!(value >= voter.stake, Error::<T>::LowBalance);", "				ensure!(value >= voter.stake.min(T::Currency::balance(&who)), Error::<T>::LowBalance);")],
 needs="a bond held or a slash between two votes, the second within the lock", breaks="the stake can be lowered while it is locked",
 demo=T("vp_demo_slashed", """
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![5], 20));
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(2)));
		assert!(vote(RuntimeOrigin::signed(2), vec![5], 17).is_err());
		assert_eq!(has_lock(&2), 20);
""")),
dict(id="e-defunct-window", prop="C23", pallet=P,
 edits=[(L, """				.take(num_voters as usize)
				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_defunct as usize)
""", """				.filter(|(_, x)| Self::is_defunct_voter(&x.votes))
				.take(num_voters as usize)
				.take(num_defunct as usize)
""")],
 needs="more voters than the given window, the defunct ones behind it", breaks="voters beyond the first num_voters are looked at and removed",
 demo=T("vp_demo_window", """
		for i in 1..=6u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); }
		for i in 1..=6u64 { assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], 5)); }
		let all = Voting::<Test>::iter().map(|(v, _)| v).collect::<Vec<_>>();
		// only the last voter in iteration order becomes defunct
		let last = *all.last().unwrap();
		let n = Elections::candidates().len() as u32;
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(last), Renouncing::Candidate(n)));
		assert_ok!(Elections::clean_defunct_voters(RuntimeOrigin::root(), 3, 3));
		assert!(Elections::is_voter(&last));
""")),
dict(id="e-prime-first", prop="C26", pallet=P,
 edits=[(L, "			if &current_prime != who {\n", "			if &current_prime != who && !return_value {\n")],
 needs="a member that is not the prime leaves while a runner-up is waiting", breaks="the prime is lost",
 demo=T("vp_demo_prime", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), vec![4, 5]);
		assert_eq!(PRIME.with(|p| *p.borrow()), Some(5));
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(4), Renouncing::Member));
		assert_eq!(members_ids(), vec![3, 5]);
		assert_eq!(PRIME.with(|p| *p.borrow()), Some(5));
""", "ExtBuilder::default().desired_runners_up(2)")),
dict(id="e-prime-own-length", prop="C31", pallet=P,
 edits=[(L, "((T::MaxVotesPerVoter::get() as usize - vote_position) as u32, who)", "((votes.len() - vote_position) as u32, who)")],
 needs="voters with different numbers of votes", breaks="a vote counts by the length of the voter's own list",
 demo=T("vp_demo_borda", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); }
		// 4 has the larger stake at its first place; 5 wins only if a longer list makes first places worth more
		assert_ok!(vote(RuntimeOrigin::signed(5), vec![4], 40));
		assert_ok!(vote(RuntimeOrigin::signed(4), vec![5, 3], 30));
		assert_ok!(vote(RuntimeOrigin::signed(3), vec![5], 5));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(members_ids(), vec![4, 5]);
		assert_eq!(PRIME.with(|p| *p.borrow()), Some(4));
""")),
dict(id="e-max-voters", prop="C27", pallet=P,
 edits=[(L, "			if voters_and_stakes.len() < max_voters {\n", "			if voters_and_stakes.len() <= max_voters {\n")],
 needs="one voter more than the configured maximum", breaks="an election is held with too many voters",
 demo=T("vp_demo_voters", """
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		for i in 0..1001u64 { Voting::<Test>::insert(1000 + i, Voter { votes: vec![5], stake: 10, lockup_till: 1 }); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert!(members_ids().is_empty());
		assert_eq!(candidate_ids(), vec![5]);
""")),
dict(id="e-rerun-first", prop="C32", pallet=P,
 edits=[(L, """			let _ = Self::remove_and_replace_member(&who, slash_bond)?;
			Self::deposit_event(Event::MemberKicked { member: who });

			if rerun_election {
				Self::do_phragmen();
			}
""", """			let replaced = Self::remove_and_replace_member(&who, slash_bond)?;
			Self::deposit_event(Event::MemberKicked { member: who });

			if rerun_election && !replaced {
				Self::do_phragmen();
			}
""")],
 needs="root removes a member with a re-run while a runner-up is waiting", breaks="the re-run is skipped",
 demo=T("vp_demo_rerun", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(Elections::election_rounds(), 1);
		assert_ok!(Elections::remove_member(RuntimeOrigin::root(), 4, true, true));
		assert_eq!(Elections::election_rounds(), 2);
""", "ExtBuilder::default().desired_runners_up(1)")),
dict(id="e-late-clear", prop="C30", pallet=P,
 edits=[(L, """				Self::deposit_event(Event::ElectionError);
				return T::DbWeight::get().reads(3 + max_voters as u64);""", """				Self::deposit_event(Event::ElectionError);
				<RunnersUp<T>>::kill();
				return T::DbWeight::get().reads(3 + max_voters as u64);""")],
 needs="a term end with more voters than the configured maximum and runners-up present", breaks="the runners-up are forgotten although no election was held",
 demo=T("vp_demo_late", """
		for i in 3..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![3]);
		for i in 0..1001u64 { Voting::<Test>::insert(1000 + i, Voter { votes: vec![5], stake: 10, lockup_till: 1 }); }
		System::set_block_number(10);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![3]);
""", "ExtBuilder::default().desired_runners_up(2)")),
dict(id="e-deposit-lookup", prop="C28", pallet=P,
 edits=[(L, """							.map(|(who, stake)| SeatHolder { deposit: deposit_of_candidate(&who), who, stake })""", """							.zip(old_runners_up_deposits.iter().copied().chain(core::iter::repeat(T::CandidacyBond::get())))
							.map(|((who, stake), kept)| SeatHolder {
								deposit: if old_runners_up_ids_sorted.binary_search(&who).is_ok() { kept } else { deposit_of_candidate(&who) },
								who,
								stake,
							})"""),
   (L, """					let mut old_runners_up_ids_sorted =
						<RunnersUp<T>>::take().into_iter().map(|r| r.who).collect::<Vec<T::AccountId>>();
""", """					let old_runners_up = <RunnersUp<T>>::take();
					let old_runners_up_deposits = old_runners_up.iter().map(|r| r.deposit).collect::<Vec<_>>();
					let mut old_runners_up_ids_sorted =
						old_runners_up.into_iter().map(|r| r.who).collect::<Vec<T::AccountId>>();
""")],
 needs="two runners-up with different bonds that change ranks in a later election", breaks="their recorded bonds are swapped",
 demo=T("vp_demo_deposits", """
		for i in 4..=5u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(2)));
		CANDIDACY_BOND.with(|v| *v.borrow_mut() = 5);
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![2], 15));
		assert_ok!(vote(RuntimeOrigin::signed(3), vec![3], 20));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![2, 3]);
		assert_ok!(vote(RuntimeOrigin::signed(3), vec![3], 10));
		System::set_block_number(10);
		Elections::on_initialize(System::block_number());
		assert_eq!(runners_up_ids(), vec![3, 2]);
		assert_eq!(Elections::runners_up().into_iter().map(|r| r.deposit).collect::<Vec<_>>(), vec![5, 3]);
""", "ExtBuilder::default().desired_runners_up(2)")),
]

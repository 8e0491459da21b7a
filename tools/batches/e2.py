L = "pallets/elections-phragmen/src/lib.rs"
P = "elections-phragmen"
def T(name, body, b="ExtBuilder::default()"):
    return "#[test]\nfn %s() {\n\t%s.build_and_execute(|| {\n%s\n\t});\n}\n" % (name, b, body)
SEEDS = [
dict(id="e-count-hint", prop="C24", pallet=P,
 edits=[(L, "ensure!(actual_count <= <T as Config>::MaxCandidates::get(), Error::<T>::TooManyCandidates);", "ensure!(candidate_count <= <T as Config>::MaxCandidates::get(), Error::<T>::TooManyCandidates);")],
 needs="a caller whose upper bound for the number of candidates is above the permitted maximum", breaks="a candidacy that meets every condition is refused",
 demo=T("vp_demo_hint", """
		assert_ok!(Elections::submit_candidacy(RuntimeOrigin::signed(1), 1_000));
		assert_eq!(Elections::candidates().len(), 1);
""")),
dict(id="e-short-list", prop="C33", pallet=P,
 edits=[(L, "		Self::members_ids()\n	}\n", "		let mut ids = Self::members_ids();\n		ids.truncate(Self::candidates().len().max(T::DesiredMembers::get() as usize / 2 + 1));\n		ids\n	}\n")],
 needs="a full council of at least three seats", breaks="the list of members given to other pallets misses members",
 demo=T("vp_demo_sorted", """
		for i in 3..=6u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_eq!(<Elections as SortedMembers<u64>>::sorted_members(), vec![3, 4, 5, 6]);
""", "ExtBuilder::default().desired_members(4)")),
dict(id="e-state-zip", prop="C62", pallet=P,
 edits=[(L, "		a.iter().any(|e| b.contains(e))\n", "		a.iter().zip(b.iter()).any(|(x, y)| x == y)\n")],
 needs="a member that is also a candidate, at different places of the two lists", breaks="the state check passes on an unsound state",
 demo=T("vp_demo_state", """
		crate::Members::<Test>::put(vec![SeatHolder { who: 4, stake: 1, deposit: 0 }, SeatHolder { who: 5, stake: 1, deposit: 0 }]);
		crate::Candidates::<Test>::put(vec![(5u64, 0u64)]);
		let checked = Elections::do_try_state();
		crate::Members::<Test>::kill();
		crate::Candidates::<Test>::kill();
		assert!(checked.is_err());
""")),
dict(id="e-bond-topup", prop="C25", pallet=P,
 edits=[(L, """						let (_, deposit) = candidates.remove(index);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit, Precision::Exact)
""", """						let _ = candidates.remove(index);
						let deposit = T::Currency::balance_on_hold(&HoldReason::Candidacy.into(), &who);
						T::Currency::release(&HoldReason::Candidacy.into(), &who, deposit.min(T::CandidacyBond::get()), Precision::Exact)
""")],
 needs="a candidacy bond lowered between candidacy and renouncing as a candidate", breaks="a part of the bond stays held for ever",
 demo=T("vp_demo_candidate_bond", """
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(3)));
		CANDIDACY_BOND.with(|v| *v.borrow_mut() = 1);
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(3), Renouncing::Candidate(1)));
		assert_eq!(balances(&3), (30, 0));
""")),
dict(id="e-renew-lock", prop="C23", pallet=P,
 edits=[(L, "		Voting::<T>::get(who).lockup_till <= current_block\n", "		let voter = Voting::<T>::get(who);\n		voter.lockup_till <= current_block || Self::is_defunct_voter(&voter.votes)\n")],
 needs="a voter all of whose choices left before its lock has run out", breaks="the voter withdraws the stake before its lock ends",
 demo=T("vp_demo_lock", """
		assert_ok!(submit_candidacy(RuntimeOrigin::signed(5)));
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![5], 20));
		assert_ok!(Elections::renounce_candidacy(RuntimeOrigin::signed(5), Renouncing::Candidate(1)));
		assert!(Elections::remove_voter(RuntimeOrigin::signed(2)).is_err());
		System::set_block_number(3);
		assert_ok!(Elections::remove_voter(RuntimeOrigin::signed(2)));
""")),
dict(id="e-refill-order", prop="C26", pallet=P,
 edits=[(L, """				if let Err(index) = members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					members.insert(index, next_best.clone());
""", """				if let Err(index) = members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					let index = if members.len() > 2 { index.max(1) } else { index };
					members.insert(index, next_best.clone());
""")],
 needs="a council of four or more whose best runner-up has the lowest account", breaks="the member list is out of order, so members are not found in it",
 demo=T("vp_demo_order", """
		for i in 2..=6u64 { assert_ok!(submit_candidacy(RuntimeOrigin::signed(i))); }
		for i in 3..=6u64 { assert_ok!(vote(RuntimeOrigin::signed(i), vec![i], i * 10)); }
		assert_ok!(vote(RuntimeOrigin::signed(2), vec![2], 20));
		System::set_block_number(5);
		Elections::on_initialize(System::block_number());
		assert_ok!(Elections::remove_member(RuntimeOrigin::root(), 5, false, false));
		assert_eq!(members_ids(), vec![2, 3, 4, 6]);
""", "ExtBuilder::default().desired_members(4).desired_runners_up(1)")),
]

D = "pallets/democracy/src/lib.rs"
def DT(name, body):
    return "use super::*;\n#[test]\nfn %s() {\n\tnew_test_ext().execute_with(|| {\n%s\n\t});\n}\n" % (name, body)
SEEDS = [
dict(id="d-stale-target", prop="C66", pallet="democracy",
 edits=[(D, "		ensure!(balance <= T::Fungible::total_balance(&who), Error::<T>::InsufficientFunds);\n\n		let votes = VotingOf::<T>::try_mutate(&who,",
            "		ensure!(balance <= T::Fungible::total_balance(&who), Error::<T>::InsufficientFunds);\n\n		let upstream = VotingOf::<T>::get(&target);\n		let votes = VotingOf::<T>::try_mutate(&who,"),
        (D, "			let votes = Self::increase_upstream_delegation(&target, conviction.votes(balance));\n			// Extend", """			let amount = conviction.votes(balance);
			let votes = match upstream {
				// No second level delegating: nothing but what is delegated to the target changes.
				Voting::Delegating { balance, target: next, conviction, delegations, prior } => {
					let delegations = delegations.saturating_add(amount);
					VotingOf::<T>::insert(&target, Voting::Delegating { balance, target: next, conviction, delegations, prior });
					1
				},
				Voting::Direct { .. } => Self::increase_upstream_delegation(&target, amount),
			};
			// Extend""")],
 needs="delegating again to the account one already delegates to, which delegates itself", breaks="the target keeps the old delegation besides the new one, for ever",
 demo=DT("vp_demo_s", """
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(1), 3, Conviction::None, 10));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::None, 20));
		assert_ok!(Democracy::delegate(RuntimeOrigin::signed(2), 1, Conviction::None, 10));
		let d = match VotingOf::<Test>::get(1) { Voting::Delegating { delegations, .. } => delegations, _ => panic!() };
		assert_eq!(d, Delegations { votes: 1, capital: 10 });
""")),
]

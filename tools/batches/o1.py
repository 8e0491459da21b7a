L = "pallets/on-slash-vesting/src/lib.rs"
P = "on-slash-vesting"
H = """use super::{mock::*, *};
use frame_support::{assert_ok, traits::tokens::fungible::Mutate};
use mock::{Balances as B, System as S, Vesting as V};
use pallet_vesting::VestingInfo;
#[test]
fn vp_demo_%s() {
	ExtBuilder { existential_deposit: 1 }.build().execute_with(|| {
		<B as Mutate<u64>>::set_balance(&2, 10000);
%s
	});
}
"""
SEEDS = [
dict(id="o-end-from-total", prop="C34", pallet=P,
 edits=[(L, "				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();\n", "				let end_block = T::BlockNumberToBalance::convert(now).saturating_add(total_locked.saturating_add(slashed_amount).saturating_div(schedule.per_block()));\n")],
 needs="a schedule whose amount is not a multiple of its rate", breaks="the schedule ends earlier than before the slash",
 demo=H % ("end", """
		assert_ok!(V::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(250, 100, 1)));
		S::set_block_number(2);
		<V as OnSlash<u64, u128>>::on_slash(&1, 50);
		assert_eq!(pallet_vesting::Vesting::<TestRuntime>::get(1).unwrap().to_vec(), vec![VestingInfo::new(100, 50, 2)]);
""")),
dict(id="o-rate-before", prop="C34", pallet=P,
 edits=[(L, "let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);", "let per_block = FixedU128::from_rational(1u128, duration).saturating_mul_int(total_locked);")],
 needs="a duration that does not divide one exactly in fixed point, with an amount that is a multiple of it", breaks="the rate is rounded down by one, so the schedule ends later",
 demo=H % ("rate", """
		assert_ok!(V::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(300, 100, 1)));
		<V as OnSlash<u64, u128>>::on_slash(&1, 150);
		assert_eq!(pallet_vesting::Vesting::<TestRuntime>::get(1).unwrap().to_vec(), vec![VestingInfo::new(150, 50, 1)]);
""")),
dict(id="o-skip-empty", prop="C34", pallet=P,
 edits=[(L, "			<Vesting<T>>::set(account, Some(new_vesting_schedules));\n", "			if new_vesting_schedules.is_empty() {\n				<Vesting<T>>::remove(account);\n				return;\n			}\n			<Vesting<T>>::set(account, Some(new_vesting_schedules));\n")],
 needs="a slash that consumes all that is still vesting", breaks="the vesting lock is never lifted",
 demo=H % ("empty", """
		assert_ok!(V::vested_transfer(RuntimeOrigin::signed(2), 1, VestingInfo::new(100, 10, 1)));
		<B as Mutate<u64>>::mint_into(&1, 500).unwrap();
		<V as OnSlash<u64, u128>>::on_slash(&1, 100);
		assert_eq!(S::account(1).data.frozen, 0);
""")),
]

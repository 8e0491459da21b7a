crate on_slash_vesting

# what is left of a schedule: the part still locked less the slash, spread from now (or its later start) to its old end
def ending(s) = VestingInfo::ending_block_as_balance(s)
def start(s) = max(VestingInfo::starting_block(s), now)
def blocks(s) = satsub(ending(s), BlockNumberToBalance::convert(start(s)))
def rest(s, amount) = satsub(VestingInfo::locked_at(s, now), amount)
def rate(s, amount) = FixedPointNumber::saturating_mul_int(FixedU128::from_rational(rest(s, amount), blocks(s)), 1)
def renewed(s, amount) = VestingInfo::new(rest(s, amount), rate(s, amount), start(s))

fn on_slash in pallet_vesting::Pallet(account, amount)
  let ss = Vesting[account]?
  let s = elem(ss)
  C34 final Vesting[account] = Some(seq(ss: !(blocks(s) == 0) & VestingInfo::is_valid(renewed(s, amount)), renewed(s, amount))) when some(Vesting[account])
  C34 final Vesting[account] = Vesting[account] when !some(Vesting[account])
  C34 call Pallet::vest(RuntimeOrigin::signed(account)) when some(Vesting[account])
  C34 order put:Vesting before Pallet::vest
  C34 nonzero FixedU128::from_rational 1
  C34 frame VestingInfo::* BlockNumberToBalance::* FixedU128::* FixedPointNumber::* RuntimeOrigin::signed

crate pallet_dispenser

def cred(o, jwt) = InvestorOrigin::ensure_origin(o, jwt, cfg(VerifierPublicKey))
def pot() = AccountIdConversion::into_account_truncating(cfg(PalletId))
def locked() = satsub(DispenseAmount[], cfg(FreeDispenseAmount))
def perblock() = locked() / max(BlockNumberToBalance::convert(cfg(VestPeriod)), 1)
def begins() = now + cfg(LockPeriod)

fn dispense(origin, jwt)
  let who = cred(origin, jwt).ok.0
  let did = cred(origin, jwt).ok.1
  let policy = cred(origin, jwt).ok.3
  let can = VestingSchedule::can_add_vesting_schedule(who, locked(), perblock(), begins())
  let pays = Currency::transfer(pot(), who, DispenseAmount[], ExistenceRequirement::AllowDeath)
  let vests = VestingSchedule::add_vesting_schedule(who, locked(), perblock(), begins())
  C42 require isok(cred(origin, jwt))
  C42 require !some(Dispensed[did])
  C42 require policy == cfg(WhitelistedPolicy)
  C42 require Currency::free_balance(pot()) >= DispenseAmount[]
  C42 require isok(can)
  C42 require isok(pays)
  C42 require isok(vests)
  C42 assume some(cdiv(locked(), max(BlockNumberToBalance::convert(cfg(VestPeriod)), 1)))
  C42 allows
  C42 fails Error::DispensedAlreadyToDid when isok(cred(origin, jwt)) & some(Dispensed[did])
  C42 fails Error::InvalidCredential when isok(cred(origin, jwt)) & !some(Dispensed[did]) & !(policy == cfg(WhitelistedPolicy))
  C42 fails Error::DispenserDepleted when isok(cred(origin, jwt)) & !some(Dispensed[did]) & policy == cfg(WhitelistedPolicy) & Currency::free_balance(pot()) < DispenseAmount[]
  C42 call Currency::transfer(pot(), who, DispenseAmount[], ExistenceRequirement::AllowDeath)
  C42 call VestingSchedule::add_vesting_schedule(who, locked(), perblock(), begins())
  C42 final Dispensed[did] = Some(())
  C42 event Dispensed{dispensed_to_did: did, dispensed_to: who, amount: DispenseAmount[]}
  C42 order Currency::transfer before VestingSchedule::add_vesting_schedule
  C42 frame InvestorOrigin::ensure_origin AccountIdConversion::into_account_truncating BlockNumberToBalance::convert VestingSchedule::can_add_vesting_schedule Currency::free_balance

fn set_dispense_amount(origin, amount)
  C42 require origin(AdminOrigin, origin)
  C42 require amount > cfg(FreeDispenseAmount)
  C42 allows
  C42 fails Error::DispenseAmountTooLow when origin(AdminOrigin, origin) & amount <= cfg(FreeDispenseAmount)
  C42 final DispenseAmount[] = amount
  C42 event DispenseAmountChanged(amount)
  C42 frame

# an account that has no funds yet may send nothing but a dispense call, and each nonce is used once, in order
fn validate in CheckNonce(self, who, call, info, len)
  let a = Account[who]
  let c = RuntimeCall::is_sub_type(call)
  C43 require !(a.providers == 0 & a.sufficients == 0) | some(c) & c? is dispense
  C43 require self.0 >= a.nonce
  C43 allows
  C43 fails InvalidTransaction::Payment when a.providers == 0 & a.sufficients == 0 & !(some(c) & c? is dispense)
  C43 frame RuntimeCall::is_sub_type Encode::encode

fn pre_dispatch in CheckNonce(self, who, call, info, len)
  let a = Account[who]
  let c = RuntimeCall::is_sub_type(call)
  C43 require !(a.providers == 0 & a.sufficients == 0) | some(c) & c? is dispense
  C43 require self.0 == a.nonce
  C43 allows
  C43 fails InvalidTransaction::Payment when a.providers == 0 & a.sufficients == 0 & !(some(c) & c? is dispense)
  C43 final Account[who] = a with {nonce: a.nonce + 1}
  C43 frame RuntimeCall::is_sub_type

crate pallet_parachain_staking

# ---- parameters -----------------------------------------------------------------------------------
def valid(r) = r.max >= r.ideal & r.ideal >= r.min

fn set_staking_expectations(origin, r)
  let c = InflationConfig[]
  C47 require origin(MonetaryGovernanceOrigin, origin)
  C47 require valid(r)
  C47 require !(c.expect == r)
  C47 allows
  C47 final InflationConfig[] = c with {expect: r}
  C47 event StakeExpectationsSet{expect_min: r.min, expect_ideal: r.ideal, expect_max: r.max}
  C47 frame

fn set_parachain_bond_account(origin, new)
  let c = ParachainBondInfo[]
  C47 require origin(MonetaryGovernanceOrigin, origin)
  C47 require !(c.account == new)
  C47 allows
  C47 final ParachainBondInfo[] = c with {account: new}
  C47 event ParachainBondAccountSet{old: c.account, new: new}
  C47 frame

fn set_parachain_bond_reserve_percent(origin, new)
  let c = ParachainBondInfo[]
  C47 require origin(MonetaryGovernanceOrigin, origin)
  C47 require !(c.percent == new)
  C47 allows
  C47 final ParachainBondInfo[] = c with {percent: new}
  C47 event ParachainBondReservePercentSet{old: c.percent, new: new}
  C47 frame

fn set_total_selected(origin, new)
  C47 require isroot(origin)
  C47 require new >= cfg(MinSelectedCandidates)
  C47 require !(TotalSelected[] == new)
  C47 require new < Round[].length
  C47 allows
  C47 final TotalSelected[] = new
  C47 event TotalSelectedSet{old: TotalSelected[], new: new}
  C47 frame

fn set_collator_commission(origin, new)
  C47 require isroot(origin)
  C47 require !(CollatorCommission[] == new)
  C47 allows
  C47 final CollatorCommission[] = new
  C47 event CollatorCommissionSet{old: CollatorCommission[], new: new}
  C47 frame

fn set_inflation(origin, r)
  let c = InflationConfig[]
  C47 require origin(MonetaryGovernanceOrigin, origin)
  C47 require valid(r)
  C47 require !(c.annual == r)
  C47 final InflationConfig[] = c with {annual: r, round: eval('annual_to_round', r)}
  C47 event InflationSet{annual_min: r.min, annual_ideal: r.ideal, annual_max: r.max, round_min: eval('annual_to_round', r).min, round_ideal: eval('annual_to_round', r).ideal, round_max: eval('annual_to_round', r).max}
  C47 frame I64F64::* transcendental::* Perbill::*

# ---- candidates -----------------------------------------------------------------------------------
def pool() = CandidatePool[].0
def member(who) = CandidateInfo[who]
def me(who) = Bond{owner: who, amount: 0}
def inset(s, b) = test(bsearch(s, bool(b == elem(s))))
def plus(s, b) = insert(s, bsins(s, bool(b == elem(s))), b)
def minus(s, b) = if inset(s, b) then remove(s, bspos(s, bool(b == elem(s)))) else s
def readd(s, b) = if inset(s, b) then s else plus(s, b)
def none_yet() = Delegations{delegations: empty, total: 0}
def holdc() = HoldReason::StakingCollator
def free(who) = Currency::reducible_balance(who, Preservation::Preserve, Fortitude::Force)

fn join_candidates(origin, bond, n)
  let who = signed(origin)
  let b = Bond{owner: who, amount: bond}
  C48 require issigned(origin)
  C48 require !some(CandidateInfo[who])
  C48 require !some(DelegatorState[who])
  C48 require bond >= cfg(MinCandidateStk)
  C48 require n >= len(pool())
  C48 require free(who) >= bond
  C48 require isok(Currency::hold(holdc(), who, bond))
  C48 call Currency::hold(holdc(), who, bond)
  C48 final CandidateInfo[who] = Some(CandidateMetadata{bond: bond, delegation_count: 0, total_counted: bond, lowest_top_delegation_amount: 0, highest_bottom_delegation_amount: 0, lowest_bottom_delegation_amount: 0, top_capacity: CapacityStatus::Empty, bottom_capacity: CapacityStatus::Empty, request: None, status: CollatorStatus::Active})
  C48 final Total[] = satadd(Total[], bond)
  C48 require !inset(pool(), b)
  C48 allows
  C48 final CandidatePool[] = CandidatePool[] with {0: plus(pool(), b)}
  C48 final TopDelegations[who] = Some(none_yet())
  C48 final BottomDelegations[who] = Some(none_yet())
  C48 event JoinedCollatorCandidates{account: who, amount_locked: bond, new_total_amt_locked: satadd(Total[], bond)}
  C48 frame Currency::reducible_balance

fn schedule_leave_candidates(origin, n)
  let who = signed(origin)
  let c = CandidateInfo[who]
  let when = Round[].current + cfg(LeaveCandidatesDelay)
  C48 require issigned(origin)
  C48 require some(c)
  C48 require !(c?.status is CollatorStatus::Leaving)
  C48 require n >= len(pool())
  C48 allows
  C48 final CandidatePool[] = CandidatePool[] with {0: minus(pool(), me(who))}
  C48 final CandidateInfo[who] = Some(c? with {status: CollatorStatus::Leaving(when)})
  C48 event CandidateScheduledExit{exit_allowed_round: Round[].current, candidate: who, scheduled_exit: when}
  C48 frame

fn cancel_leave_candidates(origin, n)
  let who = signed(origin)
  let c = CandidateInfo[who]
  let b = Bond{owner: who, amount: c?.total_counted}
  C48 require issigned(origin)
  C48 require some(c)
  C48 require c?.status is CollatorStatus::Leaving
  C48 require n >= len(pool())
  C48 require !inset(pool(), b)
  C48 allows
  C48 final CandidatePool[] = CandidatePool[] with {0: plus(pool(), b)}
  C48 final CandidateInfo[who] = Some(c? with {status: CollatorStatus::Active})
  C48 event CancelledCandidateExit{candidate: who}
  C48 frame

fn go_offline in pallet::Pallet::<T>::go_offline(origin)
  let who = signed(origin)
  let c = CandidateInfo[who]
  C48 require issigned(origin)
  C48 require some(c)
  C48 require c?.status is CollatorStatus::Active
  C48 allows
  C48 final CandidatePool[] = CandidatePool[] with {0: minus(pool(), me(who))}
  C48 final CandidateInfo[who] = Some(c? with {status: CollatorStatus::Idle})
  C48 event CandidateWentOffline{candidate: who}
  C48 frame

fn go_online in pallet::Pallet::<T>::go_online(origin)
  let who = signed(origin)
  let c = CandidateInfo[who]
  let b = Bond{owner: who, amount: c?.total_counted}
  C48 require issigned(origin)
  C48 require some(c)
  C48 require c?.status is CollatorStatus::Idle
  C48 require !inset(pool(), b)
  C48 allows
  C48 final CandidatePool[] = CandidatePool[] with {0: plus(pool(), b)}
  C48 final CandidateInfo[who] = Some(c? with {status: CollatorStatus::Active})
  C48 event CandidateBackOnline{candidate: who}
  C48 frame

fn candidate_bond_more(origin, more)
  let who = signed(origin)
  let c = CandidateInfo[who]
  let t = satadd(c?.total_counted, more)
  let rest = minus(pool(), me(who))
  C48 require issigned(origin)
  C48 require some(c)
  C48 require free(who) >= more
  C48 require isok(Currency::hold(holdc(), who, more))
  C48 allows
  C48 call Currency::hold(holdc(), who, more)
  C48 final Total[] = satadd(Total[], more)
  C48 final CandidateInfo[who] = Some(c? with {bond: satadd(c?.bond, more), total_counted: t})
  C48 final CandidatePool[] = if c?.status is CollatorStatus::Active then CandidatePool[] with {0: readd(rest, Bond{owner: who, amount: t})} else CandidatePool[]
  C48 event CandidateBondedMore{candidate: who, amount: more, new_total_bond: satadd(c?.bond, more)}
  C48 frame Currency::reducible_balance

fn schedule_candidate_bond_less(origin, less)
  let who = signed(origin)
  let c = CandidateInfo[who]
  let when = Round[].current + cfg(CandidateBondLessDelay)
  C48 require issigned(origin)
  C48 require some(c)
  C48 require !some(c?.request)
  C48 require c?.bond > less
  C48 require c?.bond - less >= cfg(MinCandidateStk)
  C48 allows
  C48 final CandidateInfo[who] = Some(c? with {request: Some(CandidateBondLessRequest{amount: less, when_executable: when})})
  C48 event CandidateBondLessRequested{candidate: who, amount_to_decrease: less, execute_round: when}
  C48 frame

fn execute_candidate_bond_less(origin, who)
  let c = CandidateInfo[who]
  let r = c?.request?
  let t = satsub(c?.total_counted, r.amount)
  let rest = minus(pool(), me(who))
  C48 require issigned(origin)
  C48 require some(c)
  C48 require some(c?.request)
  C48 require r.when_executable <= Round[].current
  C48 require isok(Currency::release(holdc(), who, r.amount, Precision::Exact))
  C48 allows
  C48 call Currency::release(holdc(), who, r.amount, Precision::Exact)
  C48 final Total[] = satsub(Total[], r.amount)
  C48 final CandidateInfo[who] = Some(c? with {bond: satsub(c?.bond, r.amount), total_counted: t, request: None})
  C48 final CandidatePool[] = if c?.status is CollatorStatus::Active then CandidatePool[] with {0: readd(rest, Bond{owner: who, amount: t})} else CandidatePool[]
  C48 event CandidateBondedLess{candidate: who, amount: r.amount, new_bond: satsub(c?.bond, r.amount)}
  C48 frame

fn cancel_candidate_bond_less(origin)
  let who = signed(origin)
  let c = CandidateInfo[who]
  C48 require issigned(origin)
  C48 require some(c)
  C48 require some(c?.request)
  C48 allows
  C48 final CandidateInfo[who] = Some(c? with {request: None})
  C48 event CancelledCandidateBondLess{candidate: who, amount: c?.request?.amount, execute_round: c?.request?.when_executable}
  C48 frame

# ---- delegation requests --------------------------------------------------------------------------
def reqs(c) = DelegationScheduledRequests[c]
def pending(c, who) = any(reqs(c): elem(reqs(c)).delegator == who)
def reqix(c, who) = pos(reqs(c): elem(reqs(c)).delegator == who)
def dels(d) = d.delegations.0
def to(d, c) = pos(dels(d): elem(dels(d)).owner == c)
def bonded(d, c) = at(dels(d), to(d, c)).amount
def action(r) = if r.action is DelegationAction::Revoke then r.action.Revoke.0 else r.action.Decrease.0

fn delegation_schedule_revoke(collator, who)
  let d = DelegatorState[who]?
  let b = bonded(d, collator)
  let when = satadd(Round[].current, cfg(RevokeDelegationDelay))
  C49 require some(DelegatorState[who])
  C49 require !pending(collator, who)
  C49 require any(dels(d): elem(dels(d)).owner == collator)
  C49 allows
  C49 final DelegationScheduledRequests[collator] = push(reqs(collator), ScheduledRequest{delegator: who, action: DelegationAction::Revoke(b), when_executable: when})
  C49 final DelegatorState[who] = Some(d with {less_total: satadd(d.less_total, b)})
  C49 event DelegationRevocationScheduled{round: Round[].current, delegator: who, candidate: collator, scheduled_exit: when}
  C49 frame

fn delegation_schedule_bond_decrease(collator, who, less)
  let d = DelegatorState[who]?
  let b = bonded(d, collator)
  let when = satadd(Round[].current, cfg(RevokeDelegationDelay))
  C49 require some(DelegatorState[who])
  C49 require !pending(collator, who)
  C49 require any(dels(d): elem(dels(d)).owner == collator)
  C49 require b > less
  C49 require b - less >= cfg(MinDelegation)
  C49 require less <= satsub(satsub(d.total, d.less_total), cfg(MinDelegatorStk))
  C49 allows
  C49 final DelegationScheduledRequests[collator] = push(reqs(collator), ScheduledRequest{delegator: who, action: DelegationAction::Decrease(less), when_executable: when})
  C49 final DelegatorState[who] = Some(d with {less_total: satadd(d.less_total, less)})
  C49 event DelegationDecreaseScheduled{delegator: who, candidate: collator, amount_to_decrease: less, execute_round: when}
  C49 frame

fn delegation_cancel_request(collator, who)
  let d = DelegatorState[who]?
  let r = at(reqs(collator), reqix(collator, who))
  C49 require some(DelegatorState[who])
  C49 require pending(collator, who)
  C49 allows
  C49 final DelegationScheduledRequests[collator] = remove(reqs(collator), reqix(collator, who))
  C49 final DelegatorState[who] = Some(d with {less_total: satsub(d.less_total, action(r))})
  C49 event CancelledDelegationRequest{delegator: who, collator: collator, cancelled_request: CancelledScheduledRequest{when_executable: r.when_executable, action: r.action}}
  C49 frame

# ---- delegator's hold, auto-compounding --------------------------------------------------------------
def holdd() = HoldReason::StakingDelegator
def held(d) = Currency::balance_on_hold(holdd(), d.id)

fn adjust_bond_lock in Delegator(d, a)
  let more = a.Increase.0
  C49 require !(a is BondAdjust::Increase) | free(d.id) >= more
  C49 require !(a is BondAdjust::Increase) | more <= d.total
  C49 call Currency::release(holdd(), d.id, satsub(held(d), d.total), Precision::Exact) when held(d) > d.total
  C49 call Currency::hold(holdd(), d.id, satsub(d.total, held(d))) when held(d) <= d.total
  C49 require held(d) <= d.total | isok(Currency::release(holdd(), d.id, satsub(held(d), d.total), Precision::Exact))
  C49 require held(d) > d.total | isok(Currency::hold(holdd(), d.id, satsub(d.total, held(d))))
  C49 allows
  C49 frame Currency::reducible_balance Currency::balance_on_hold log*

def ac(c) = AutoCompoundingDelegations[c]
def acin(c, who) = test(bsearch(ac(c), bool(elem(ac(c)).delegator == who)))
def acpos(c, who) = bspos(ac(c), bool(elem(ac(c)).delegator == who))

fn remove_auto_compound(c, who)
  C49 final AutoCompoundingDelegations[c] = if acin(c, who) then remove(ac(c), acpos(c, who)) else ac(c)
  C49 frame

fn auto_compound in AutoCompoundDelegations(c, who)
  C49 returns at(ac(c), acpos(c, who)).value when acin(c, who)
  C49 returns 0 when !acin(c, who)
  C49 frame

fn set_auto_compound in AutoCompoundDelegations(c, who, value, n, m)
  let d = DelegatorState[who]?
  C49 require some(DelegatorState[who])
  C49 require len(dels(d)) <= m
  C49 require any(dels(d): elem(dels(d)).owner == c)
  C49 require len(ac(c)) <= n
  C49 final AutoCompoundingDelegations[c] = if value == 0 then (if acin(c, who) then remove(ac(c), acpos(c, who)) else ac(c)) else if acin(c, who) then (if at(ac(c), acpos(c, who)).value == value then ac(c) else setidx(ac(c), acpos(c, who), at(ac(c), acpos(c, who)) with {value: value})) else insert(ac(c), bsins(ac(c), bool(elem(ac(c)).delegator == who)), AutoCompoundConfig{delegator: who, value: value})
  C49 event AutoCompoundSet{candidate: c, delegator: who, value: value}
  C49 frame

fn delegation_execute_scheduled_request(collator, who)
  let d = DelegatorState[who]?
  let i = reqix(collator, who)
  let r = at(reqs(collator), i)
  let rev = r.action is DelegationAction::Revoke
  let k = pos(dels(d): elem(dels(d)).owner == collator)
  let e = at(dels(d), k)
  let x = r.action.Decrease.0
  C49 require some(DelegatorState[who])
  C49 require pending(collator, who)
  C49 require r.when_executable <= Round[].current
  C49 require !rev | len(dels(d)) == 1 | satsub(d.total, cfg(MinDelegatorStk)) >= r.action.Revoke.0
  C49 require rev | any(dels(d): elem(dels(d)).owner == collator)
  C49 require rev | e.amount > x
  C49 require rev | satsub(d.total, x) >= cfg(MinDelegation)
  C49 require rev | satsub(d.total, x) >= cfg(MinDelegatorStk)
  C49 final DelegationScheduledRequests[collator] = remove(reqs(collator), i)
  C49 event DelegationRevoked{delegator: who, candidate: collator, unstaked_amount: r.action.Revoke.0} when rev
  C49 event DelegatorLeft{delegator: who, unstaked_amount: r.action.Revoke.0} when rev & len(dels(d)) == 1
  C49 final Total[] = satsub(Total[], x) when !rev

fn delegator_cancel_scheduled_revoke_all(who)
  C49 require some(DelegatorState[who])
  C49 event DelegatorExitCancelled{delegator: who}

fn delegator_execute_scheduled_revoke_all(who, n)
  let d = DelegatorState[who]?
  C49 require some(DelegatorState[who])
  C49 require n >= len(dels(d))
  C49 final DelegatorState[who] = None

fn delegation_remove_request_with_state(c, who, d)
  C49 final DelegationScheduledRequests[c] = if pending(c, who) then remove(reqs(c), reqix(c, who)) else reqs(c)
  C49 frame

# ---- rounds and payouts -----------------------------------------------------------------------------
fn award_points_to_block_author(who)
  let r = Round[].current
  C50 final AwardedPts[r, who] = satadd(AwardedPts[r, who], 20)
  C50 final Points[r] = satadd(Points[r], 20)
  C50 frame

fn note_author(who)
  let r = Round[].current
  C50 final AwardedPts[r, who] = satadd(AwardedPts[r, who], 20)
  C50 final Points[r] = satadd(Points[r], 20)
  C50 frame

fn new_session(i)
  C50 returns None when len(SelectedCandidates[]) == 0
  C50 returns Some(SelectedCandidates[]) when !(len(SelectedCandidates[]) == 0)
  C50 frame log*

def due(n) = n - Round[].first >= Round[].length
fn should_end_session(n)
  C50 returns bool(due(n))
  C50 frame

def round_min() = Currency::total_issuance() * InflationConfig[].round.min
def round_ideal() = Currency::total_issuance() * InflationConfig[].round.ideal
def round_max() = Currency::total_issuance() * InflationConfig[].round.max
def issuance(staked) = if staked < InflationConfig[].expect.min then round_min() else if staked > InflationConfig[].expect.max then round_max() else round_ideal()
def past(now) = satsub(now, cfg(RewardPaymentDelay))

fn compute_issuance(staked)
  C50 returns issuance(staked)
  C50 frame Currency::total_issuance

fn prepare_staking_payouts(now)
  let p = past(now)
  let go = now > cfg(RewardPaymentDelay) & !(Points[p] == 0)
  let x = issuance(Staked[p])
  C50 final Staked[p] = if go then 0 else Staked[p]
  C50 final DelayedPayouts[p] = if go then Some(DelayedPayout{round_issuance: x, total_staking_reward: x, collator_commission: CollatorCommission[]}) else DelayedPayouts[p]
  C50 frame Currency::total_issuance WeightInfo::* Weight::*

def payer() = cfg(PayMaster)
fn mint in pallet::Pallet(amount, who)
  let t = Currency::transfer(payer(), who, amount, Preservation::Preserve)
  C50 call Currency::transfer(payer(), who, amount, Preservation::Preserve)
  C50 event Rewarded{account: who, rewards: t.ok} when isok(t)
  C50 frame

fn mint_collator_reward(r, who, amount)
  let t = Currency::transfer(payer(), who, amount, Preservation::Preserve)
  C50 call Currency::transfer(payer(), who, amount, Preservation::Preserve)
  C50 event Rewarded{account: who, rewards: t.ok} when isok(t)
  C50 frame WeightInfo::*

fn compute_top_candidates()
  let pool = CandidatePool[].0
  C50 returns empty when TotalSelected[] == 0
  C50 returns seq(pool: true, elem(pool).owner) when !(TotalSelected[] == 0) & len(pool) <= TotalSelected[]
  C50 frame Ordering::then_with slice::select_nth_unstable_by

fn handle_delayed_payouts(now)
  let p = past(now)
  C50 final DelayedPayouts[p] = None when now >= cfg(RewardPaymentDelay) & some(DelayedPayouts[p]) & Points[p] == 0
  C50 final DelayedPayouts[p] = DelayedPayouts[p] when now < cfg(RewardPaymentDelay)
  C50 final Points[p] = Points[p] when now < cfg(RewardPaymentDelay)

# ---- leaving ---------------------------------------------------------------------------------------
fn execute_leave_candidates(origin, who, n)
  let c = CandidateInfo[who]?
  let back = satadd(satadd(c.bond, TopDelegations[who]?.total), BottomDelegations[who]?.total)
  let left = satsub(Total[], back)
  let h = Currency::balance_on_hold(holdc(), who)
  C48 require issigned(origin)
  C48 require some(CandidateInfo[who])
  C48 require c.delegation_count <= n
  C48 require c.status is CollatorStatus::Leaving
  C48 require c.status.Leaving.0 <= Round[].current
  C48 call Currency::release(holdc(), who, h, Precision::Exact)
  C48 require isok(Currency::release(holdc(), who, h, Precision::Exact))
  C48 final CandidateInfo[who] = None
  C48 final TopDelegations[who] = None
  C48 final BottomDelegations[who] = None
  C48 final DelegationScheduledRequests[who] = empty
  C48 final AutoCompoundingDelegations[who] = empty
  C48 final Total[] = left
  C48 event CandidateLeft{ex_candidate: who, unlocked_amount: back, new_total_amt_locked: left}

fn set_blocks_per_round(origin, new)
  let r = Round[]
  C47 require isroot(origin)
  C47 require new >= cfg(MinBlocksPerRound)
  C47 require !(r.length == new)
  C47 require new > TotalSelected[]
  C47 final Round[] = r with {length: new}

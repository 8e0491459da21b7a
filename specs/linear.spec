crate pallet_linear_release

# a schedule: locked at the start, per_block (at least 1) released each block after its starting block
def perblock(s) = max(s.per_block, 1)
def elapsed(s, n) = BlockNumberToBalance::convert(satsub(n, s.starting_block))
def out(s, n) = cmul(elapsed(s, n), perblock(s))
def lockedat(s, n) = if some(out(s, n)) then satsub(s.locked, out(s, n)?) else 0
def freeat(s, n) = if some(out(s, n)) then min(out(s, n)?, s.locked) else s.locked
def ending(s) = satadd(BlockNumberToBalance::convert(s.starting_block), if perblock(s) >= s.locked then 1 else s.locked / perblock(s) + (if rem(s.locked, perblock(s)) == 0 then 0 else 1))
# what remains of a list of schedules and how much of it is still locked
def left(ss) = seq(ss: !(lockedat(elem(ss), now) == 0), elem(ss))
def locked(ss) = sum(0, ss: !(lockedat(elem(ss), now) == 0), lockedat(elem(ss), now))
def sane(ss) = (locked(ss) == 0) == (len(left(ss)) == 0) & fits(bounded, left(ss))

fn locked_at in VestingInfo(self, n)
  C35 returns lockedat(self, n)
  C35 frame BlockNumberToBalance::convert

fn releaseble_at in VestingInfo(self, n)
  C35 returns freeat(self, n)
  C35 frame BlockNumberToBalance::convert

fn ending_block_as_balance in VestingInfo(self)
  C35 returns ending(self)
  C35 frame BlockNumberToBalance::convert

fn is_valid in VestingInfo(self)
  C35 returns !(self.locked == 0) & !(self.per_block == 0)

fn vesting_balance(who, reason)
  let ss = Vesting[who, reason]?
  C35 returns if some(Vesting[who, reason]) then Some(sum(0, ss: true, freeat(elem(ss), now))) else None

fn total_scheduled_amount(who, reason)
  let ss = Vesting[who, reason]?
  C35 returns if some(Vesting[who, reason]) then Some(sum(0, ss: true, elem(ss).locked)) else None

# ---- releasing ------------------------------------------------------------------------------------
def held(r, who) = Currency::balance_on_hold(r, who)
def drop(r, who, l) = if l == 0 then held(r, who) else satsub(held(r, who), l)
def release(r, who, x) = Currency::release(r, who, x, Precision::BestEffort)
def releases(r, who, l) = if l == 0 then isok(release(r, who, held(r, who))) else isok(release(r, who, satsub(held(r, who), l)))

fn do_vest(who, reason)
  let ss = Vesting[who, reason]?
  C36 require some(Vesting[who, reason])
  C36 require releases(reason, who, locked(ss))
  C36 assume sane(ss)
  C36 allows
  C36 fails Error::NotVesting when !some(Vesting[who, reason])
  C36 final Vesting[who, reason] = if len(left(ss)) == 0 then None else Some(left(ss))
  C36 call Currency::release(reason, who, held(reason, who), Precision::BestEffort) when locked(ss) == 0
  C36 call Currency::release(reason, who, satsub(held(reason, who), locked(ss)), Precision::BestEffort) when !(locked(ss) == 0)
  C36 event VestingCompleted{account: who} when locked(ss) == 0
  C36 event VestingUpdated{account: who, unvested: locked(ss)} when !(locked(ss) == 0)
  C36 frame BlockNumberToBalance::convert

fn vest in pallet::Pallet::<T>::vest(origin, reason)
  let who = signed(origin)
  let ss = Vesting[who, reason]?
  C36 require issigned(origin)
  C36 require some(Vesting[who, reason])
  C36 require releases(reason, who, locked(ss))
  C36 assume sane(ss)
  C36 allows
  C36 final Vesting[who, reason] = if len(left(ss)) == 0 then None else Some(left(ss))
  C36 call release(reason, who, drop(reason, who, locked(ss)))
  C36 event VestingCompleted{account: who} when locked(ss) == 0
  C36 event VestingUpdated{account: who, unvested: locked(ss)} when !(locked(ss) == 0)
  C36 frame BlockNumberToBalance::convert

fn vest_other(origin, who, reason)
  let ss = Vesting[who, reason]?
  C36 require issigned(origin)
  C36 require some(Vesting[who, reason])
  C36 require releases(reason, who, locked(ss))
  C36 assume sane(ss)
  C36 allows
  C36 final Vesting[who, reason] = if len(left(ss)) == 0 then None else Some(left(ss))
  C36 call release(reason, who, drop(reason, who, locked(ss)))
  C36 event VestingCompleted{account: who} when locked(ss) == 0
  C36 event VestingUpdated{account: who, unvested: locked(ss)} when !(locked(ss) == 0)
  C36 frame BlockNumberToBalance::convert

fn vest_all(origin)
  let who = signed(origin)
  let rs = keys(Vesting, who)
  let r = elem(rs)
  let ss = Vesting[who, r]?
  C36 require issigned(origin)
  C36 require !any(rs: !some(Vesting[who, elem(rs)]) | !releases(r, who, locked(ss)))
  C36 assume !any(rs: !sane(ss))
  C36 allows
  C36 put Vesting[who, r] = Some(left(ss)) in rs when !(len(left(ss)) == 0)
  C36 del Vesting[who, r] in rs when len(left(ss)) == 0
  C36 call Currency::release(r, who, drop(r, who, locked(ss)), Precision::BestEffort) in rs
  C36 event VestingCompleted{account: who} in rs when locked(ss) == 0
  C36 event VestingUpdated{account: who, unvested: locked(ss)} in rs when !(locked(ss) == 0)
  C36 frame BlockNumberToBalance::convert

fn vest_all_other(origin, who)
  let rs = keys(Vesting, who)
  let r = elem(rs)
  let ss = Vesting[who, r]?
  C36 require issigned(origin)
  C36 require !any(rs: !some(Vesting[who, elem(rs)]) | !releases(r, who, locked(ss)))
  C36 assume !any(rs: !sane(ss))
  C36 allows
  C36 put Vesting[who, r] = Some(left(ss)) in rs when !(len(left(ss)) == 0)
  C36 del Vesting[who, r] in rs when len(left(ss)) == 0
  C36 call Currency::release(r, who, drop(r, who, locked(ss)), Precision::BestEffort) in rs
  C36 event VestingCompleted{account: who} in rs when locked(ss) == 0
  C36 event VestingUpdated{account: who, unvested: locked(ss)} in rs when !(locked(ss) == 0)
  C36 frame BlockNumberToBalance::convert

# ---- vested transfers -----------------------------------------------------------------------------
def transfer(r, a, b, s) = Currency::transfer_and_hold(r, a, b, s.locked, Precision::Exact, Preservation::Expendable, Fortitude::Polite)
def valid(s) = !(s.locked == 0) & !(s.per_block == 0)
def count(who, r) = if some(Vesting[who, r]) then len(Vesting[who, r]?) else 0
def most() = const('Config::MAX_VESTING_SCHEDULES<T>')
def had(who, r) = if some(Vesting[who, r]) then Vesting[who, r]? else empty
def joined(who, r, l, s) = push(had(who, r), VestingInfo{locked: l, per_block: perblock(s), starting_block: s.starting_block})

fn do_vested_transfer(source, target, s, reason)
  let t = transfer(reason, source, target, s)
  let all = joined(target, reason, t.ok, s)
  given !(t.ok == 0)
  given sane(all)
  given isok(release(reason, target, drop(reason, target, locked(all))))
  given fits(push, had(target, reason), VestingInfo{locked: t.ok, per_block: perblock(s), starting_block: s.starting_block})
  C37 require s.locked >= cfg(MinVestedTransfer)
  C37 require valid(s)
  C37 require count(target, reason) < most()
  C37 require isok(t)
  C37 fails Error::AmountLow when s.locked < cfg(MinVestedTransfer)
  C37 fails Error::InvalidScheduleParams when s.locked >= cfg(MinVestedTransfer) & !valid(s)
  C37 fails Error::AtMaxVestingSchedules when s.locked >= cfg(MinVestedTransfer) & valid(s) & count(target, reason) >= most()
  C37 call transfer(reason, source, target, s)
  C37 event VestingTransferred{to: target, amount: t.ok}
  C37 final Vesting[target, reason] = if len(left(all)) == 0 then None else Some(left(all))
  C37 call release(reason, target, drop(reason, target, locked(all)))
  C37 event VestingCompleted{account: target} when locked(all) == 0
  C37 event VestingUpdated{account: target, unvested: locked(all)} when !(locked(all) == 0)
  C37 order Currency::transfer_and_hold before put:Vesting
  C37 frame BlockNumberToBalance::convert

fn vested_transfer(origin, target, s, reason)
  C37 require issigned(origin)
  C37 require s.locked >= cfg(MinVestedTransfer)
  C37 require valid(s)
  C37 require isok(transfer(reason, signed(origin), target, s))
  C37 call transfer(reason, signed(origin), target, s)
  C37 event VestingTransferred{to: target, amount: transfer(reason, signed(origin), target, s).ok}

fn force_vested_transfer(origin, source, target, s, reason)
  C37 require isroot(origin)
  C37 require s.locked >= cfg(MinVestedTransfer)
  C37 require valid(s)
  C37 require isok(transfer(reason, source, target, s))
  C37 call transfer(reason, source, target, s)
  C37 event VestingTransferred{to: target, amount: transfer(reason, source, target, s).ok}

# ---- merging --------------------------------------------------------------------------------------
def over(s) = ending(s) <= BlockNumberToBalance::convert(now)
def mstart(a, b) = max(max(now, a.starting_block), b.starting_block)
def mlocked(a, b) = satadd(lockedat(a, now), lockedat(b, now))
def mblocks(a, b) = max(satsub(max(ending(a), ending(b)), BlockNumberToBalance::convert(mstart(a, b))), 1)
def merged(a, b) = VestingInfo{locked: mlocked(a, b), per_block: max(mlocked(a, b) / mblocks(a, b), 1), starting_block: mstart(a, b)}

fn merge_vesting_info(n, a, b)
  input n = now
  given !(mlocked(a, b) == 0)
  C38 returns if over(a) & over(b) then None else if over(a) then Some(b) else if over(b) then Some(a) else Some(merged(a, b))
  C38 frame BlockNumberToBalance::convert

fn merge_schedules(origin, i, j, reason)
  let who = signed(origin)
  let ss = Vesting[who, reason]?
  let a = at(ss, i)
  let b = at(ss, j)
  let none = over(a) & over(b)
  let m = if over(a) then b else if over(b) then a else merged(a, b)
  let rest = seq(ss: !(lockedat(elem(ss), now) == 0) & !(pos(ss) == i) & !(pos(ss) == j), elem(ss))
  let restlocked = sum(0, ss: !(lockedat(elem(ss), now) == 0) & !(pos(ss) == i) & !(pos(ss) == j), lockedat(elem(ss), now))
  let all = if none then rest else push(rest, m)
  let l = if none then restlocked else satadd(restlocked, lockedat(m, now))
  given (l == 0) == (len(all) == 0) & fits(bounded, all)
  given over(a) | over(b) | !(mlocked(a, b) == 0)
  C38 require issigned(origin)
  C38 require i == j | some(Vesting[who, reason])
  C38 require i == j | i < len(ss)
  C38 require i == j | j < len(ss)
  C38 fails Error::NotVesting when issigned(origin) & !(i == j) & !some(Vesting[who, reason])
  C38 fails Error::ScheduleIndexOutOfBounds when issigned(origin) & !(i == j) & some(Vesting[who, reason]) & (i >= len(ss) | j >= len(ss))
  C38 final Vesting[who, reason] = if i == j then Vesting[who, reason] else if len(all) == 0 then None else Some(all)
  C38 call release(reason, who, drop(reason, who, l)) when !(i == j)
  C38 event VestingCompleted{account: who} when !(i == j) & l == 0
  C38 event VestingUpdated{account: who, unvested: l} when !(i == j) & !(l == 0)
  C38 frame BlockNumberToBalance::convert

# ---- schedules set up by other pallets ------------------------------------------------------------
def new(l, p, b) = VestingInfo{locked: l, per_block: p, starting_block: b}

fn add_release_schedule(who, l, p, b, reason)
  let all = push(had(who, reason), new(l, p, b))
  given sane(all)
  C39 require l == 0 | !(p == 0)
  C39 require l == 0 | fits(push, had(who, reason), new(l, p, b))
  C39 allows
  C39 fails Error::InvalidScheduleParams when !(l == 0) & p == 0
  C39 fails Error::AtMaxVestingSchedules when !(l == 0) & !(p == 0) & !fits(push, had(who, reason), new(l, p, b))
  C39 final Vesting[who, reason] = if l == 0 then Vesting[who, reason] else if len(left(all)) == 0 then None else Some(left(all))
  C39 frame BlockNumberToBalance::convert

fn set_release_schedule(who, l, p, b, reason)
  let all = push(had(who, reason), new(l, p, b))
  given sane(all)
  C39 require l == 0 | !(p == 0)
  C39 require l == 0 | fits(push, had(who, reason), new(l, p, b))
  C39 require l == 0 | releases(reason, who, locked(all))
  C39 allows
  C39 fails Error::InvalidScheduleParams when !(l == 0) & p == 0
  C39 fails Error::AtMaxVestingSchedules when !(l == 0) & !(p == 0) & !fits(push, had(who, reason), new(l, p, b))
  C39 final Vesting[who, reason] = if l == 0 then Vesting[who, reason] else if len(left(all)) == 0 then None else Some(left(all))
  C39 call release(reason, who, drop(reason, who, locked(all))) when !(l == 0)
  C39 event VestingCompleted{account: who} when !(l == 0) & locked(all) == 0
  C39 event VestingUpdated{account: who, unvested: locked(all)} when !(l == 0) & !(locked(all) == 0)
  C39 frame BlockNumberToBalance::convert

fn can_add_release_schedule(who, l, p, b, reason)
  C39 require !(l == 0)
  C39 require !(p == 0)
  C39 require count(who, reason) < most()
  C39 allows
  C39 frame

fn remove_vesting_schedule(who, i, reason)
  let ss = Vesting[who, reason]?
  let rest = seq(ss: !(lockedat(elem(ss), now) == 0) & !(pos(ss) == i), elem(ss))
  let l = sum(0, ss: !(lockedat(elem(ss), now) == 0) & !(pos(ss) == i), lockedat(elem(ss), now))
  given (l == 0) == (len(rest) == 0) & fits(bounded, rest)
  C39 require some(Vesting[who, reason])
  C39 require releases(reason, who, l)
  C39 allows
  C39 fails Error::NotVesting when !some(Vesting[who, reason])
  C39 final Vesting[who, reason] = if len(rest) == 0 then None else Some(rest)
  C39 call release(reason, who, drop(reason, who, l))
  C39 event VestingCompleted{account: who} when l == 0
  C39 event VestingUpdated{account: who, unvested: l} when !(l == 0)
  C39 frame BlockNumberToBalance::convert

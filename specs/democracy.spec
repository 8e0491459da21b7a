crate pallet_democracy

# kept in this order by every function that writes them (each write is stated below)
sorted VotingOf[].Direct.votes by elem.0
sorted Blacklist[].1 by elem

# what only the operations stated below may change
owns C01 DepositOf HoldReason::Proposal
owns C02 PublicProps PublicPropCount
owns C03 NextExternal
owns C05,C06 Blacklist
owns C07 Cancellations ReferendumInfoOf
owns C08 VotingOf ReferendumInfoOf
owns C09,C10,C14,C15 VotingOf FreezeReason::Vote
owns C13 VotingOf ReferendumInfoOf
owns C17 ReferendumInfoOf LowestUnbaked Scheduler::*
owns C18 LastTabledWasExternal NextExternal PublicProps
owns C19 ReferendumCount ReferendumInfoOf
owns C20 MetadataOf
owns C61 Scheduler::*

# every event, and no other, is stated
also C64 event
owns C64 Event

# ---- vote arithmetic --------------------------------------------------------------------------
def mult(c) = if c is Conviction::Locked1x then 1 else if c is Conviction::Locked2x then 2 else if c is Conviction::Locked3x then 3 else
    if c is Conviction::Locked4x then 4 else if c is Conviction::Locked5x then 5 else 6
def periods(c) = if c is Conviction::None then 0 else if c is Conviction::Locked1x then 1 else if c is Conviction::Locked2x then 2 else
    if c is Conviction::Locked3x then 4 else if c is Conviction::Locked4x then 8 else if c is Conviction::Locked5x then 16 else 32
def weight(c, b) = if c is Conviction::None then b / 10 else if some(cmul(b, mult(c))) then b * mult(c) else maxvalue()
def vbal(v) = if v is AccountVote::Standard then v.Standard.balance else satadd(v.Split.aye, v.Split.nay)
def std(v) = bool(v is AccountVote::Standard)
def aye(v) = bool(v.Standard.vote.aye)
def ayesof(v) = if std(v) then (if aye(v) then weight(v.Standard.vote.conviction, v.Standard.balance) else 0) else v.Split.aye / 10
def naysof(v) = if std(v) then (if aye(v) then 0 else weight(v.Standard.vote.conviction, v.Standard.balance)) else v.Split.nay / 10

# the tally with a vote added (checked), and the conditions under which that does not overflow
def tadd(t, v) = if std(v) then
      (if aye(v) then t with { turnout: t.turnout + v.Standard.balance, ayes: t.ayes + weight(v.Standard.vote.conviction, v.Standard.balance) }
       else t with { turnout: t.turnout + v.Standard.balance, nays: t.nays + weight(v.Standard.vote.conviction, v.Standard.balance) })
    else t with { turnout: t.turnout + v.Split.aye + v.Split.nay, ayes: t.ayes + v.Split.aye / 10, nays: t.nays + v.Split.nay / 10 }
def taddok(t, v) = if std(v) then
      some(cadd(t.turnout, v.Standard.balance)) & (if aye(v) then some(cadd(t.ayes, weight(v.Standard.vote.conviction, v.Standard.balance)))
       else some(cadd(t.nays, weight(v.Standard.vote.conviction, v.Standard.balance))))
    else some(cadd(t.turnout, v.Split.aye)) & some(cadd(t.turnout + v.Split.aye, v.Split.nay)) & some(cadd(t.ayes, v.Split.aye / 10)) & some(cadd(t.nays, v.Split.nay / 10))
def tsub(t, v) = if std(v) then
      (if aye(v) then t with { turnout: t.turnout - v.Standard.balance, ayes: t.ayes - weight(v.Standard.vote.conviction, v.Standard.balance) }
       else t with { turnout: t.turnout - v.Standard.balance, nays: t.nays - weight(v.Standard.vote.conviction, v.Standard.balance) })
    else t with { turnout: t.turnout - v.Split.aye - v.Split.nay, ayes: t.ayes - v.Split.aye / 10, nays: t.nays - v.Split.nay / 10 }
def tsubok(t, v) = if std(v) then
      some(csub(t.turnout, v.Standard.balance)) & (if aye(v) then some(csub(t.ayes, weight(v.Standard.vote.conviction, v.Standard.balance)))
       else some(csub(t.nays, weight(v.Standard.vote.conviction, v.Standard.balance))))
    else some(csub(t.turnout, v.Split.aye)) & some(csub(t.turnout - v.Split.aye, v.Split.nay)) & some(csub(t.ayes, v.Split.aye / 10)) & some(csub(t.nays, v.Split.nay / 10))
# delegated weight behind a standard vote
def tinc(t, a, d) = if a then t with { turnout: satadd(t.turnout, d.capital), ayes: satadd(t.ayes, d.votes) } else t with { turnout: satadd(t.turnout, d.capital), nays: satadd(t.nays, d.votes) }
def tred(t, a, d) = if a then t with { turnout: satsub(t.turnout, d.capital), ayes: satsub(t.ayes, d.votes) } else t with { turnout: satsub(t.turnout, d.capital), nays: satsub(t.nays, d.votes) }
def tincv(t, v, d) = if std(v) then tinc(t, aye(v), d) else t
def tredv(t, v, d) = if std(v) then tred(t, aye(v), d) else t

def ongoing(i) = some(ReferendumInfoOf[i]) & ReferendumInfoOf[i]? is ReferendumInfo::Ongoing
def status(i) = ReferendumInfoOf[i]?.Ongoing.0
def lockend(at, c) = satadd(at, satmul(periods(c), cfg(VoteLockingPeriod)))

# ---- proposals -----------------------------------------------------------------------------------
fn propose(origin, proposal, value)
  let who = originval(SubmitOrigin, origin)
  let idx = PublicPropCount[]
  let h = Bounded::hash(proposal)
  C02,C21 require origin(SubmitOrigin, origin)
  C02 require value >= cfg(MinimumDeposit)
  C02 require len(PublicProps[]) < cfg(MaxProposals)
  C02,C05,C06 require none(Blacklist[h]) | now >= Blacklist[h]?.0
  C01 require isok(Fungible::hold(HoldReason::Proposal, who, value))
  C02 allows
  C01 call Fungible::hold(HoldReason::Proposal, who, value)
  C01,C02 final DepositOf[idx] = Some(([who], value))
  C01,C02 final PublicPropCount[] = idx + 1
  C02 final PublicProps[] = push(PublicProps[], (idx, proposal, who))
  C02 event Proposed{proposal_index: idx, deposit: value}
  C01,C02 frame

fn second(origin, proposal)
  let who = signed(origin)
  let d = DepositOf[proposal]?
  C01,C21 require issigned(origin)
  C01 require some(DepositOf[proposal])
  C01 require len(d.0) < cfg(MaxDeposits)
  C01 require isok(Fungible::hold(HoldReason::Proposal, who, d.1))
  C01 allows
  C01 call Fungible::hold(HoldReason::Proposal, who, d.1)
  C01 final DepositOf[proposal] = Some(d with { 0: push(d.0, who) })
  C01 event Seconded{seconder: who, prop_index: proposal}
  C01 frame

# ---- voting ----------------------------------------------------------------------------------------
fn vote(origin, ref_index, vote)
  let who = signed(origin)
  let st = status(ref_index)
  let v0 = VotingOf[who]
  let votes = v0.Direct.votes
  let has = any(votes: elem(votes).0 == ref_index)
  let i = pos(votes: elem(votes).0 == ref_index)
  let at_ = ins(votes: elem(votes).0 == ref_index)
  let old = at(votes, i).1
  let dele = v0.Direct.delegations
  let t1 = if has then tredv(tsub(st.tally, old), old, dele) else st.tally
  let t2 = tincv(tadd(t1, vote), vote, dele)
  C08,C09,C21 require issigned(origin)
  C08,C09 require ongoing(ref_index)
  C09 require vbal(vote) <= Fungible::total_balance(who)
  C09,C13 require v0 is Voting::Direct
  C09 require has | len(votes) < cfg(MaxVotes)
  C08 require !has | tsubok(st.tally, old)
  C08 require taddok(t1, vote)
  C09 require isok(Fungible::extend_freeze(FreezeReason::Vote, who, vbal(vote)))
  C09 allows
  C09 call Fungible::extend_freeze(FreezeReason::Vote, who, vbal(vote))
  C08,C11,C13 final ReferendumInfoOf[ref_index] = Some(ReferendumInfo::Ongoing(st with { tally: t2 }))
  C08,C09 final VotingOf[who] = if has then v0 with { Direct.votes: setidx(votes, i, at(votes, i) with { 1: vote }) } else v0 with { Direct.votes: insert(votes, at_, (ref_index, vote)) }
  C08 event Voted{voter: who, ref_index: ref_index, vote: vote}
  C08,C09 frame

fn remove_vote(origin, index)
  let who = signed(origin)
  C10,C21 require issigned(origin)
  let v0 = VotingOf[who]
  let votes = v0.Direct.votes
  let i = pos(votes: elem(votes).0 == index)
  let old = at(votes, i).1
  let dele = v0.Direct.delegations
  let st = status(index)
  let direct = v0 is Voting::Direct
  let finished = some(ReferendumInfoOf[index]) & ReferendumInfoOf[index]? is ReferendumInfo::Finished
  let won = finished & std(old) & (aye(old) == ReferendumInfoOf[index]?.Finished.approved)
  let until = lockend(ReferendumInfoOf[index]?.Finished.end, old.Standard.vote.conviction)
  let locked = won & now < until
  let p0 = v0.Direct.prior
  C08,C10 require !direct | any(votes: elem(votes).0 == index)
  C08 require !direct | !ongoing(index) | tsubok(st.tally, old)
  C10 allows
  C08,C11,C13 final ReferendumInfoOf[index] = if direct & ongoing(index) then Some(ReferendumInfo::Ongoing(st with { tally: tredv(tsub(st.tally, old), old, dele) })) else ReferendumInfoOf[index]
  C08,C10,C11 final VotingOf[who] = if direct then v0 with { Direct.votes: remove(votes, i), Direct.prior: if locked then p0 with { 0: max(p0.0, until), 1: max(p0.1, old.Standard.balance) } else p0 } else v0
  C08,C10 frame

fn remove_other_vote(origin, target, index)
  let me = signed(origin)
  let who = Lookup::lookup(target).ok
  C10,C21 require issigned(origin)
  C10 require isok(Lookup::lookup(target))
  let v0 = VotingOf[who]
  let votes = v0.Direct.votes
  let i = pos(votes: elem(votes).0 == index)
  let old = at(votes, i).1
  let dele = v0.Direct.delegations
  let st = status(index)
  let direct = v0 is Voting::Direct
  let finished = some(ReferendumInfoOf[index]) & ReferendumInfoOf[index]? is ReferendumInfo::Finished
  let won = finished & std(old) & (aye(old) == ReferendumInfoOf[index]?.Finished.approved)
  let until = lockend(ReferendumInfoOf[index]?.Finished.end, old.Standard.vote.conviction)
  let locked = won & now < until
  let p0 = v0.Direct.prior
  C08,C10 require !direct | any(votes: elem(votes).0 == index)
  C10 require !direct | me == who | (!ongoing(index) & !locked)
  C08 require !direct | !ongoing(index) | tsubok(st.tally, old)
  C10 allows
  C08,C11,C13 final ReferendumInfoOf[index] = if direct & ongoing(index) then Some(ReferendumInfo::Ongoing(st with { tally: tredv(tsub(st.tally, old), old, dele) })) else ReferendumInfoOf[index]
  C08,C10,C11 final VotingOf[who] = if direct then v0 with { Direct.votes: remove(votes, i), Direct.prior: if locked then p0 with { 0: max(p0.0, until), 1: max(p0.1, old.Standard.balance) } else p0 } else v0
  C08,C10 frame

# ---- delegation --------------------------------------------------------------------------------------
def dadd(d, c, b) = Delegations{votes: satadd(d.votes, weight(c, b)), capital: satadd(d.capital, b)}
def dsub(d, c, b) = Delegations{votes: satsub(d.votes, weight(c, b)), capital: satsub(d.capital, b)}
def upadd(v, c, b) = if v is Voting::Direct then v with { Direct.delegations: dadd(v.Direct.delegations, c, b) } else v with { Delegating.delegations: dadd(v.Delegating.delegations, c, b) }
def upsub(v, c, b) = if v is Voting::Direct then v with { Direct.delegations: dsub(v.Direct.delegations, c, b) } else v with { Delegating.delegations: dsub(v.Delegating.delegations, c, b) }
def upcount(v) = if v is Voting::Direct then len(v.Direct.votes) else 1
def tincw(t, a, c, b) = if a then t with { turnout: satadd(t.turnout, b), ayes: satadd(t.ayes, weight(c, b)) } else t with { turnout: satadd(t.turnout, b), nays: satadd(t.nays, weight(c, b)) }
def tredw(t, a, c, b) = if a then t with { turnout: satsub(t.turnout, b), ayes: satsub(t.ayes, weight(c, b)) } else t with { turnout: satsub(t.turnout, b), nays: satsub(t.nays, weight(c, b)) }

fn delegate(origin, to, conviction, balance)
  let who = signed(origin)
  let target = Lookup::lookup(to).ok
  let v0 = VotingOf[who]
  let d = v0 is Voting::Delegating
  let was = v0.Delegating.target
  let oldc = v0.Delegating.conviction
  let oldb = v0.Delegating.balance
  let vw = VotingOf[was]
  let vt = VotingOf[target]
  let ew = elem(vw.Direct.votes)
  let et = elem(vt.Direct.votes)
  let p0 = v0.Delegating.prior
  C13,C14,C21 require issigned(origin)
  C13 require isok(Lookup::lookup(to))
  C13 require !(who == target)
  C09,C13 require balance <= Fungible::total_balance(who)
  C13 require d | len(v0.Direct.votes) == 0
  C09,C13 require isok(Fungible::extend_freeze(FreezeReason::Vote, who, balance))
  C13 allows
  C09,C13 call Fungible::extend_freeze(FreezeReason::Vote, who, balance)
  C13,C14 final VotingOf[who] = Voting::Delegating{balance: balance, target: target, conviction: conviction, delegations: if d then v0.Delegating.delegations else v0.Direct.delegations,
      prior: if d then p0 with { 0: max(p0.0, lockend(now, oldc)), 1: max(p0.1, oldb) } else v0.Direct.prior}
  C13,C14 put VotingOf[was] = upsub(vw, oldc, oldb) when d
  C13 put VotingOf[target] = upadd(vt, conviction, balance)
  C08,C13,C14 put ReferendumInfoOf[ew.0] = Some(ReferendumInfo::Ongoing(status(ew.0) with { tally: tredw(status(ew.0).tally, aye(ew.1), oldc, oldb) })) in vw.Direct.votes when d & vw is Voting::Direct & std(ew.1) & ongoing(ew.0)
  C08,C13 put ReferendumInfoOf[et.0] = Some(ReferendumInfo::Ongoing(status(et.0) with { tally: tincw(status(et.0).tally, aye(et.1), conviction, balance) })) in vt.Direct.votes when vt is Voting::Direct & std(et.1) & ongoing(et.0)
  C13 event Delegated{who: who, target: target}
  C65 charges WeightInfo::delegate(if vt is Voting::Direct then len(vt.Direct.votes) else 1)
  C08,C13,C14 frame

fn undelegate(origin)
  let who = signed(origin)
  let v0 = VotingOf[who]
  let was = v0.Delegating.target
  let oldc = v0.Delegating.conviction
  let oldb = v0.Delegating.balance
  let vw = VotingOf[was]
  let ew = elem(vw.Direct.votes)
  let p0 = v0.Delegating.prior
  C14,C21 require issigned(origin)
  C13,C14 require v0 is Voting::Delegating
  C14 allows
  C13,C14 final VotingOf[who] = Voting::Direct{votes: empty, delegations: v0.Delegating.delegations, prior: p0 with { 0: max(p0.0, lockend(now, oldc)), 1: max(p0.1, oldb) }}
  C13,C14 put VotingOf[was] = upsub(vw, oldc, oldb)
  C08,C13,C14 put ReferendumInfoOf[ew.0] = Some(ReferendumInfo::Ongoing(status(ew.0) with { tally: tredw(status(ew.0).tally, aye(ew.1), oldc, oldb) })) in vw.Direct.votes when vw is Voting::Direct & std(ew.1) & ongoing(ew.0)
  C14 event Undelegated{account: who}
  C65 charges WeightInfo::undelegate(if vw is Voting::Direct then len(vw.Direct.votes) else 1)
  C08,C13,C14 frame

fn unlock(origin, target)
  let who = Lookup::lookup(target).ok
  let v0 = VotingOf[who]
  let dir = v0 is Voting::Direct
  let p0 = if dir then v0.Direct.prior else v0.Delegating.prior
  let live = now < p0.0
  let lp = if live then p0.1 else 0
  let need = if dir then maxover(lp, v0.Direct.votes: true, vbal(elem(v0.Direct.votes).1)) else max(lp, v0.Delegating.balance)
  C15,C21 require issigned(origin)
  C15 require isok(Lookup::lookup(target))
  C15 require if need == 0 then isok(Fungible::thaw(FreezeReason::Vote, who)) else isok(Fungible::set_freeze(FreezeReason::Vote, who, need))
  C15 allows
  C09,C10,C14,C15 call Fungible::thaw(FreezeReason::Vote, who) when need == 0
  C09,C10,C14,C15 call Fungible::set_freeze(FreezeReason::Vote, who, need) when !(need == 0)
  C10,C14,C15 final VotingOf[who] = if live then v0 else if dir then v0 with { Direct.prior: p0 with { 0: 0, 1: 0 } } else v0 with { Delegating.prior: p0 with { 0: 0, 1: 0 } }
  C15 frame

# ---- external proposals -------------------------------------------------------------------------------
fn external_propose(origin, proposal)
  let h = Bounded::hash(proposal)
  C03,C21 require origin(ExternalOrigin, origin)
  C03 require none(NextExternal[])
  C03,C05,C06 require none(Blacklist[h]) | now >= Blacklist[h]?.0
  C03 allows
  C03 fails Error::DuplicateProposal when origin(ExternalOrigin, origin) & some(NextExternal[])
  C03 final NextExternal[] = Some((proposal, VoteThreshold::SuperMajorityApprove))
  C03 frame

fn external_propose_majority(origin, proposal)
  C03,C21 require origin(ExternalMajorityOrigin, origin)
  C03 allows
  C03 final NextExternal[] = Some((proposal, VoteThreshold::SimpleMajority))
  C20 final MetadataOf[MetadataOwner::External] = None
  C20 event MetadataCleared{owner: MetadataOwner::External, hash: MetadataOf[MetadataOwner::External]?} when some(MetadataOf[MetadataOwner::External])
  C03 frame

fn external_propose_default(origin, proposal)
  C03,C21 require origin(ExternalDefaultOrigin, origin)
  C03 allows
  C03 final NextExternal[] = Some((proposal, VoteThreshold::SuperMajorityAgainst))
  C20 final MetadataOf[MetadataOwner::External] = None
  C20 event MetadataCleared{owner: MetadataOwner::External, hash: MetadataOf[MetadataOwner::External]?} when some(MetadataOf[MetadataOwner::External])
  C03 frame

def newref(end, prop, thr, delay) = Some(ReferendumInfo::Ongoing(ReferendumStatus{end: end, proposal: prop, threshold: thr, delay: delay, tally: Tally{ayes: 0, nays: 0, turnout: 0}}))
def meta(o) = MetadataOf[o]

fn fast_track(origin, proposal_hash, voting_period, delay)
  let e = NextExternal[]?
  let r = ReferendumCount[]
  let ext = MetadataOwner::External
  let own = MetadataOwner::Referendum(r)
  let instant = origin(InstantOrigin, origin) & cfg(InstantAllowed)
  C04,C21 require if voting_period < cfg(FastTrackVotingPeriod) then instant else origin(FastTrackOrigin, origin) | instant
  C04 require voting_period > 0
  C04 require some(NextExternal[])
  C04 require !(e.1 is VoteThreshold::SuperMajorityApprove)
  C04 require proposal_hash == Bounded::hash(e.0)
  C04 allows
  C03,C04 final NextExternal[] = None
  C04,C19 final ReferendumCount[] = r + 1
  C04,C19 final ReferendumInfoOf[r] = newref(satadd(now, voting_period), e.0, e.1, delay)
  C04,C19 event Started{ref_index: r, threshold: e.1}
  C20 final MetadataOf[ext] = None
  C20 final MetadataOf[own] = if some(meta(ext)) then meta(ext) else meta(own)
  C20 event MetadataTransferred{prev_owner: ext, owner: own, hash: meta(ext)?} when some(meta(ext))
  C04 frame

fn veto_external(origin, proposal_hash)
  let who = originval(VetoOrigin, origin)
  let b = Blacklist[proposal_hash]
  let ext = MetadataOwner::External
  let vs = if some(b) then b?.1 else empty
  let at_ = if some(b) then ins(b?.1: who == elem(b?.1)) else 0
  C05,C21 require origin(VetoOrigin, origin)
  C05 require some(NextExternal[])
  C05 require proposal_hash == Bounded::hash(NextExternal[]?.0)
  C05 require none(b) | !any(b?.1: who == elem(b?.1))
  C05 require len(vs) < cfg(MaxBlacklisted)
  C05 allows
  C05 fails Error::AlreadyVetoed when origin(VetoOrigin, origin) & some(NextExternal[]) & proposal_hash == Bounded::hash(NextExternal[]?.0) & some(b) & any(b?.1: who == elem(b?.1))
  C05,C06 final Blacklist[proposal_hash] = Some((satadd(now, cfg(CooloffPeriod)), insert(vs, at_, who)))
  C03,C05 final NextExternal[] = None
  C20 final MetadataOf[ext] = None
  C20 event MetadataCleared{owner: ext, hash: meta(ext)?} when some(meta(ext))
  C05 event Vetoed{who: who, proposal_hash: proposal_hash, until: satadd(now, cfg(CooloffPeriod))}
  C05 frame

# ---- cancellation ---------------------------------------------------------------------------------------
fn emergency_cancel(origin, ref_index)
  let own = MetadataOwner::Referendum(ref_index)
  let h = Bounded::hash(status(ref_index).proposal)
  C07,C21 require origin(CancellationOrigin, origin)
  C07 require ongoing(ref_index)
  C07 require !exists(Cancellations[h])
  C07 allows
  C07 final Cancellations[h] = true
  C07 final ReferendumInfoOf[ref_index] = None
  C07 event Cancelled{ref_index: ref_index}
  C20 final MetadataOf[own] = None
  C20 event MetadataCleared{owner: own, hash: meta(own)?} when some(meta(own))
  C07 frame

fn cancel_referendum(origin, ref_index)
  let own = MetadataOwner::Referendum(ref_index)
  C07,C21 require isroot(origin)
  C07 allows
  C07 final ReferendumInfoOf[ref_index] = None
  C07 event Cancelled{ref_index: ref_index}
  C20 final MetadataOf[own] = None
  C20 event MetadataCleared{owner: own, hash: meta(own)?} when some(meta(own))
  C07 frame

fn clear_public_proposals(origin)
  C02,C21 require isroot(origin)
  C02 allows
  C02 final PublicProps[] = empty
  C01 del DepositOf[elem(PublicProps[]).0] in PublicProps[]
  C01,C02 frame

fn blacklist(origin, proposal_hash, maybe_ref_index)
  let pp = PublicProps[]
  let found = any(pp: proposal_hash == Bounded::hash(elem(pp).1))
  let i = pos(pp: proposal_hash == Bounded::hash(elem(pp).1))
  let idx = at(pp, i).0
  let d = DepositOf[idx]
  let ext = MetadataOwner::External
  let mine = MetadataOwner::Proposal(idx)
  let isext = some(NextExternal[]) & proposal_hash == Bounded::hash(NextExternal[]?.0)
  let ri = maybe_ref_index?
  let isref = some(maybe_ref_index) & ongoing(ri) & proposal_hash == Bounded::hash(status(ri).proposal)
  let rown = MetadataOwner::Referendum(ri)
  C06,C21 require origin(BlacklistOrigin, origin)
  C06 allows
  C06 final Blacklist[proposal_hash] = Some((maxvalue(), empty))
  C02,C06 final PublicProps[] = if found then remove(pp, i) else pp
  C01,C06 final DepositOf[idx] = None when found
  C01,C06 call Fungible::slash(HoldReason::Proposal, elem(d?.0), d?.1) in d?.0 when found & some(d)
  C01,C06 call Slash::on_unbalanced(Fungible::slash(HoldReason::Proposal, elem(d?.0), d?.1).0) in d?.0 when found & some(d)
  C03,C06 final NextExternal[] = if isext then None else NextExternal[]
  C06 final ReferendumInfoOf[ri] = None when isref
  C06 event Cancelled{ref_index: ri} when isref
  C06 event Blacklisted{proposal_hash: proposal_hash}
  C20 final MetadataOf[ext] = if isext then None else meta(ext)
  C20 event MetadataCleared{owner: ext, hash: meta(ext)?} when isext & some(meta(ext))
  C20 final MetadataOf[mine] = None when found
  C20 event MetadataCleared{owner: mine, hash: meta(mine)?} when found & some(meta(mine))
  C20 final MetadataOf[rown] = None when isref
  C20 event MetadataCleared{owner: rown, hash: meta(rown)?} when isref & some(meta(rown))
  C01,C06 frame

fn cancel_proposal(origin, prop_index)
  let pp = PublicProps[]
  let d = DepositOf[prop_index]
  let own = MetadataOwner::Proposal(prop_index)
  C06,C21 require origin(CancelProposalOrigin, origin)
  C06 allows
  C02,C06 final PublicProps[] = seq(pp: !(elem(pp).0 == prop_index), elem(pp))
  C01,C06 final DepositOf[prop_index] = None
  C01,C06 call Fungible::slash(HoldReason::Proposal, elem(d?.0), d?.1) in d?.0 when some(d)
  C01,C06 call Slash::on_unbalanced(Fungible::slash(HoldReason::Proposal, elem(d?.0), d?.1).0) in d?.0 when some(d)
  C06 event ProposalCanceled{prop_index: prop_index}
  C20 final MetadataOf[own] = None
  C20 event MetadataCleared{owner: own, hash: meta(own)?} when some(meta(own))
  C01,C06 frame

fn set_metadata(origin, owner, maybe_hash)
  let e = NextExternal[]?.1
  let pp = PublicProps[]
  let pi = owner.Proposal.0
  let ri = owner.Referendum.0
  let sr = ensure_signed_or_root(origin)
  C20,C21 require !(owner is MetadataOwner::External) | some(NextExternal[]) &
      (if e is VoteThreshold::SuperMajorityApprove then origin(ExternalOrigin, origin) else if e is VoteThreshold::SuperMajorityAgainst then origin(ExternalDefaultOrigin, origin) else origin(ExternalMajorityOrigin, origin))
  C20,C21 require !(owner is MetadataOwner::Proposal) | issigned(origin) & any(pp: elem(pp).0 == pi) & at(pp, pos(pp: elem(pp).0 == pi)).2 == signed(origin)
  C20,C21 require !(owner is MetadataOwner::Referendum) | isok(sr)
  C20,C21 require !(owner is MetadataOwner::Referendum) | none(sr.ok) | none(maybe_hash) & !ongoing(ri)
  C20 require none(maybe_hash) | some(Preimages::len(maybe_hash?))
  C20 allows
  C20 final MetadataOf[owner] = maybe_hash
  C20 event MetadataSet{owner: owner, hash: maybe_hash?} when some(maybe_hash)
  C20 event MetadataCleared{owner: owner, hash: meta(owner)?} when none(maybe_hash) & some(meta(owner))
  C20 frame

# ---- thresholds -----------------------------------------------------------------------------------------------
# a/b < c/d decided by continued fractions: compare the integer parts; when equal compare the reciprocals of the remainders
def ratcmp(a, b, c, d) = while(n1 = a, d1 = b, n2 = c, d2 = d; n1 -> d2, d1 -> rem(n2, d2), n2 -> d1, d2 -> rem(n1, d1);
    n1 / d1 < n2 / d2;
    !(n1 / d1 < n2 / d2) & n2 / d2 < n1 / d1;
    !(n1 / d1 < n2 / d2) & !(n2 / d2 < n1 / d1) & rem(n2, d2) == 0;
    !(n1 / d1 < n2 / d2) & !(n2 / d2 < n1 / d1) & !(rem(n2, d2) == 0) & rem(n1, d1) == 0)
def ratless(a, b, c, d) = exitsby(ratcmp(a, b, c, d): 0, 3)

fn approved in VoteThreshold(self, tally, electorate)
  let sv = Balance::integer_sqrt(tally.turnout)
  let se = Balance::integer_sqrt(electorate)
  C16 returns if sv == 0 then false else
      if self is VoteThreshold::SuperMajorityApprove then ratless(tally.nays, sv, tally.ayes, se) else
      if self is VoteThreshold::SuperMajorityAgainst then ratless(tally.nays, se, tally.ayes, sv) else
      bool(tally.nays < tally.ayes)
  C16 frame Balance::integer_sqrt

# ---- block hook: launching, concluding ----------------------------------------------------------------------------
fn on_initialize in Hooks(n)
  let due = rem(n, cfg(LaunchPeriod)) == 0
  let pp = PublicProps[]
  let dk = DepositOf[elem(pp).0]
  let win = pick(max_by_key, seq(pp: true, (pos(pp), elem(pp))), if some(dk) then satmul(dk?.1, len(dk?.0)) else 0).0
  let prop = at(pp, win)
  let d = DepositOf[prop.0]
  let ne = NextExternal[]
  let last = LastTabledWasExternal[]
  let ispub = due & !(len(pp) == 0) & (last | none(ne))
  let isext = due & some(ne) & (!last | len(pp) == 0)
  let r = ReferendumCount[]
  let ext = MetadataOwner::External
  let pown = MetadataOwner::Proposal(prop.0)
  let rown = MetadataOwner::Referendum(r)
  # a release that fails is not stated here: BestEffort releases fail only when the recorded hold is not there
  given len(pp) == 0 | some(d) & !any(d?.0: !isok(Fungible::release(HoldReason::Proposal, elem(d?.0), d?.1, Precision::BestEffort)))
  C18 final LastTabledWasExternal[] = if due then bool(isext) else last
  C18 final NextExternal[] = if isext then None else ne
  C02,C18 final PublicProps[] = if ispub then swap_remove(pp, win) else pp
  C01,C18 final DepositOf[prop.0] = if ispub then None else d
  C01,C18 call Fungible::release(HoldReason::Proposal, elem(d?.0), d?.1, Precision::BestEffort) in d?.0 when ispub
  C18,C19 final ReferendumCount[] = if ispub | isext then r + 1 else r
  C18,C19 final ReferendumInfoOf[r] = newref(satadd(n, cfg(VotingPeriod)), prop.1, VoteThreshold::SuperMajorityApprove, cfg(EnactmentPeriod)) when ispub
  C18,C19 final ReferendumInfoOf[r] = newref(satadd(n, cfg(VotingPeriod)), ne?.0, ne?.1, cfg(EnactmentPeriod)) when isext
  C18 event Tabled{proposal_index: prop.0, deposit: d?.1} when ispub
  C18 event ExternalTabled when isext
  C18,C19 event Started{ref_index: r, threshold: VoteThreshold::SuperMajorityApprove} when ispub
  C18,C19 event Started{ref_index: r, threshold: ne?.1} when isext
  C20 final MetadataOf[pown] = if ispub then None else meta(pown)
  C20 final MetadataOf[ext] = if isext then None else meta(ext)
  C20 final MetadataOf[rown] = if ispub & some(meta(pown)) then meta(pown) else if isext & some(meta(ext)) then meta(ext) else meta(rown)
  C20 event MetadataTransferred{prev_owner: pown, owner: rown, hash: meta(pown)?} when ispub & some(meta(pown))
  C20 event MetadataTransferred{prev_owner: ext, owner: rown, hash: meta(ext)?} when isext & some(meta(ext))
  # concluding: every open referendum that ends now, exactly once, with the outcome of its threshold
  let rng = upto(LowestUnbaked[], r)
  let i = elem(rng)
  let st = status(i)
  let matured = ongoing(i) & st.end == n
  let approved = eval('approved in VoteThreshold', st.threshold, st.tally, Electorate::get_electorate())
  C16,C17 put ReferendumInfoOf[i] = Some(ReferendumInfo::Finished{end: n, approved: approved}) in rng when matured
  C17 event Passed{ref_index: i} in rng when matured & approved
  C17 event NotPassed{ref_index: i} in rng when matured & !approved
  C61 call Scheduler::schedule_named(named((const('pallet_democracy::DEMOCRACY_ID'), i)), DispatchTime::At(satadd(n, max(1, st.delay))), None, 63, RawOrigin::Root, st.proposal) in rng when matured & approved
  C17 call Scheduler::schedule_named(anywith((const('pallet_democracy::DEMOCRACY_ID'), i)), DispatchTime::At(satadd(n, max(1, st.delay))), None, 63, RawOrigin::Root, st.proposal) in rng when matured & approved
  C17 final LowestUnbaked[] = sum(LowestUnbaked[], while(x = LowestUnbaked[]; x -> x + 1; !(x < r); x < r & ongoing(x)): true, 1)
  C17 frame hashing::blake2_256 Electorate::get_electorate Balance::integer_sqrt
  C65 returns if ispub | isext | any(rng: matured) then cfg(BlockWeights).max_block else if due then WeightInfo::on_initialize_base_with_launch_period(satsub(r, LowestUnbaked[])) else WeightInfo::on_initialize_base(satsub(r, LowestUnbaked[]))

def named(x) = padded(Encode::encode(x), default('[u8; 32]'))
def padded(b, t) = if len(b) <= len(t) then overlay(t, 0, b) else overlay(t, 0, take(hashing::blake2_256(b), len(t)))

# ---- votes as bytes ---------------------------------------------------------------------------------------------------
def convof(b) = if b == 0 then Conviction::None else if b == 1 then Conviction::Locked1x else if b == 2 then Conviction::Locked2x else
    if b == 3 then Conviction::Locked3x else if b == 4 then Conviction::Locked4x else if b == 5 then Conviction::Locked5x else Conviction::Locked6x
def byteof(c) = if c is Conviction::None then 0 else mult(c)
def isconv(b) = b == 0 | b == 1 | b == 2 | b == 3 | b == 4 | b == 5 | b == 6

fn encode_to in vote::Vote as(self, output)
  C12,C63 call T::push_byte(output, if bool(self.aye) then 128 + byteof(self.conviction) else byteof(self.conviction))
  C12,C63 frame

fn decode in vote::Vote as(input)
  let b = I::read_byte(input).ok
  C12,C63 require isok(I::read_byte(input))
  C12,C63 require isconv(bitand(b, 127))
  C12,C63 allows
  C12,C63 returns Ok(Vote{aye: !(bitand(b, 128) == 0), conviction: convof(bitand(b, 127))}) when isok(I::read_byte(input)) & isconv(bitand(b, 127))
  C12,C63 frame I::read_byte

fn try_from in conviction::Conviction as(i)
  C12,C63 require isconv(i)
  C12,C63 allows
  C12,C63 returns Ok(convof(i)) when isconv(i)

fn from in conviction::Conviction> for u8(c)
  C11,C12,C63 returns byteof(c)

fn max_encoded_len in vote::Vote as()
  C12 returns 1

# ---- conviction and vote arithmetic, as the public helpers give it -------------------------------------------------------
fn? lock_periods in conviction::Conviction::(self)
  C11 returns periods(self)

fn? votes in conviction::Conviction::(self, capital)
  C11 returns Delegations{votes: weight(self, capital), capital: capital}
  C11 frame

fn default in conviction::Conviction as()
  C11 returns Conviction::None

fn min_value in conviction::Conviction as()
  C11 returns Conviction::None

fn max_value in conviction::Conviction as()
  C11 returns Conviction::Locked6x

fn? balance in vote::AccountVote(self)
  C09,C11 returns vbal(self)

fn? locked_if in vote::AccountVote(self, approved)
  C10,C11 returns if std(self) & (aye(self) == bool(approved)) then Some((periods(self.Standard.vote.conviction), self.Standard.balance)) else None

fn? as_standard in vote::AccountVote(self)
  C08,C11 returns if std(self) then Some(self.Standard.vote.aye) else None

fn? accumulate in vote::PriorLock(self, until, amount)
  C10,C14 leaves self = self with { 0: max(self.0, until), 1: max(self.1, amount) }

fn? locked in vote::PriorLock(self)
  C10,C14,C15 returns self.1

fn? rejig in vote::PriorLock(self, t)
  C10,C14,C15 leaves self = if t >= self.0 then self with { 0: 0, 1: 0 } else self

fn? add in types::Tally(self, vote)
  C08,C11 leaves self = tadd(self, vote) when taddok(self, vote)
  C08 returns Some(()) when taddok(self, vote)
  C08 returns None when !taddok(self, vote)

fn? remove in types::Tally(self, vote)
  C08,C11 leaves self = tsub(self, vote) when tsubok(self, vote)
  C08 returns Some(()) when tsubok(self, vote)
  C08 returns None when !tsubok(self, vote)

fn? increase in types::Tally(self, approve, d)
  C08,C13 leaves self = tinc(self, bool(approve), d)
  C08,C13 returns Some(())

fn? reduce in types::Tally(self, approve, d)
  C08,C13 leaves self = tred(self, bool(approve), d)
  C08,C13 returns Some(())

fn? saturating_add in types::Delegations(self, o)
  C13 returns Delegations{votes: satadd(self.votes, o.votes), capital: satadd(self.capital, o.capital)}

fn? saturating_sub in types::Delegations(self, o)
  C13 returns Delegations{votes: satsub(self.votes, o.votes), capital: satsub(self.capital, o.capital)}

fn? rejig in vote::Voting(self, t)
  let p = if self is Voting::Direct then self.Direct.prior else self.Delegating.prior
  C10,C14,C15 leaves self = if t < p.0 then self else if self is Voting::Direct then self with { Direct.prior: p with { 0: 0, 1: 0 } } else self with { Delegating.prior: p with { 0: 0, 1: 0 } }

# ---- the other public entry points ------------------------------------------------------------------------------------------
fn build(self)
  C19 final PublicPropCount[] = 0
  C19 final ReferendumCount[] = 0
  C19 final LowestUnbaked[] = 0
  C19 frame

fn? backing_for(proposal)
  C18 returns if some(DepositOf[proposal]) then Some(satmul(DepositOf[proposal]?.1, len(DepositOf[proposal]?.0))) else None

fn? maturing_referenda_at(n)
  let rng = upto(LowestUnbaked[], ReferendumCount[])
  let i = elem(rng)
  C17 returns seq(rng: ongoing(i) & status(i).end == n, (i, status(i)))
  C17 frame

fn? new in ReferendumInfo<(end, proposal, threshold, delay)
  C19 returns newref(end, proposal, threshold, delay)?

fn? new in types::Tally(v, balance)
  C08 returns Tally{ayes: if bool(v.aye) then weight(v.conviction, balance) else 0, nays: if bool(v.aye) then 0 else weight(v.conviction, balance), turnout: balance}

fn? prior in vote::Voting(self)
  C10,C14 returns if self is Voting::Direct then self.Direct.prior else self.Delegating.prior

fn? internal_start_referendum(proposal, threshold, delay)
  let r = ReferendumCount[]
  C19 returns r
  C19 final ReferendumCount[] = r + 1
  C19 final ReferendumInfoOf[r] = newref(satadd(now, cfg(VotingPeriod)), proposal, threshold, delay)
  C19 event Started{ref_index: r, threshold: threshold}
  C19 frame

fn? internal_cancel_referendum(ref_index)
  let own = MetadataOwner::Referendum(ref_index)
  C07 final ReferendumInfoOf[ref_index] = None
  C07 event Cancelled{ref_index: ref_index}
  C20 final MetadataOf[own] = None
  C20 event MetadataCleared{owner: own, hash: meta(own)?} when some(meta(own))
  C07 frame

# ---- the name of a scheduled enactment ---------------------------------------------------------------------------------
fn? encode_into in EncodeInto(self)
  let t = default('T')
  let b = Encode::encode(self)
  C61 returns padded(b, t)
  C61 frame hashing::blake2_256

# ---- what an entry that was never written reads as ------------------------------------------------------------------------
fn? default in vote::Voting<()
  C63 returns Voting::Direct{votes: empty, delegations: Delegations{votes: 0, capital: 0}, prior: PriorLock{0: 0, 1: 0}}

# ---- what each call is charged before it runs -----------------------------------------------------------------------------
def charged(w) = DispatchInfo{weight: w, class: DispatchClass::Normal, pays_fee: Pays::Yes}
def urgent(w) = DispatchInfo{weight: w, class: DispatchClass::Operational, pays_fee: Pays::Yes}
fn get_dispatch_info in GetDispatchInfo(self)
  C65 returns charged(WeightInfo::propose()) when self is propose
  C65 returns charged(WeightInfo::second()) when self is second
  C65 returns charged(max(WeightInfo::vote_new(), WeightInfo::vote_existing())) when self is vote
  C65 returns urgent(WeightInfo::emergency_cancel()) when self is emergency_cancel
  C65 returns charged(WeightInfo::external_propose()) when self is external_propose
  C65 returns charged(wadd(WeightInfo::external_propose_majority(), wadd(RuntimeDbWeight::reads(cfg(DbWeight), 1), RuntimeDbWeight::writes(cfg(DbWeight), 1)))) when self is external_propose_majority
  C65 returns charged(wadd(WeightInfo::external_propose_default(), wadd(RuntimeDbWeight::reads(cfg(DbWeight), 1), RuntimeDbWeight::writes(cfg(DbWeight), 1)))) when self is external_propose_default
  C65 returns charged(WeightInfo::fast_track()) when self is fast_track
  C65 returns charged(WeightInfo::veto_external()) when self is veto_external
  C65 returns charged(WeightInfo::cancel_referendum()) when self is cancel_referendum
  C65 returns charged(WeightInfo::delegate(cfg(MaxVotes))) when self is delegate
  C65 returns charged(WeightInfo::undelegate(cfg(MaxVotes))) when self is undelegate
  C65 returns charged(WeightInfo::clear_public_proposals()) when self is clear_public_proposals
  C65 returns charged(max(WeightInfo::unlock_set(cfg(MaxVotes)), WeightInfo::unlock_remove(cfg(MaxVotes)))) when self is unlock
  C65 returns charged(WeightInfo::remove_vote(cfg(MaxVotes))) when self is remove_vote
  C65 returns charged(WeightInfo::remove_other_vote(cfg(MaxVotes))) when self is remove_other_vote
  C65 returns urgent(WeightInfo::blacklist()) when self is blacklist
  C65 returns charged(WeightInfo::cancel_proposal()) when self is cancel_proposal
  C65 returns charged(WeightInfo::set_external_metadata()) when self is set_metadata & argof(self, 'set_metadata', 'owner') is MetadataOwner::External & some(argof(self, 'set_metadata', 'maybe_hash'))
  C65 returns charged(WeightInfo::clear_external_metadata()) when self is set_metadata & argof(self, 'set_metadata', 'owner') is MetadataOwner::External & none(argof(self, 'set_metadata', 'maybe_hash'))
  C65 returns charged(WeightInfo::set_proposal_metadata()) when self is set_metadata & argof(self, 'set_metadata', 'owner') is MetadataOwner::Proposal & some(argof(self, 'set_metadata', 'maybe_hash'))
  C65 returns charged(WeightInfo::clear_proposal_metadata()) when self is set_metadata & argof(self, 'set_metadata', 'owner') is MetadataOwner::Proposal & none(argof(self, 'set_metadata', 'maybe_hash'))
  C65 returns charged(WeightInfo::set_referendum_metadata()) when self is set_metadata & argof(self, 'set_metadata', 'owner') is MetadataOwner::Referendum & some(argof(self, 'set_metadata', 'maybe_hash'))
  C65 returns charged(WeightInfo::clear_referendum_metadata()) when self is set_metadata & argof(self, 'set_metadata', 'owner') is MetadataOwner::Referendum & none(argof(self, 'set_metadata', 'maybe_hash'))

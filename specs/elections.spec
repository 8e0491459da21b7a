crate pallet_elections_phragmen

# kept in this order by every function that writes them (each write is stated below)
sorted Members[] by elem.who
sorted Candidates[] by elem.0
alias do_phragmen calls seq_phragmen
# what only the operations stated below may change
owns C22,C23 Voting FreezeReason::Voting
owns C24 Candidates HoldReason::Candidacy
owns C25 HoldReason::Candidacy Members RunnersUp Candidates
owns C26 Members RunnersUp ChangeMembers::*
owns C28 Members RunnersUp Candidates ElectionRounds ChangeMembers::*
owns C29 HoldReason::Candidacy
owns C31 ChangeMembers::set_prime

# every event, and no other, is stated
also C64 event
owns C64 Event
watch do_phragmen Members[] RunnersUp[] Candidates[]

def seat(x) = any(Members[]: elem(Members[]).who == x)
def seatix(x) = pos(Members[]: elem(Members[]).who == x)
def runner(x) = any(RunnersUp[]: elem(RunnersUp[]).who == x)
def runnerix(x) = pos(RunnersUp[]: elem(RunnersUp[]).who == x)
def cand(x) = any(Candidates[]: elem(Candidates[]).0 == x)
def candix(x) = pos(Candidates[]: elem(Candidates[]).0 == x)

# ---- voting --------------------------------------------------------------------------------------
fn vote(origin, votes, value)
  let who = signed(origin)
  let targets = satadd(satadd(len(Candidates[]), len(Members[])), len(RunnersUp[]))
  let v0 = Voting[who]
  let stake = min(value, Currency::total_balance(who))
  C22,C33 require issigned(origin)
  C22 require len(votes) <= cfg(MaxVotesPerVoter)
  C22 require !(len(votes) == 0)
  C22 require !(len(Candidates[]) == 0) | !(len(Members[]) == 0) | !(len(RunnersUp[]) == 0)
  C22 require len(votes) <= targets
  C22 require if now < v0.lockup_till then value >= v0.stake else value > Currency::minimum_balance()
  C22 require isok(Currency::set_freeze(FreezeReason::Voting, who, stake))
  C22 allows
  C22 call Currency::set_freeze(FreezeReason::Voting, who, stake)
  C22,C23 final Voting[who] = Voter{votes: votes, stake: stake, lockup_till: now + cfg(VotingLockPeriod)}
  C65 charges declared
  C22 frame

fn remove_voter(origin)
  let who = signed(origin)
  C23,C33 require issigned(origin)
  C23 require exists(Voting[who])
  C23 require Voting[who].lockup_till <= now
  C23 require isok(Currency::thaw(FreezeReason::Voting, who))
  C23 allows
  C23 fails Error::MustBeVoter when issigned(origin) & !exists(Voting[who])
  C23 fails Error::VotingPeriodNotEnded when issigned(origin) & exists(Voting[who]) & now < Voting[who].lockup_till
  C23 call Currency::thaw(FreezeReason::Voting, who)
  C23 del Voting[who]
  C23 frame

fn clean_defunct_voters(origin, num_voters, num_defunct)
  let some_ = take(entries(Voting), num_voters)
  let vs = elem(some_).1.votes
  let dead = seq(some_: !any(vs: seat(elem(vs))) & !any(vs: runner(elem(vs))) & !any(vs: cand(elem(vs))), elem(some_))
  let gone = take(dead, num_defunct)
  C23,C33 require isroot(origin)
  C23 require !any(gone: !isok(Currency::thaw(FreezeReason::Voting, elem(gone).0)))
  C23 allows
  C23 call Currency::thaw(FreezeReason::Voting, elem(gone).0) in gone
  C23 del Voting[elem(gone).0] in gone
  C23 frame

# ---- candidacy -----------------------------------------------------------------------------------
fn submit_candidacy(origin, candidate_count)
  let who = signed(origin)
  let bond = cfg(CandidacyBond)
  C24,C33 require issigned(origin)
  C24 require len(Candidates[]) <= candidate_count
  C24 require len(Candidates[]) <= cfg(MaxCandidates)
  C24 require len(Candidates[]) < cfg(MaxCandidates)
  C24 require !cand(who)
  C24 require !seat(who)
  C24 require !runner(who)
  C24 require isok(Currency::hold(HoldReason::Candidacy, who, bond))
  C24 allows
  C24,C25 call Currency::hold(HoldReason::Candidacy, who, bond)
  C24,C25 final Candidates[] = insert(Candidates[], ins(Candidates[]: elem(Candidates[]).0 == who), (who, bond))
  C24,C25 frame

# a seat falls free: the best runner-up (the last one) moves up, the members stay in order, the collective is told
def out(x) = remove(Members[], seatix(x))
def best() = at(RunnersUp[], lastix)
def fill() = !(len(RunnersUp[]) == 0)
def refill(x) = fill() & !any(out(x): elem(out(x)).who == best().who)
def members1(x) = if refill(x) then insert(out(x), ins(out(x): elem(out(x)).who == best().who), best()) else out(x)
def runners1() = if fill() then pop(RunnersUp[]) else RunnersUp[]
def whos(l) = seq(l: true, elem(l).who)

fn renounce_candidacy(origin, renouncing)
  let who = signed(origin)
  let m = renouncing is Renouncing::Member
  let r = renouncing is Renouncing::RunnerUp
  let c = renouncing is Renouncing::Candidate
  let bond = if m then at(Members[], seatix(who)).deposit else if r then at(RunnersUp[], runnerix(who)).deposit else at(Candidates[], candix(who)).1
  C25,C33 require issigned(origin)
  C25 require if m then seat(who) else if r then runner(who) else cand(who)
  C25 require !c | len(Candidates[]) <= renouncing.Candidate.0
  C25 require isok(Currency::release(HoldReason::Candidacy, who, bond, Precision::Exact))
  C25 allows
  C25 call Currency::release(HoldReason::Candidacy, who, bond, Precision::Exact)
  C25 final Candidates[] = if c then remove(Candidates[], candix(who)) else Candidates[]
  C25,C26 final RunnersUp[] = if m then runners1() else if r then remove(RunnersUp[], runnerix(who)) else RunnersUp[]
  C25,C26 final Members[] = if m then members1(who) else Members[]
  C26 call ChangeMembers::change_members_sorted([best().who], [who], whos(members1(who))) when m & fill()
  C26 call ChangeMembers::change_members_sorted(empty, [who], whos(out(who))) when m & !fill()
  C26 call ChangeMembers::set_prime(ChangeMembers::get_prime()) when m & some(ChangeMembers::get_prime()) & !(ChangeMembers::get_prime()? == who)
  C26 order ChangeMembers::change_members_sorted before ChangeMembers::set_prime
  C25 event Renounced{candidate: who}
  C25,C26 frame ChangeMembers::get_prime

fn remove_member(origin, who, slash_bond, rerun_election)
  let w = Lookup::lookup(who).ok
  let bond = at(Members[], seatix(w)).deposit
  let slashed = Currency::slash(HoldReason::Candidacy, w, bond)
  # in debug builds a shortfall of the slash is asserted away
  given !bool(slash_bond) | slashed.1 == 0
  C26,C33 require isroot(origin)
  C26 require isok(Lookup::lookup(who))
  C26 require seat(w)
  C25,C26 require bool(slash_bond) | isok(Currency::release(HoldReason::Candidacy, w, bond, Precision::Exact))
  C26 allows
  C25,C26 call Currency::slash(HoldReason::Candidacy, w, bond) when bool(slash_bond)
  C25,C26 call LoserCandidate::on_unbalanced(slashed.0) when bool(slash_bond)
  C25,C26 event SeatHolderSlashed{seat_holder: w, amount: bond} when bool(slash_bond)
  C25,C26 call Currency::release(HoldReason::Candidacy, w, bond, Precision::Exact) when !bool(slash_bond)
  C25,C26 final Members[] = members1(w) when !bool(rerun_election)
  C25,C26 final RunnersUp[] = runners1() when !bool(rerun_election)
  C26 call ChangeMembers::change_members_sorted([best().who], [w], whos(members1(w))) when fill()
  C26 call ChangeMembers::change_members_sorted(empty, [w], whos(out(w))) when !fill()
  C26 call ChangeMembers::set_prime(ChangeMembers::get_prime()) when some(ChangeMembers::get_prime()) & !(ChangeMembers::get_prime()? == w)
  C26 event MemberKicked{member: w}
  C26,C32 runs do_phragmen(members1(w), runners1(), Candidates[]) when bool(rerun_election)
  C26 frame ChangeMembers::get_prime within:do_phragmen

# ---- the election --------------------------------------------------------------------------------
def issuance() = Currency::total_issuance()
def voters() = entries(Voting)
def nobody() = len(Candidates[]) == 0 & len(Members[]) == 0 & len(RunnersUp[]) == 0
def standing() = concat(seq(Candidates[]: true, elem(Candidates[]).0), whos(Members[]), whos(RunnersUp[]))
def ballots() = seq(voters(): true, (elem(voters()).0, CurrencyToVote::to_vote(elem(voters()).1.stake, issuance()), elem(voters()).1.votes))
def phragmen() = sp_npos_elections::seq_phragmen(cfg(DesiredMembers) + cfg(DesiredRunnersUp), standing(), ballots(), None)
def runs() = !nobody() & len(voters()) <= cfg(MaxVoters)
def held() = runs() & isok(phragmen())
def wins() = phragmen().ok.winners
# winners with backing, best first; the first DesiredMembers of them are the members, the rest the runners-up
def backed() = seq(wins(): !(elem(wins()).1 == 0), (elem(wins()).0, CurrencyToVote::to_currency(elem(wins()).1, issuance())))
def newmem() = sorted(take(backed(), cfg(DesiredMembers)), lam(x: x.0))
def newrun() = rev(skip(backed(), cfg(DesiredMembers)))
def firsts(l) = seq(l: true, elem(l).0)
def bondof(x) = if cand(x) then at(Candidates[], candix(x)).1 else if seat(x) then at(Members[], seatix(x)).deposit else if runner(x) then at(RunnersUp[], runnerix(x)).deposit else 0
def seated(l) = seq(l: true, SeatHolder{who: elem(l).0, stake: elem(l).1, deposit: bondof(elem(l).0)})
def kept(x) = any(newmem(): elem(newmem()).0 == x) | any(newrun(): elem(newrun()).0 == x)
# Borda count: a voter's n-th choice is worth stake * (MaxVotesPerVoter - n) to it; of equals, the one with the highest account
def choices() = elem(voters()).1.votes
def points() = satmul(elem(voters()).1.stake, cfg(MaxVotesPerVoter) - pos(choices()))
def scored(q, x) = any(q: elem(q).0 == x)
def scoreix(q, x) = pos(q: elem(q).0 == x)
def credit(q, x) = if scored(q, x) then setidx(q, scoreix(q, x), at(q, scoreix(q, x)) with {1: satadd(at(q, scoreix(q, x)).1, points())}) else q
def scores() = acc(p = seq(newmem(): true, (elem(newmem()).0, 0)) in voters() -> acc(q = p in choices() -> credit(q, elem(choices()))))
def borda() = if len(newmem()) == 0 then None else Some(pick(max_by_key, scores(), elem(scores()).1).0)
def diff() = ChangeMembers::compute_members_diff_sorted(firsts(newmem()), whos(Members[]))

# the weight the block hook reports: what was read before it gave up, or the election's own
def electionweight() = if nobody() then RuntimeDbWeight::reads(cfg(DbWeight), 3) else if len(voters()) > cfg(MaxVoters) then RuntimeDbWeight::reads(cfg(DbWeight), 3 + cfg(MaxVoters))
    else WeightInfo::election_phragmen(len(Candidates[]) + len(Members[]) + len(RunnersUp[]), len(voters()), sum(0, voters(): true, len(elem(voters()).1.votes)))

fn? do_phragmen()
  let cs = Candidates[]
  let ms = Members[]
  let rs = RunnersUp[]
  C27,C30 event EmptyTerm when nobody()
  C27,C30 event ElectionError when !nobody() & len(voters()) > cfg(MaxVoters)
  C27,C30 event ElectionError when runs() & !isok(phragmen())
  C27 call sp_npos_elections::seq_phragmen(cfg(DesiredMembers) + cfg(DesiredRunnersUp), standing(), ballots(), None) when runs()
  C25,C28,C30 final Members[] = if held() then seated(newmem()) else ms
  C25,C28,C30 final RunnersUp[] = if held() then seated(newrun()) else rs
  C28,C30 final Candidates[] = if held() then empty else cs
  C28,C30 final ElectionRounds[] = if held() then ElectionRounds[] + 1 else ElectionRounds[]
  C28 event NewTerm{new_members: newmem()} when held()
  C28,C30 call ChangeMembers::change_members_sorted(diff().0, diff().1, firsts(newmem())) when held()
  C25,C29,C30 call Currency::slash(HoldReason::Candidacy, elem(cs).0, elem(cs).1) in cs when held() & !kept(elem(cs).0)
  C25,C29,C30 call Currency::slash(HoldReason::Candidacy, elem(ms).who, elem(ms).deposit) in ms when held() & !kept(elem(ms).who)
  C25,C29,C30 call Currency::slash(HoldReason::Candidacy, elem(rs).who, elem(rs).deposit) in rs when held() & !kept(elem(rs).who)
  C25,C29 call LoserCandidate::on_unbalanced(Currency::slash(HoldReason::Candidacy, elem(cs).0, elem(cs).1).0) in cs when held() & !kept(elem(cs).0)
  C25,C29 call LoserCandidate::on_unbalanced(Currency::slash(HoldReason::Candidacy, elem(ms).who, elem(ms).deposit).0) in ms when held() & !kept(elem(ms).who)
  C25,C29 call LoserCandidate::on_unbalanced(Currency::slash(HoldReason::Candidacy, elem(rs).who, elem(rs).deposit).0) in rs when held() & !kept(elem(rs).who)
  C29 event CandidateSlashed{candidate: elem(cs).0, amount: elem(cs).1} in cs when held() & !kept(elem(cs).0)
  C29 event CandidateSlashed{candidate: elem(ms).who, amount: elem(ms).deposit} in ms when held() & !kept(elem(ms).who)
  C29 event CandidateSlashed{candidate: elem(rs).who, amount: elem(rs).deposit} in rs when held() & !kept(elem(rs).who)
  C31 call ChangeMembers::set_prime(borda()) when held()
  C31 order ChangeMembers::change_members_sorted before ChangeMembers::set_prime
  C27,C28,C29,C30 frame CurrencyToVote::* ChangeMembers::compute_members_diff_sorted

# ---- when elections happen -----------------------------------------------------------------------
fn on_initialize in Hooks(n)
  let due = !(cfg(TermDuration) == 0) & rem(n, cfg(TermDuration)) == 0
  C32 runs do_phragmen(Members[], RunnersUp[], Candidates[]) when due
  C65 returns if due then electionweight() else wzero()
  C32 frame within:do_phragmen

# ---- genesis and views ---------------------------------------------------------------------------
fn build(self)
  let ms = self.members
  let e = elem(ms)
  C33 call InitializeMembers::initialize_members(firsts(ms))
  C33 final Members[] = acc(m = Members[] in ms -> insert(m, ins(m: elem(m).who == e.0), SeatHolder{who: e.0, stake: e.1, deposit: 0}))
  C33 put Voting[e.0] = Voter{votes: [e.0], stake: e.1, lockup_till: cfg(VotingLockPeriod)} in ms
  C33 require !any(ms: Currency::balance(elem(ms).0) < elem(ms).1)
  C33 require len(ms) <= cfg(DesiredMembers)

fn contains in impl frame_support::traits::Contains<(who)
  C33 returns bool(seat(who))

fn contains in impl frame_support::traits::SortedMembers(who)
  C33 returns bool(seat(who))

fn sorted_members()
  C33 returns whos(Members[])

fn max_len()
  C33 returns cfg(DesiredMembers)

fn min_len()
  C33 returns 0

# ---- what an entry that was never written reads as ------------------------------------------------------------------------
fn? default in Voter<()
  C63 returns Voter{votes: empty, stake: 0, lockup_till: 0}

# ---- what each call is charged before it runs -----------------------------------------------------------------------------
def charged(w) = DispatchInfo{weight: w, class: DispatchClass::Normal, pays_fee: Pays::Yes}
fn get_dispatch_info in GetDispatchInfo(self)
  let n = len(argof(self, 'vote', 'votes'))
  let role = argof(self, 'renounce_candidacy', 'renouncing')
  let rerun = bool(argof(self, 'remove_member', 'rerun_election'))
  C65 returns charged(max(max(WeightInfo::vote_more(n), WeightInfo::vote_less(n)), WeightInfo::vote_equal(n))) when self is vote
  C65 returns charged(WeightInfo::remove_voter()) when self is remove_voter
  C65 returns charged(WeightInfo::submit_candidacy(argof(self, 'submit_candidacy', 'candidate_count'))) when self is submit_candidacy
  C65 returns charged(WeightInfo::renounce_candidacy_candidate(role.Candidate.0)) when self is renounce_candidacy & role is Renouncing::Candidate
  C65 returns charged(WeightInfo::renounce_candidacy_members()) when self is renounce_candidacy & role is Renouncing::Member
  C65 returns charged(WeightInfo::renounce_candidacy_runners_up()) when self is renounce_candidacy & role is Renouncing::RunnerUp
  C65 returns charged(WeightInfo::remove_member_without_replacement()) when self is remove_member & rerun
  C65 returns charged(WeightInfo::remove_member_with_replacement()) when self is remove_member & !rerun
  C65 returns charged(WeightInfo::clean_defunct_voters(argof(self, 'clean_defunct_voters', 'num_voters'), argof(self, 'clean_defunct_voters', 'num_defunct'))) when self is clean_defunct_voters

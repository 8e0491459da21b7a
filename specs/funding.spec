crate pallet_funding
watch decide_winning_bids
watch create_migration

def cred(o, jwt) = InvestorOrigin::ensure_origin(o, jwt, cfg(VerifierPublicKey))
def who(o, jwt) = cred(o, jwt).ok.0
def did(o, jwt) = cred(o, jwt).ok.1
def kind(o, jwt) = cred(o, jwt).ok.2
def policy(o, jwt) = cred(o, jwt).ok.3
def project(p) = ProjectsDetails[p]?
def meta(p) = ProjectsMetadata[p]?
def ended(d) = !some(d.round_duration.end) | d.round_duration.end? <= now
def started(d) = !some(d.round_duration.start) | d.round_duration.start? <= now
def open_until(d) = BlockNumberPair{start: Some(now), end: Some(satsub(satadd(now, d), 1))}
def unbounded() = BlockNumberPair{start: Some(now), end: None}
def target(p) = cfg(EvaluationSuccessThreshold) * project(p).fundraising_target_usd
def enough(p) = project(p).evaluation_round_info.total_bonded_usd >= target(p)
def pot(p) = AccountIdConversion::into_sub_account_truncating(cfg(PalletId), satadd(p, 1))

# ---- phases ---------------------------------------------------------------------------------------
fn? transition_project(p, d, from, to, duration, skip)
  C51 require d.status == from
  C51 require skip | ended(d)
  C51 allows
  C51 fails Error::IncorrectRound when !(d.status == from)
  C51 final ProjectsDetails[p] = Some(d with {status: to, round_duration: if some(duration) then open_until(duration?) else unbounded()})
  C51 event ProjectPhaseTransition{project_id: p, phase: to}
  C51 frame

fn started in BlockNumberPair(self, at)
  C51 returns !some(self.start) | self.start? <= at
  C51 frame

fn ended in BlockNumberPair(self, at)
  C51 returns !some(self.end) | self.end? <= at
  C51 frame

fn start_evaluation(o, jwt, p)
  C51 require isok(cred(o, jwt))
  C51 require kind(o, jwt) is Institutional
  C51 require some(ProjectsDetails[p])
  C51 require some(ProjectsMetadata[p])
  C51 require project(p).issuer_account == who(o, jwt)
  C51 require !project(p).is_frozen
  C51 require some(meta(p).policy_ipfs_cid)
  C51 require project(p).status is Application
  C51 require ended(project(p))
  C51 allows
  C51 final ProjectsDetails[p] = Some(project(p) with {is_frozen: true, status: ProjectStatus::EvaluationRound, round_duration: open_until(cfg(EvaluationRoundDuration))})
  C51 event ProjectPhaseTransition{project_id: p, phase: ProjectStatus::EvaluationRound}
  C51 frame InvestorOrigin::ensure_origin

fn end_evaluation(o, p)
  C51 require issigned(o)
  C51 require some(ProjectsDetails[p])
  C51 require project(p).status is EvaluationRound
  C51 require ended(project(p))
  C51 allows
  C51 final ProjectsDetails[p] = if enough(p) then Some(project(p) with {status: ProjectStatus::AuctionRound, round_duration: open_until(cfg(AuctionRoundDuration))}) else Some(project(p) with {status: ProjectStatus::FundingFailed, round_duration: open_until(1)})
  C51 final DidWithActiveProjects[project(p).issuer_did] = None when !enough(p)
  C51 final DidWithActiveProjects[project(p).issuer_did] = DidWithActiveProjects[project(p).issuer_did] when enough(p)
  C51 event ProjectPhaseTransition{project_id: p, phase: if enough(p) then ProjectStatus::AuctionRound else ProjectStatus::FundingFailed}
  C51 frame

# ---- projects -------------------------------------------------------------------------------------
fn remove_project(o, jwt, p)
  C51 require isok(cred(o, jwt))
  C51 require kind(o, jwt) is Institutional
  C51 require some(ProjectsDetails[p])
  C51 require project(p).issuer_account == who(o, jwt)
  C51 require !project(p).is_frozen
  C51 allows
  C51 fails Error::ProjectIsFrozen when isok(cred(o, jwt)) & kind(o, jwt) is Institutional & some(ProjectsDetails[p]) & project(p).issuer_account == who(o, jwt) & project(p).is_frozen
  C51 final ProjectsDetails[p] = None
  C51 final ProjectsMetadata[p] = None
  C51 final Buckets[p] = None
  C51 final DidWithActiveProjects[project(p).issuer_did] = None
  C51 event ProjectRemoved{project_id: p, issuer: who(o, jwt)}
  C51 frame InvestorOrigin::ensure_origin

# ---- project metadata -----------------------------------------------------------------------------
def ticket(t, least) = (!some(t.usd_maximum_per_did) | t.usd_minimum_per_participation <= t.usd_maximum_per_did?) & t.usd_minimum_per_participation >= least
def ten_price(d) = Price::checked_from_rational(u128::checked_pow(10, d)?, 1)

def fresh(m, who, did) = ProjectDetails{issuer_account: who, issuer_did: did, is_frozen: false, weighted_average_price: None, fundraising_target_usd: Price::checked_mul_int(m.minimum_price, m.total_allocation_size)?, status: ProjectStatus::Application, round_duration: BlockNumberPair{start: None, end: None}, remaining_contribution_tokens: m.total_allocation_size, funding_amount_reached_usd: 0, evaluation_round_info: EvaluationRoundInfo{total_bonded_usd: 0, total_bonded_plmc: 0, evaluators_outcome: None}, usd_bid_on_oversubscription: None, funding_end_block: None, migration_type: None}

fn is_valid in ProjectMetadata(m)
  let d = m.token_information.decimals
  let goal = Price::saturating_mul_int(m.minimum_price, m.total_allocation_size)
  let unit = ten_price(absdiff(d, 6))
  let price = m.minimum_price * unit?
  let least = Price::checked_from_rational(1, 100000)
  let most = Price::checked_from_rational(1000, 1)
  C69 require !(m.minimum_price == 0)
  C69 require ticket(m.bidding_ticket_sizes.professional, 5000000000)
  C69 require ticket(m.bidding_ticket_sizes.institutional, 5000000000)
  C69 require ticket(m.contributing_ticket_sizes.institutional, 1000000)
  C69 require ticket(m.contributing_ticket_sizes.professional, 1000000)
  C69 require ticket(m.contributing_ticket_sizes.retail, 1000000)
  C69 require !(m.total_allocation_size == 0)
  C69 require m.total_allocation_size <= m.mainnet_token_max_supply
  C69 require m.total_allocation_size >= satpow(10, d)
  C69 require m.auction_round_allocation_percentage > Percent::from_percent(0)
  C69 require len(distinct(m.participation_currencies)) == len(m.participation_currencies)
  C69 require goal >= 1000000000
  C69 require goal <= 1000000000000000
  C69 require d >= 6 & d <= 18
  C69 require some(unit) & some(cmul(m.minimum_price, unit?))
  C69 require some(least) & some(most)
  C69 require price >= least?
  C69 require price <= most?
  C69 allows some(u128::checked_pow(10, absdiff(d, 6)))
  C69 frame Price::* u128::checked_pow

fn create_bucket_from_metadata(m)
  let all = m.auction_round_allocation_percentage * m.total_allocation_size
  let tenth = Price::checked_from_rational(1, 10)
  C69 require some(tenth)
  C69 allows
  C69 returns Ok(Bucket{amount_left: all, current_price: m.minimum_price, initial_price: m.minimum_price, delta_price: satmul(m.minimum_price, tenth?), delta_amount: Percent::from_percent(10) * all}) when some(tenth)
  C69 frame Price::*

fn create_project(o, jwt, m)
  C69 require isok(cred(o, jwt))
  C69 require kind(o, jwt) is Institutional
  C69 require isok(eval('is_valid in ProjectMetadata', m))
  C69 final ProjectsDetails[NextProjectId[]] = Some(fresh(m, who(o, jwt), did(o, jwt)))
  C69 final Buckets[NextProjectId[]] = Some(eval('create_bucket_from_metadata', m).ok)

fn edit_project(o, jwt, p, m)
  C69 require isok(cred(o, jwt))
  C69 require kind(o, jwt) is Institutional
  C69 require some(ProjectsDetails[p])
  C69 require project(p).issuer_account == who(o, jwt)
  C69 require !project(p).is_frozen
  C69 require isok(eval('is_valid in ProjectMetadata', m))
  C69 final ProjectsMetadata[p] = Some(m)
  C69 final ProjectsDetails[p] = Some(fresh(m, who(o, jwt), project(p).issuer_did))
  C69 final Buckets[p] = Some(eval('create_bucket_from_metadata', m).ok)
  C69 allows some(Price::checked_mul_int(m.minimum_price, m.total_allocation_size)) & isok(eval('create_bucket_from_metadata', m))
  C69 event MetadataEdited{project_id: p, metadata: m}
  C69 frame InvestorOrigin::ensure_origin Price::* u128::checked_pow

fn? do_create_project(who, m, did)
  let p = NextProjectId[]
  let ed = NativeCurrency::transfer(who, pot(p), cfg(ExistentialDeposit), Preservation::Preserve)
  C51 require !some(DidWithActiveProjects[did])
  C51 final NextProjectId[] = satadd(p, 1)
  C51 final DidWithActiveProjects[did] = Some(p)
  C51 final ProjectsMetadata[p] = Some(m)
  C51 require isok(ed)
  C51 event ProjectCreated{project_id: p, issuer: who, metadata: m}

# ---- evaluations ----------------------------------------------------------------------------------
def plmc_price() = PriceProvider::get_decimals_aware_price(3344, 6, 10)
def plmc_for(usd) = Price::checked_mul_int(Price::reciprocal(plmc_price()?)?, usd)
def evals(p, who) = len(entries(Evaluations, p, who))

fn evaluate(o, jwt, p, usd)
  let w = who(o, jwt)
  let d = project(p)
  let info = d.evaluation_round_info
  let id = NextEvaluationId[]
  let bond = plmc_for(usd)?
  let early = min(usd, satsub(target(p), info.total_bonded_usd))
  let hold = NativeCurrency::hold(HoldReason::Evaluation, w, bond)
  C52 require isok(cred(o, jwt))
  C52 require some(ProjectsDetails[p])
  C52 require some(ProjectsMetadata[p])
  C52 require some(plmc_price())
  C52 require some(Price::reciprocal(plmc_price()?))
  C52 require some(plmc_for(usd))
  C52 require some(meta(p).policy_ipfs_cid)
  C52 require meta(p).policy_ipfs_cid? == policy(o, jwt)
  C52 require usd >= cfg(MinUsdPerEvaluation)
  C52 require !(d.issuer_did == did(o, jwt))
  C52 require d.status is EvaluationRound
  C52 require started(d)
  C52 require !ended(d)
  C52 require EvaluationCounts[p] < cfg(MaxEvaluationsPerProject)
  C52 require evals(p, w) < cfg(MaxEvaluationsPerUser)
  C52 require isok(hold)
  C52 call NativeCurrency::hold(HoldReason::Evaluation, w, bond)
  C52 allows
  C52 final Evaluations[p, w, id] = Some(EvaluationInfo{id: id, did: did(o, jwt), project_id: p, evaluator: w, original_plmc_bond: bond, current_plmc_bond: bond, early_usd_amount: early, late_usd_amount: usd - early, when: now})
  C52 final NextEvaluationId[] = satadd(id, 1)
  C52 final EvaluationCounts[p] = satadd(EvaluationCounts[p], 1)
  C52 final ProjectsDetails[p] = Some(d with {evaluation_round_info: info with {total_bonded_usd: satadd(info.total_bonded_usd, usd), total_bonded_plmc: satadd(info.total_bonded_plmc, bond)}})
  C52 event Evaluation{project_id: p, evaluator: w, id: id, plmc_amount: bond}
  C52 frame InvestorOrigin::ensure_origin PriceProvider::* Price::* WeightInfo::*

# ---- bids -----------------------------------------------------------------------------------------
def multiplier(mode) = if mode is OTM then 5 else mode.Classic.0
def asset(a) = if a is USDT then 1984 else if a is USDC then 1337 else 10
def asset_price(a) = PriceProvider::get_decimals_aware_price(asset(a), 6, FundingCurrency::decimals(asset(a)))
def asset_for(usd, a) = Price::checked_mul_int(Price::reciprocal(asset_price(a)?)?, usd)
def bondable(usd, mode) = Multiplier::calculate_usd_bonding_requirement(Multiplier::try_from(multiplier(mode)).ok, usd)
def bond_for(usd, mode) = plmc_for(bondable(usd, mode)?)
def mine(p, w) = values(Evaluations, p, w)
def spare(e) = satsub(e.current_plmc_bond, cfg(EvaluatorSlash) * e.original_plmc_bond)

fn usd_ticket_above_minimum_per_participation in TicketSize(self, usd)
  C53,C54 returns usd >= self.usd_minimum_per_participation
  C53,C54 frame

fn usd_ticket_below_maximum_per_did in TicketSize(self, usd)
  C53,C54 returns !some(self.usd_maximum_per_did) | usd <= self.usd_maximum_per_did?
  C53,C54 frame

fn update in Bucket(self, removed)
  let left = satsub(self.amount_left, removed)
  C53 leaves self = if left == 0 then self with {amount_left: self.delta_amount, current_price: satadd(self.current_price, self.delta_price)} else self with {amount_left: left}
  C53 frame Price::saturating_add

fn bid(o, jwt, p, ct, mode, a)
  let b = Buckets[p]?
  let size = if kind(o, jwt) is Institutional then meta(p).bidding_ticket_sizes.institutional else meta(p).bidding_ticket_sizes.professional
  C53 require isok(cred(o, jwt))
  C53 require some(ProjectsDetails[p])
  C53 require some(ProjectsMetadata[p])
  C53 require some(Buckets[p])
  C53 require some(meta(p).policy_ipfs_cid)
  C53 require meta(p).policy_ipfs_cid? == policy(o, jwt)
  C53 require !(kind(o, jwt) is Retail)
  C53 require !(ct == 0)
  C53 require !(project(p).issuer_did == did(o, jwt))
  C53 require project(p).status is AuctionRound
  C53 require started(project(p))
  C53 require !ended(project(p))
  C53 require any(meta(p).participation_currencies: elem(meta(p).participation_currencies) == a)
  C53 require some(Price::checked_mul_int(b.current_price, ct))
  C53 require Price::checked_mul_int(b.current_price, ct)? >= size.usd_minimum_per_participation
  C53 require multiplier(mode) <= if kind(o, jwt) is Institutional then 25 else 10
  C53 require multiplier(mode) > 0
  C53 require ct <= meta(p).auction_round_allocation_percentage * meta(p).total_allocation_size
  C53 require len(entries(Bids, p, who(o, jwt))) < cfg(MaxBidsPerUser)

fn? do_perform_bid(x)
  let usd = Price::checked_mul_int(x.ct_usd_price, x.ct_amount)?
  let spent = AuctionBoughtUSD[x.project_id, x.did]
  let bond = bond_for(usd, x.mode)?
  let pay = asset_for(usd, x.funding_asset)?
  C53 require some(Price::checked_mul_int(x.ct_usd_price, x.ct_amount))
  C53 require !some(x.metadata_ticket_size_bounds.usd_maximum_per_did) | satadd(spent, usd) <= x.metadata_ticket_size_bounds.usd_maximum_per_did?
  C53 require x.total_bids_by_bidder < cfg(MaxBidsPerUser)
  C53 require x.total_bids_for_project < cfg(MaxBidsPerProject)
  C53 require isok(Multiplier::try_from(multiplier(x.mode)))
  C53 call FundingCurrency::transfer(asset(x.funding_asset), x.bidder, pot(x.project_id), pay, Preservation::Preserve)
  C53 require isok(FundingCurrency::transfer(asset(x.funding_asset), x.bidder, pot(x.project_id), pay, Preservation::Preserve))
  C53 call Pallet::bond_on_behalf_of(x.project_id, x.bidder, bond, asset(x.funding_asset), HoldReason::Participation) when x.mode is OTM
  C53 require isok(Pallet::bond_on_behalf_of(x.project_id, x.bidder, bond, asset(x.funding_asset), HoldReason::Participation)) | !(x.mode is OTM)
  C53 final Bids[x.project_id, x.bidder, x.bid_id] = Some(BidInfo{id: x.bid_id, project_id: x.project_id, bidder: x.bidder, did: x.did, status: BidStatus::YetUnknown, original_ct_amount: x.ct_amount, original_ct_usd_price: x.ct_usd_price, funding_asset: x.funding_asset, funding_asset_amount_locked: pay, mode: x.mode, plmc_bond: bond, when: x.now})
  C53 final NextBidId[] = satadd(x.bid_id, 1)
  C53 final BidCounts[x.project_id] = satadd(BidCounts[x.project_id], 1)
  C53 final AuctionBoughtUSD[x.project_id, x.did] = satadd(spent, usd)
  C53 event Bid{project_id: x.project_id, bidder: x.bidder, id: x.bid_id, ct_amount: x.ct_amount, ct_price: x.ct_usd_price, funding_asset: x.funding_asset, funding_amount: pay, plmc_bond: bond, mode: x.mode}

fn? try_plmc_participation_lock(w, p, amount)
  let es = mine(p, w)
  let left = sofar(amount in es)
  let taken = min(spare(elem(es)), left)
  C53,C54 put Evaluations[p, w, elem(es).id] = Some(elem(es) with {current_plmc_bond: satsub(elem(es).current_plmc_bond, taken)}) in es when !(left == 0)
  C53,C54 call NativeCurrency::release(HoldReason::Evaluation, w, taken, Precision::Exact) in es when !(left == 0)
  C53,C54 call NativeCurrency::hold(HoldReason::Participation, w, taken) in es when !(left == 0)
  C53,C54 call NativeCurrency::hold(HoldReason::Participation, w, acc(l = amount in es -> satsub(l, min(spare(elem(es)), l))))

# ---- contributions --------------------------------------------------------------------------------
def maxmult(k) = if k is Institutional then 25 else if k is Professional then 10 else 5

fn contribute(o, jwt, p, ct, mode, a)
  let w = who(o, jwt)
  let k = kind(o, jwt)
  let d = project(p)
  let me = did(o, jwt)
  let n = min(ct, d.remaining_contribution_tokens)
  let sizes = meta(p).contributing_ticket_sizes
  let size = if k is Institutional then sizes.institutional else if k is Professional then sizes.professional else sizes.retail
  let usd = Price::checked_mul_int(d.weighted_average_price?, n)?
  let spent = ContributionBoughtUSD[p, me]
  let bond = bond_for(usd, mode)?
  let pay = asset_for(usd, a)?
  let id = NextContributionId[]
  let left = satsub(d.remaining_contribution_tokens, ct)
  let mult = Multiplier::try_from(multiplier(mode))
  let paid = FundingCurrency::transfer(asset(a), w, pot(p), pay, Preservation::Preserve)
  let behalf = Pallet::bond_on_behalf_of(p, w, bond, asset(a), HoldReason::Participation)
  C54 require isok(cred(o, jwt))
  C54 require some(ProjectsDetails[p])
  C54 require some(ProjectsMetadata[p])
  C54 require some(meta(p).policy_ipfs_cid)
  C54 require meta(p).policy_ipfs_cid? == policy(o, jwt)
  C54 require d.status is CommunityRound
  C54 require started(d)
  C54 require !ended(d)
  C54 require !DidWithWinningBids[p, me] | now >= d.status.CommunityRound.0
  C54 require !(n == 0)
  C54 require !(d.issuer_did == me)
  C54 require some(d.weighted_average_price)
  C54 require any(meta(p).participation_currencies: elem(meta(p).participation_currencies) == a)
  C54 require isok(mult)
  C54 require mult.ok <= maxmult(k)
  C54 require mult.ok > 0
  C54 require len(entries(Contributions, p, w)) < cfg(MaxContributionsPerUser)
  C54 require some(Price::checked_mul_int(d.weighted_average_price?, n))
  C54 require usd >= size.usd_minimum_per_participation | left == 0
  C54 require !some(size.usd_maximum_per_did) | spent + usd <= size.usd_maximum_per_did?
  C54 call FundingCurrency::transfer(asset(a), w, pot(p), pay, Preservation::Preserve)
  C54 require isok(paid)
  C54 call Pallet::bond_on_behalf_of(p, w, bond, asset(a), HoldReason::Participation) when mode is OTM
  C54 require isok(behalf) | !(mode is OTM)
  C54 final Contributions[p, w, id] = Some(ContributionInfo{did: me, id: id, project_id: p, contributor: w, ct_amount: n, usd_contribution_amount: usd, mode: mode, funding_asset: a, funding_asset_amount: pay, plmc_bond: bond, when: now})
  C54 final NextContributionId[] = satadd(id, 1)
  C54 final ContributionBoughtUSD[p, me] = satadd(spent, usd)
  C54 final ProjectsDetails[p] = Some(d with {remaining_contribution_tokens: left, funding_amount_reached_usd: satadd(d.funding_amount_reached_usd, usd)})
  C54 event Contribution{project_id: p, contributor: w, id: id, ct_amount: n, funding_asset: a, funding_amount: pay, plmc_bond: bond, mode: mode}
  C54 frame InvestorOrigin::ensure_origin PriceProvider::* Price::* Multiplier::* FundingCurrency::decimals AccountIdConversion::* put:Evaluations NativeCurrency::release NativeCurrency::hold WeightInfo::*

# ---- the auction's outcome ------------------------------------------------------------------------
def book(p) = sortedby(values(Bids, p), lam(a b: eval('cmp in BidInfo', b, a)))
def room(all, sold) = satsub(all, sold)
def bought(all, sold, b) = min(room(all, sold), b.original_ct_amount)
def verdict(all, sold, b) = if room(all, sold) == 0 then BidStatus::Rejected else if b.original_ct_amount <= room(all, sold) then BidStatus::Accepted else BidStatus::PartiallyAccepted(room(all, sold))

fn cmp in BidInfo(self, other)
  let p = self.original_ct_usd_price
  let q = other.original_ct_usd_price
  C55 returns Ordering::Less when p < q & !(p == q)
  C55 returns Ordering::Greater when q < p & !(p == q) & !(p < q)
  C55 returns Ordering::Less when p == q & other.id < self.id & !(self.id == other.id)
  C55 returns Ordering::Equal when p == q & self.id == other.id
  C55 returns Ordering::Greater when p == q & self.id < other.id & !(other.id < self.id) & !(self.id == other.id)
  C55 frame

fn? decide_winning_bids(p, all, wap)
  let bids = book(p)
  let b = elem(bids)
  let sold = sofar(0 in bids)
  let total = acc(s = 0 in bids -> if room(all, s) == 0 then s else if b.original_ct_amount <= room(all, s) then satadd(s, b.original_ct_amount) else satadd(s, room(all, s)))
  C55 put Bids[p, b.bidder, b.id] = Some(b with {status: verdict(all, sold, b)}) in bids
  C55 put DidWithWinningBids[p, b.did] = true in bids when !(verdict(all, sold, b) is Rejected)
  C55 require some(ProjectsDetails[p])
  let paid = Price::checked_mul_int(min(wap, b.original_ct_usd_price), bought(all, sold, b))?
  let usd = sum(0, bids: !(room(all, sold) == 0), paid)
  C55 final ProjectsDetails[p] = Some(project(p) with {remaining_contribution_tokens: satsub(project(p).remaining_contribution_tokens, total), funding_amount_reached_usd: satadd(project(p).funding_amount_reached_usd, usd), weighted_average_price: Some(wap)})
  C55 frame Price::*

fn end_auction(o, p)
  let d = project(p)
  C55 require issigned(o)
  C55 require some(ProjectsMetadata[p])
  C55 require some(ProjectsDetails[p])
  C55 require some(Buckets[p])
  C55 require d.status is AuctionRound
  C55 require ended(d)
  C55 event ProjectPhaseTransition{project_id: p, phase: ProjectStatus::CommunityRound(satadd(now, cfg(CommunityRoundDuration)))}

fn? do_end_auction(p)
  let all = meta(p).auction_round_allocation_percentage * meta(p).total_allocation_size
  C55 runs decide_winning_bids(p, all, anything)

# ---- the outcome of funding -----------------------------------------------------------------------
def ratio(d) = Perquintill::from_rational(d.funding_amount_reached_usd, d.fundraising_target_usd)
def missed(d) = ratio(d) < cfg(FundingSuccessThreshold)
def bracket() = elem(cfg(FeeBrackets))
def unbilled(r) = sofar(r in cfg(FeeBrackets))
def billing(r) = acc(rest = r in cfg(FeeBrackets) -> if rest < bracket().1 then 0 else rest - bracket().1)
def billed(r) = sum(0, cfg(FeeBrackets): true, if unbilled(r) < bracket().1 then bracket().0 * unbilled(r) else bracket().0 * bracket().1)
def fees(p) = billed(project(p).funding_amount_reached_usd)
def sold_of(p) = if meta(p).total_allocation_size < project(p).remaining_contribution_tokens then meta(p).total_allocation_size else meta(p).total_allocation_size - project(p).remaining_contribution_tokens
def fee_tokens(p) = Perquintill::from_rational(fees(p), project(p).funding_amount_reached_usd) * sold_of(p)
def share(p, n) = Perquintill::from_percent(n) * fee_tokens(p)
def evaluator_pot(p, n) = Perquintill::from_percent(n) * share(p, 30)
def bonded(p) = project(p).evaluation_round_info.total_bonded_usd
def rewards(p) = RewardInfo{early_evaluator_reward_pot: evaluator_pot(p, 20), normal_evaluator_reward_pot: evaluator_pot(p, 80), early_evaluator_total_bonded_usd: min(bonded(p), target(p)), normal_evaluator_total_bonded_usd: bonded(p)}

fn? compute_total_fee_from_brackets(reached)
  let total = billing(reached)
  C56 returns billed(reached)
  C56 frame

fn end_funding(o, p)
  let d = project(p)
  let total = billing(d.funding_amount_reached_usd)
  let outcome = if missed(d) then EvaluatorsOutcome::Slashed else EvaluatorsOutcome::Rewarded(rewards(p))
  let next = if missed(d) then ProjectStatus::FundingFailed else ProjectStatus::FundingSuccessful
  let info = d.evaluation_round_info with {evaluators_outcome: Some(outcome)}
  C56 require issigned(o)
  C56 require some(ProjectsDetails[p])
  C56 require d.status is CommunityRound
  C56 require d.remaining_contribution_tokens == 0 | ended(d)
  C56 final DidWithActiveProjects[d.issuer_did] = None
  C56 final ProjectsDetails[p] = Some(d with {status: next, round_duration: unbounded(), evaluation_round_info: info})
  C56 event ProjectPhaseTransition{project_id: p, phase: next}
  C56 frame Perquintill::* WeightInfo::*

fn start_settlement(o, p)
  let d = project(p)
  let total = billing(d.funding_amount_reached_usd)
  let win = d.status is FundingSuccessful
  let token = meta(p).token_information
  let reserve = cfg(ContributionTreasury)
  let length = duration_of(Multiplier::try_from(5).ok)
  let made = ContributionTokenCurrency::create(p, pot(p), false, 1)
  let named = ContributionTokenCurrency::set(p, pot(p), token.name, token.symbol, token.decimals)
  let touched = ContributionTokenCurrency::touch(p, reserve, reserve)
  let next = ProjectStatus::SettlementStarted(if win then FundingOutcome::Success else FundingOutcome::Failure)
  C57 require issigned(o)
  C57 require some(ProjectsDetails[p])
  C57 require some(ProjectsMetadata[p])
  C57 require d.status is FundingSuccessful | d.status is FundingFailed
  C57 require ended(d)
  C57 call Pallet::set_release_type(p, HoldReason::Participation, ReleaseType::Refunded) when !win
  C57 call Pallet::set_release_type(p, HoldReason::Participation, ReleaseType::Locked(satadd(length, now))) when win
  C57 call ContributionTokenCurrency::create(p, pot(p), false, 1) when win
  C57 require isok(made) | !win
  C57 call ContributionTokenCurrency::set(p, pot(p), token.name, token.symbol, token.decimals) when win
  C57 require isok(named) | !win
  C57 call ContributionTokenCurrency::mint_into(p, reserve, share(p, 20)) when win
  C57 call ContributionTokenCurrency::mint_into(p, reserve, share(p, 50)) when win
  C57 final ProjectsDetails[p] = Some(d with {status: next, round_duration: unbounded(), funding_end_block: Some(now)})
  C57 event ProjectPhaseTransition{project_id: p, phase: next}
  C57 frame Perquintill::* WeightInfo::* Multiplier::* ContributionTokenCurrency::touch AccountIdConversion::*

# ---- settlement -----------------------------------------------------------------------------------
def settling(p) = project(p).status is SettlementStarted
def won(p) = settling(p) & project(p).status.SettlementStarted.0 is Success
def evidence(p, a, n, kind) = MigrationOrigin{user: Location::new(0, Junction::AccountId32{network: None, id: AccountId32Conversion::convert(a)}), id: n, participation_type: kind}
def duration_of(m) = Multiplier::calculate_vesting_duration(m)

fn? create_migration(p, a, n, kind, amount, time)
  let old = UserMigrations[p, a]
  let fresh = Migration::new(evidence(p, a, n, kind), (amount, Number::try_into(time).ok))
  C59 require isok(Number::try_into(time))
  C59 require fits(push, if some(old) then old?.1 else empty, fresh)
  C59 final UserMigrations[p, a] = Some(if some(old) then (old?.0, push(old?.1, fresh)) else (MigrationStatus::NotStarted, push(empty, fresh)))
  C59 final UnmigratedCounter[p] = if some(old) then UnmigratedCounter[p] else satadd(UnmigratedCounter[p], 1)
  C59 frame AccountId32Conversion::* Location::new Migration::new Number::try_into

fn settle_evaluation(o, p, a, n)
  let x = Evaluations[p, a, n]?
  let w = x.evaluator
  let outcome = project(p).evaluation_round_info.evaluators_outcome
  let slashed = some(outcome) & outcome? is Slashed
  let rewarded = some(outcome) & outcome? is Rewarded
  let info = outcome?.Rewarded.0
  let cut = cfg(EvaluatorSlash) * x.original_plmc_bond
  let reserve = cfg(BlockchainOperationTreasury)
  let taken = NativeCurrency::transfer_on_hold(HoldReason::Evaluation, w, reserve, cut, Precision::Exact, Restriction::Free, Fortitude::Force)
  let early = Perquintill::from_rational(x.early_usd_amount, info.early_evaluator_total_bonded_usd) * info.early_evaluator_reward_pot
  let normal = Perquintill::from_rational(satadd(x.late_usd_amount, x.early_usd_amount), info.normal_evaluator_total_bonded_usd) * info.normal_evaluator_reward_pot
  let reward = satadd(early, normal)
  let paid = if rewarded then reward else 0
  let back = if slashed then satsub(x.current_plmc_bond, cut) else x.current_plmc_bond
  let freed = NativeCurrency::release(HoldReason::Evaluation, w, back, Precision::Exact)
  let known = ContributionTokenCurrency::contains(p, w)
  let minted = ContributionTokenCurrency::mint_into(p, w, reward)
  C58 require issigned(o)
  C58 require some(Evaluations[p, a, n])
  C58 require some(ProjectsDetails[p])
  C58 require settling(p)
  C58 call NativeCurrency::transfer_on_hold(HoldReason::Evaluation, w, reserve, cut, Precision::Exact, Restriction::Free, Fortitude::Force) when slashed
  C58 require isok(taken) | !slashed
  C58 call OnSlash::on_slash(w, cut) when slashed
  C58 call NativeCurrency::release(HoldReason::Evaluation, w, back, Precision::Exact)
  C58 require isok(freed)
  C58 call ContributionTokenCurrency::touch(p, w, w) when rewarded & !known
  C58 call ContributionTokenCurrency::mint_into(p, w, reward) when rewarded
  C58 require isok(minted) | !rewarded
  C58 runs create_migration(p, w, x.id, ParticipationType::Evaluation, paid, duration_of(Multiplier::try_from(1).ok)) when paid > 0
  C58 final Evaluations[p, w, x.id] = None
  C58 event EvaluationSettled{project_id: p, account: w, id: x.id, plmc_released: back, ct_rewarded: paid}
  C58 frame Perquintill::* WeightInfo::* Multiplier::* ContributionTokenCurrency::contains put:UserMigrations put:UnmigratedCounter AccountId32Conversion::* Location::new Migration::new Number::try_into

fn settle_contribution(o, p, a, n)
  let x = Contributions[p, a, n]?
  let w = x.contributor
  let d = project(p)
  let win = won(p)
  let lost = settling(p) & !win
  let otm = x.mode is OTM
  let mult = Multiplier::try_from(multiplier(x.mode)).ok
  let time = duration_of(mult)
  let rate = if BlockNumberToBalance::convert(time) == 0 then x.plmc_bond else x.plmc_bond / BlockNumberToBalance::convert(time)
  let known = ContributionTokenCurrency::contains(p, w)
  let dest = meta(p).funding_destination_account
  let money = x.funding_asset_amount
  C58 require issigned(o)
  C58 require some(Contributions[p, a, n])
  C58 require some(ProjectsDetails[p])
  C58 require some(ProjectsMetadata[p])
  C58 require settling(p)
  C58 require some(d.funding_end_block)
  C58 call FundingCurrency::transfer(asset(x.funding_asset), pot(p), w, money, Preservation::Expendable) when lost & !(money == 0)
  C58 call FundingCurrency::transfer(asset(x.funding_asset), pot(p), dest, money, Preservation::Expendable) when win & !(money == 0)
  C58 call Pallet::refund_fee(p, w, x.plmc_bond, asset(x.funding_asset)) when lost & otm
  C58 call NativeCurrency::release(HoldReason::Participation, w, x.plmc_bond, Precision::Exact) when !otm & !(x.plmc_bond == 0) & (lost | win & time == 1)
  C58 call ReleaseSchedule::add_release_schedule(w, x.plmc_bond, rate, d.funding_end_block?, HoldReason::Participation) when win & !otm & !(time == 1)
  C58 call ContributionTokenCurrency::touch(p, w, w) when win & !known
  C58 call ContributionTokenCurrency::mint_into(p, w, x.ct_amount) when win
  C58 runs create_migration(p, w, x.id, ParticipationType::Contribution, x.ct_amount, time) when win
  C58 final Contributions[p, w, x.id] = None
  C58 event ContributionSettled{project_id: p, account: w, id: x.id, ct_amount: if win then x.ct_amount else 0}
  C58 frame WeightInfo::* Multiplier::* ContributionTokenCurrency::contains put:UserMigrations put:UnmigratedCounter AccountId32Conversion::* Location::new Migration::new Number::try_into AccountIdConversion::* BlockNumberToBalance::convert FundingCurrency::decimals

fn settle_bid(o, p, a, n)
  let x = Bids[p, a, n]?
  let w = x.bidder
  let d = project(p)
  let wap = d.weighted_average_price?
  let win = won(p) & !(x.status is Rejected)
  let otm = x.mode is OTM
  let mult = Multiplier::try_from(multiplier(x.mode)).ok
  let time = duration_of(mult)
  let price = min(wap, x.original_ct_usd_price)
  let amount = if x.status is Accepted then x.original_ct_amount else if x.status is PartiallyAccepted then x.status.PartiallyAccepted.0 else 0
  let size = Price::checked_mul_int(price, amount)?
  let bond = if win then satsub(x.plmc_bond, bond_for(size, x.mode)?) else x.plmc_bond
  let money = if win then satsub(x.funding_asset_amount_locked, asset_for(size, x.funding_asset)?) else x.funding_asset_amount_locked
  let kept = satsub(x.plmc_bond, bond)
  let rate = if BlockNumberToBalance::convert(time) == 0 then kept else kept / BlockNumberToBalance::convert(time)
  let due = satsub(x.funding_asset_amount_locked, money)
  let dest = meta(p).funding_destination_account
  let known = ContributionTokenCurrency::contains(p, w)
  C58 require issigned(o)
  C58 require some(Bids[p, a, n])
  C58 require some(ProjectsDetails[p])
  C58 require some(ProjectsMetadata[p])
  C58 require some(d.weighted_average_price)
  C58 require settling(p) | x.status is Rejected
  C58 call FundingCurrency::transfer(asset(x.funding_asset), pot(p), w, money, Preservation::Expendable) when !(money == 0)
  C58 call Pallet::refund_fee(p, w, bond, asset(x.funding_asset)) when otm & bond > NativeCurrency::minimum_balance()
  C58 call NativeCurrency::release(HoldReason::Participation, w, bond, Precision::Exact) when !otm & !(bond == 0)
  C58 call NativeCurrency::release(HoldReason::Participation, w, kept, Precision::Exact) when win & !otm & !(kept == 0) & time == 1
  C58 call ReleaseSchedule::add_release_schedule(w, kept, rate, d.funding_end_block?, HoldReason::Participation) when win & !otm & !(time == 1)
  C58 call ContributionTokenCurrency::touch(p, w, w) when win & !known
  C58 call ContributionTokenCurrency::mint_into(p, w, amount) when win
  C58 runs create_migration(p, w, x.id, ParticipationType::Bid, amount, time) when win
  C58 call FundingCurrency::transfer(asset(x.funding_asset), pot(p), dest, due, Preservation::Expendable) when win & !(due == 0)
  C58 final Bids[p, w, x.id] = None
  C58 event BidSettled{project_id: p, account: w, id: x.id, final_ct_amount: if win then amount else 0, final_ct_usd_price: price}
  C58 frame WeightInfo::* Multiplier::* Price::* PriceProvider::* ContributionTokenCurrency::contains put:UserMigrations put:UnmigratedCounter AccountId32Conversion::* Location::new Migration::new Number::try_into AccountIdConversion::* BlockNumberToBalance::convert FundingCurrency::decimals NativeCurrency::minimum_balance

fn mark_project_as_settled(o, p)
  let d = project(p)
  C59 require issigned(o)
  C59 require some(ProjectsDetails[p])
  C59 require settling(p)
  C59 require len(entries(Evaluations, p)) == 0
  C59 require len(entries(Bids, p)) == 0
  C59 require len(entries(Contributions, p)) == 0
  C59 require ended(d)
  C59 final ProjectsDetails[p] = Some(d with {status: ProjectStatus::SettlementFinished(d.status.SettlementStarted.0), round_duration: unbounded()})
  C59 event ProjectPhaseTransition{project_id: p, phase: ProjectStatus::SettlementFinished(d.status.SettlementStarted.0)}
  C59 frame WeightInfo::*

# ---- migration of contribution tokens -------------------------------------------------------------
def caller(o, jwt) = cred(o, jwt).ok.0
def offchain(p) = some(project(p).migration_type) & project(p).migration_type? is Offchain
def onchain(p) = some(project(p).migration_type) & project(p).migration_type? is Pallet

fn? change_migration_status(p, a, to)
  let old = UserMigrations[p, a]
  C59 require some(ProjectsDetails[p])
  C59 require some(old)
  C59 require !(to is MigrationStatus::NotStarted)
  C59 require !(old?.0 is MigrationStatus::Confirmed)
  C59 require !(to is MigrationStatus::Confirmed) | offchain(p) & !(old?.0 is MigrationStatus::Confirmed) | onchain(p) & old?.0 is MigrationStatus::Sent
  C59 final UserMigrations[p, a] = Some((to, old?.1))
  C59 final UnmigratedCounter[p] = if to is MigrationStatus::Confirmed then satsub(UnmigratedCounter[p], 1) else UnmigratedCounter[p]
  C59 final ProjectsDetails[p] = ProjectsDetails[p]
  C59 frame put:ProjectsDetails

fn start_offchain_migration(o, jwt, p)
  let d = project(p)
  C59 require isok(cred(o, jwt))
  C59 require kind(o, jwt) is Institutional
  C59 require some(ProjectsDetails[p])
  C59 require d.issuer_account == caller(o, jwt)
  C59 require d.status is SettlementFinished
  C59 require d.status.SettlementFinished.0 is Success
  C59 final ProjectsDetails[p] = Some(d with {status: ProjectStatus::CTMigrationStarted, round_duration: unbounded(), migration_type: Some(MigrationType::Offchain)})
  C59 event ProjectPhaseTransition{project_id: p, phase: ProjectStatus::CTMigrationStarted}
  C59 frame InvestorOrigin::ensure_origin WeightInfo::*

fn confirm_offchain_migration(o, p, a)
  C59 require issigned(o)
  C59 require some(ProjectsDetails[p])
  C59 require project(p).status is CTMigrationStarted
  C59 require project(p).issuer_account == signed(o)
  C59 require some(UserMigrations[p, a])
  C59 require offchain(p) & !(UserMigrations[p, a]?.0 is MigrationStatus::Confirmed) | onchain(p) & UserMigrations[p, a]?.0 is MigrationStatus::Sent
  C59 final UserMigrations[p, a] = Some((MigrationStatus::Confirmed, UserMigrations[p, a]?.1))
  C59 final UnmigratedCounter[p] = satsub(UnmigratedCounter[p], 1)
  C59 frame put:ProjectsDetails WeightInfo::*

fn mark_project_ct_migration_as_finished(o, p)
  C59 require issigned(o)
  C59 require some(ProjectsDetails[p])
  C59 require project(p).status is CTMigrationStarted
  C59 require UnmigratedCounter[p] == 0
  C59 final ProjectsDetails[p] = Some(project(p) with {status: ProjectStatus::CTMigrationFinished})
  C59 event CTMigrationFinished{project_id: p}
  C59 frame WeightInfo::*

def signer(l) = Location::unpack(l)
def from_chain(l, c) = signer(l).0 == 1 & len(signer(l).1) == 1 & at(signer(l).1, 0) is Junction::Parachain & at(signer(l).1, 0).Parachain.0 == c
def channel(d) = d.migration_type?.Pallet.0
def receiver(d) = ParentThen(Junction::Parachain(channel(d).parachain_id))

fn start_pallet_migration(o, jwt, p, c)
  let d = project(p)
  let closed = HRMPChannelStatus{project_to_polimec: ChannelStatus::Closed, polimec_to_project: ChannelStatus::Closed}
  C60 require isok(cred(o, jwt))
  C60 require kind(o, jwt) is Institutional
  C60 require some(ProjectsDetails[p])
  C60 require d.issuer_account == caller(o, jwt)
  C60 require d.status is SettlementFinished
  C60 require d.status.SettlementFinished.0 is Success
  C60 final ProjectsDetails[p] = Some(d with {status: ProjectStatus::CTMigrationStarted, round_duration: unbounded(), migration_type: Some(MigrationType::Pallet(PalletMigrationInfo{parachain_id: c, hrmp_channel_status: closed, migration_readiness_check: None}))})
  C60 event ProjectPhaseTransition{project_id: p, phase: ProjectStatus::CTMigrationStarted}
  C60 frame InvestorOrigin::ensure_origin WeightInfo::*

fn? do_confirm_pallet_migrations(l, q, r)
  let entry = ActiveMigrationQueue[q]?
  let p = entry.0
  let a = entry.1
  let good = r.DispatchResult.0 is MaybeErrorCode::Success
  let to = if good then MigrationStatus::Confirmed else MigrationStatus::Failed
  C60 require some(ActiveMigrationQueue[q])
  C60 require some(ProjectsDetails[p])
  C60 require onchain(p)
  C60 require from_chain(l, channel(project(p)).parachain_id)
  C60 require r is Response::DispatchResult
  C60 require some(UserMigrations[p, a])
  C60 require UserMigrations[p, a]?.0 is MigrationStatus::Sent
  C60 final ActiveMigrationQueue[q] = None
  C60 final UserMigrations[p, a] = Some((to, UserMigrations[p, a]?.1))
  C60 final UnmigratedCounter[p] = if good then satsub(UnmigratedCounter[p], 1) else UnmigratedCounter[p]
  C60 event MigrationStatusUpdated{project_id: p, account: a, status: to}
  C60 frame put:ProjectsDetails Location::unpack

fn? do_start_pallet_migration_readiness_check(w, p)
  let d = project(p)
  let info = channel(d)
  let check = info.migration_readiness_check
  let both = check?.holding_check.1 is CheckOutcome::Failed & check?.pallet_check.1 is CheckOutcome::Failed
  C60 require some(ProjectsDetails[p])
  C60 require onchain(p)
  C60 require d.status is CTMigrationStarted
  C60 require info.hrmp_channel_status == HRMPChannelStatus{project_to_polimec: ChannelStatus::Open, polimec_to_project: ChannelStatus::Open}
  C60 require some(check) | w == AccountIdConversion::into_account_truncating(cfg(PalletId))
  C60 require !some(check) | !both | w == d.issuer_account
  C60 event MigrationReadinessCheckStarted{project_id: p, caller: w}
  let to = ParentThen(Junction::Parachain(info.parachain_id))
  let back = ParentThen(Junction::Parachain(3344))
  let answer = Call::pallet_migration_readiness_response{query_id: 0, response: default('Response')}
  let id = Pallet::new_notify_query(to, answer, now + 20, Junctions::Here)
  let id2 = after(1, id)
  let limit = Weight::from_parts(700000000, 10000)
  let reply = QueryResponseInfo{destination: back, query_id: id, max_weight: limit}
  let reply2 = QueryResponseInfo{destination: back, query_id: id2, max_weight: limit}
  let all = AssetFilter::Wild(WildAsset::All)
  let tokens = (Location::here(), ContributionTokenCurrency::total_issuance(p))
  let xcm = Xcm([Instruction::UnpaidExecution{weight_limit: WeightLimit::Unlimited, check_origin: None}, Instruction::WithdrawAsset([tokens]), Instruction::ReportHolding{response_info: reply, assets: all}, Instruction::QueryPallet{module_name: 'polimec_receiver', response_info: reply2}, Instruction::DepositAsset{assets: all, beneficiary: back}])
  C70 final ProjectsDetails[p] = Some(d with {migration_type?.Pallet.0.migration_readiness_check: Some(PalletMigrationReadinessCheck{holding_check: (id, CheckOutcome::AwaitingResponse), pallet_check: (id2, CheckOutcome::AwaitingResponse)})})
  C70 call Pallet::send_xcm(Junctions::Here, to, xcm)
  C70 require isok(Pallet::send_xcm(Junctions::Here, to, xcm))
  C70 frame event:MigrationReadinessCheckStarted Weight::from_parts AccountIdConversion::* Location::here ContributionTokenCurrency::total_issuance Pallet::new_notify_query

def waiting(e, c) = some(e.migration_type) & e.migration_type? is MigrationType::Pallet & channel(e).parachain_id == c & e.status is CTMigrationStarted

fn? do_handle_channel_open_request(c, size, capacity)
  let list = entries(ProjectsDetails)
  let k = pos(list: waiting(elem(list).1, c))
  let p = at(list, k).0
  let d = at(list, k).1
  let fee = Asset{id: AssetId(Location::here()), fun: Fungibility::Fungible(10000000000)}
  let w = Weight::from_parts(20000000000, 1000000)
  let accept = concat([60, 1], Encode::encode(c))
  let ask = concat([60, 0], Encode::encode(c), Encode::encode(cfg(RequiredMaxCapacity)), Encode::encode(cfg(RequiredMaxMessageSize)))
  let xcm = Xcm([Instruction::WithdrawAsset([fee]), Instruction::BuyExecution{fees: fee, weight_limit: WeightLimit::Unlimited}, Instruction::Transact{origin_kind: OriginKind::Native, require_weight_at_most: w, call: accept}, Instruction::Transact{origin_kind: OriginKind::Native, require_weight_at_most: w, call: ask}, Instruction::RefundSurplus, Instruction::DepositAsset{assets: AssetFilter::Wild(WildAsset::All), beneficiary: Location::new(0, Junction::Parachain(3344))}])
  let ticket = XcmRouter::validate(Some(Location::new(1, Junctions::Here)), Some(xcm))
  let sent = XcmRouter::deliver(ticket.ok.0)
  C70 require any(list: waiting(elem(list).1, c))
  C70 require RangeInclusive::contains(cfg(MaxMessageSizeThresholds), size)
  C70 require RangeInclusive::contains(cfg(MaxCapacityThresholds), capacity)
  C70 require isok(ticket)
  C70 require isok(sent)
  C70 allows waiting(d, c)
  C70 call XcmRouter::deliver(ticket.ok.0)
  C70 final ProjectsDetails[p] = Some(d with {migration_type?.Pallet.0.hrmp_channel_status.project_to_polimec: ChannelStatus::Open, migration_type?.Pallet.0.hrmp_channel_status.polimec_to_project: ChannelStatus::AwaitingAcceptance})
  C70 event HrmpChannelAccepted{project_id: p, para_id: c}
  C70 frame RangeInclusive::contains Encode::encode Location::* XcmRouter::validate

fn? do_handle_channel_accepted(c)
  let list = entries(ProjectsDetails)
  let k = pos(list: waiting(elem(list).1, c))
  let p = at(list, k).0
  C70 require any(list: waiting(elem(list).1, c))
  let d = at(list, k).1
  let info = channel(d)
  let pot = AccountIdConversion::into_account_truncating(cfg(PalletId))
  C70 event HrmpChannelEstablished{project_id: p, para_id: c}
  C70 event MigrationReadinessCheckStarted{project_id: p, caller: pot}
  C70 require info.hrmp_channel_status.project_to_polimec is ChannelStatus::Open

fn? construct_migration_xcm_message(list, id, pallet)
  C70 returns Xcm([Instruction::UnpaidExecution{weight_limit: WeightLimit::Unlimited, check_origin: None}, Instruction::Transact{origin_kind: OriginKind::Native, require_weight_at_most: Weight::from_parts(10000, 0), call: concat([pallet, 0], Encode::encode(Migrations::from(list)))}, Instruction::ReportTransactStatus(QueryResponseInfo{destination: ParentThen(Junction::Parachain(3344)), query_id: id, max_weight: Weight::from_parts(700000000, 50000)})])
  C70 frame Encode::encode Migrations::from Weight::from_parts

fn send_pallet_migration_for(o, p, a)
  let info = channel(project(p))
  let check = info.migration_readiness_check
  let at_chain = Location::new(1, Junction::Parachain(info.parachain_id))
  let id = Pallet::new_notify_query(at_chain, Call::confirm_pallet_migrations{query_id: 0, response: default('Response')}, now + 20, Junctions::Here)
  let xcm = eval('construct_migration_xcm_message', UserMigrations[p, a]?.1, id, check?.pallet_check.1.Passed.0?)
  C70 require issigned(o)
  C70 require some(ProjectsDetails[p])
  C70 require onchain(p)
  C70 require some(check)
  C70 require len(entries(Evaluations, p, a)) == 0
  C70 require len(entries(Bids, p, a)) == 0
  C70 require len(entries(Contributions, p, a)) == 0
  C70 require some(UserMigrations[p, a])
  C70 require check?.holding_check.1 is CheckOutcome::Passed
  C70 require check?.pallet_check.1 is CheckOutcome::Passed
  C70 require some(check?.pallet_check.1.Passed.0)
  C70 require UserMigrations[p, a]?.0 is MigrationStatus::NotStarted | UserMigrations[p, a]?.0 is MigrationStatus::Failed
  C70 require isok(Pallet::send_xcm(Junctions::Here, at_chain, xcm))
  C70 allows !some(check?.holding_check.1.Passed.0)
  C70 call Pallet::send_xcm(Junctions::Here, at_chain, xcm)
  C70 final UserMigrations[p, a] = Some((MigrationStatus::Sent(id), UserMigrations[p, a]?.1))
  C70 final ActiveMigrationQueue[id] = Some((p, a))
  C70 event MigrationStatusUpdated{project_id: p, account: a, status: MigrationStatus::Sent(id)}
  C70 frame put:ProjectsDetails Location::* Pallet::new_notify_query Encode::encode Migrations::from

fn? do_pallet_migration_readiness_response(l, q, r)
  let list = entries(ProjectsDetails)
  let e = elem(list).1
  let mine = some(e.migration_type) & e.migration_type? is MigrationType::Pallet & some(channel(e).migration_readiness_check) & (channel(e).migration_readiness_check?.holding_check.0 == q | channel(e).migration_readiness_check?.pallet_check.0 == q)
  let k = pos(list: mine)
  let p = at(list, k).0
  let d = at(list, k).1
  let old = channel(d).migration_readiness_check?
  let sold = satsub(meta(p).total_allocation_size, d.remaining_contribution_tokens)
  let held = Assets::into_inner(r.Assets.0)
  let first = at(held, 0)
  let holds = len(held) > 0 & first.fun is Fungibility::Fungible & first.fun.Fungible.0 >= sold & from_chain(first.id.0, at(signer(l).1, 0).Parachain.0)
  C60 require any(list: mine)
  C60 require from_chain(l, channel(d).parachain_id)
  C60 require some(ProjectsMetadata[p])
  C60 require r is Response::Assets | r is Response::PalletsInfo
  C60 require !(r is Response::Assets) | old.holding_check.1 is CheckOutcome::AwaitingResponse
  C60 require !(r is Response::PalletsInfo) | old.pallet_check.1 is CheckOutcome::AwaitingResponse
  C60 event MigrationCheckResponseAccepted{project_id: p, query_id: q, response: r} when r is Response::Assets & holds
  C60 event MigrationCheckResponseRejected{project_id: p, query_id: q, response: r} when r is Response::Assets & !holds

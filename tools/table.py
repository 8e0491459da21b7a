D = ["pallets/democracy/src/lib.rs"]
DV = D + ["pallets/democracy/src/vote.rs", "pallets/democracy/src/types.rs", "pallets/democracy/src/conviction.rs"]
IH = ["inputs", "histories"]
WHY = "The unit tests run a few dozen scripted calls on small mock balances; the claim quantifies over every prior storage state, argument and configuration. "

prop("C01", "Every proposal deposit stays held until it is returned or slashed",
     "Proposing or seconding a public proposal holds exactly the proposal's deposit from the caller and adds the caller to that proposal's list of depositors, and fails if the funds cannot be held. "
     "When the proposal leaves the public queue, each recorded depositor's hold is released exactly once if it is tabled, or slashed exactly once and handed to the slash handler if it is cancelled or blacklisted. The deposit record then disappears, and no other operation moves these deposits.",
     IH, "every call and block hook of the governance pallet, from every prior storage state, with any number of depositors",
     WHY + "They check one depositor or two, never that no path forgets one.", D,
     [("hold on propose and second", "pallets/democracy/src/lib.rs propose, second"), ("release when tabled", "launch_public"), ("slash when cancelled or blacklisted", "cancel_proposal, blacklist")],
     [("DepositOf", "depositors and amount per proposal", "pallets/democracy/src/lib.rs"), ("holds with the proposal reason", "funds at stake", "Fungible")],
     ["held balance by reason", "DepositOf", "Event"])
prop("C02", "A public proposal enters and leaves the queue only as allowed",
     "A public proposal is queued only by the submission origin, with at least the minimum deposit, while the queue has room and its hash is not blacklisted or under veto; it receives the next never-used index and is recorded with its proposer. "
     "It leaves the queue only by being tabled, cancelled, blacklisted or by clearing the queue, and the other queued proposals are left alone.",
     IH, "every call, prior queue content and configuration", WHY, D,
     [("admission checks", "propose"), ("queue removal", "launch_public, cancel_proposal, blacklist, clear_public_proposals")], [("PublicProps", "queue", D[0]), ("PublicPropCount", "next index", D[0])])
prop("C03", "The external proposal slot holds one proposal from the right origin",
     "Each of the three ways to submit an external proposal demands its own origin and stores the threshold belonging to that way of submission; the plain one is refused while an external proposal is waiting or while the proposal is vetoed or blacklisted, the majority and default ones replace a waiting proposal. "
     "The slot is emptied only when its proposal is tabled, fast-tracked, vetoed or blacklisted.",
     IH, "every origin, proposal, prior slot content and veto record", WHY, D,
     [("three submission calls", "external_propose, external_propose_majority, external_propose_default"), ("emptying", "launch_external, fast_track, veto_external, blacklist")], [("NextExternal", "the slot", D[0])])
prop("C04", "Fast-tracking needs the right origin, hash, threshold and voting period",
     "Fast-tracking starts a referendum on the waiting external proposal only when called by the fast-track origin with the hash of that very proposal, and only if the proposal was not submitted with the plain external threshold. "
     "A voting period of zero is refused, one below the configured fast-track minimum needs the instant origin, and so does a caller without the fast-track origin; both only while instant mode is allowed. The referendum ends after exactly the given voting period, keeps the proposal's threshold, uses the given delay, and the external slot is emptied.",
     IH, "every origin, hash, period, delay, configuration and slot content", WHY, D, [("guards", "fast_track")], [("NextExternal", "waiting proposal", D[0])])
prop("C05", "A veto blocks the external proposal for the cool-off, once per member",
     "A member of the veto body can remove the waiting external proposal only if the given hash is that of the proposal and that member has not vetoed it before. "
     "The hash then stays blocked for resubmission until the current block plus the cool-off period, and the member is added to the ordered list of vetoers while earlier vetoers are kept.",
     IH, "every veto history, vetoer and block", WHY, D, [("veto", "veto_external")], [("Blacklist", "block until and vetoers", D[0])])
prop("C06", "Blacklisting and cancelling a proposal remove it everywhere it is named",
     "Blacklisting a hash requires its own origin, blocks the hash for ever, removes the first queued public proposal and the waiting external proposal with that hash, and cancels the named referendum if it is ongoing and about that hash. "
     "Cancelling a public proposal requires its own origin and removes exactly the proposal with the given index.",
     IH, "every queue, external slot, referendum state and hash", WHY, D, [("blacklist", "blacklist"), ("cancel", "cancel_proposal")])
prop("C07", "A referendum is emergency-cancelled at most once per proposal",
     "The emergency cancellation origin can cancel only an ongoing referendum and only if no referendum on the same proposal hash was emergency-cancelled before; the hash is then remembered for ever. "
     "Root can cancel any referendum. A cancelled referendum is removed and never enacted.",
     IH, "every referendum state and cancellation history", WHY, D, [("emergency_cancel", D[0]), ("cancel_referendum", D[0])], [("Cancellations", "hashes cancelled", D[0])])
prop("C08", "The referendum tally counts every vote exactly once",
     "After any sequence of voting, re-voting and vote removal the tally of an ongoing referendum equals the sum over current direct votes of their conviction-weighted ayes and nays and raw turnout, plus the delegated weight behind the standard ones. "
     "A new vote replaces the voter's earlier vote on the same referendum, votes are kept one per referendum in order, and a change that would overflow or underflow the tally is refused.",
     IH, "every voter, vote, delegation state, tally and referendum; arbitrary histories by induction over calls", WHY + "They never vote again with a different kind of vote while delegations sit behind it for most combinations.", DV,
     [("try_vote", D[0]), ("try_remove_vote", D[0]), ("Tally add/remove/increase/reduce", "pallets/democracy/src/types.rs")], [("ReferendumInfoOf", "tally", D[0]), ("VotingOf", "votes of an account", D[0])])
prop("C09", "Votes and delegations are backed by frozen balance",
     "A vote is accepted only on an ongoing referendum, for no more than the voter's total balance, within the maximum number of votes and not while the voter is delegating; a delegation only for no more than the total balance. "
     "Both extend the voter's freeze to at least the committed amount.",
     IH, "every voter balance, vote count, vote and configuration", WHY, DV, [("try_vote", D[0]), ("try_delegate", D[0])], [("freeze with the vote reason", "locked funds", "Fungible")])
prop("C10", "Removing a vote keeps the lock its conviction earned",
     "A voter can remove a vote at any time; if the referendum finished with the outcome voted for, the committed balance stays locked until the referendum's end plus the conviction's number of locking periods, otherwise not. "
     "Somebody else can remove a vote only once it is on a finished or missing referendum and its lock has run out, and removal from an account that delegates changes nothing.",
     IH, "every vote, conviction, referendum outcome, block number and caller", WHY, DV, [("try_remove_vote", D[0]), ("locked_if", "pallets/democracy/src/vote.rs"), ("accumulate", "pallets/democracy/src/vote.rs")])
prop("C11", "Conviction multiplies votes 0.1x to 6x and locks 0 to 32 periods",
     "The six positive conviction levels count the committed balance 1 to 6 times and lock it for 1, 2, 4, 8, 16 and 32 periods; no conviction counts a tenth and locks nothing. "
     "Split votes count a tenth on each side, multiplication that overflows saturates, and turnout is always the raw balance.",
     ["inputs"], "every conviction level, balance and vote", WHY + "Only a few balances per level are exercised.", DV, [("votes, lock_periods", "pallets/democracy/src/conviction.rs"), ("Tally", "pallets/democracy/src/types.rs")])
prop("C12", "A vote and its one-byte encoding determine each other",
     "A vote is encoded as one byte whose top bit is the aye flag and whose low seven bits are the conviction level 0 to 6; decoding any byte yields exactly that vote or an error for levels above 6.",
     ["inputs"], "every vote and every byte", "Tests round-trip a few votes.", ["pallets/democracy/src/vote.rs", "pallets/democracy/src/conviction.rs"],
     [("Encode/Decode for Vote", "pallets/democracy/src/vote.rs"), ("TryFrom<u8>", "pallets/democracy/src/conviction.rs")], note="Round-trip equality follows because the two tables stated for encoder and decoder are inverse of each other.")
prop("C13", "Delegated weight follows the delegate's votes",
     "Delegating adds the delegator's conviction-weighted votes and capital to the target's delegated weight and to the tally of every ongoing referendum on which the target has a standard vote, on the side the target chose; undelegating takes exactly the same away. "
     "Delegation is refused to oneself, while the delegator has direct votes, and moving it to another target first undoes the old one; the weight of an account that itself delegates is not passed on.",
     IH, "every target voting record, delegated amount, conviction and tally", WHY, DV, [("try_delegate", D[0]), ("increase_upstream_delegation, reduce_upstream_delegation", D[0])], [("VotingOf", "delegations received", D[0])])
prop("C14", "Undelegating keeps the lock of the delegation's conviction",
     "Only an account that delegates can undelegate; its balance then stays locked until the current block plus the conviction's number of locking periods, joined with any earlier lock by taking the later end and the larger amount. "
     "Received delegations and earlier locks are kept across delegating and undelegating.",
     IH, "every prior lock, conviction, block and delegation", WHY, DV, [("try_undelegate", D[0]), ("accumulate, rejig", "pallets/democracy/src/vote.rs")])
prop("C15", "Unlocking frees exactly what no vote, delegation or prior lock needs",
     "Anyone may unlock any account: an expired earlier lock is dropped, and the account's freeze becomes the largest of its earlier lock and its current votes or delegation, or is removed when that is zero.",
     IH, "every voting record, prior lock and block", WHY, DV, [("update_lock", D[0]), ("locked_balance, rejig", "pallets/democracy/src/vote.rs")])
prop("C16", "Referendum approval follows the three turnout-biased threshold formulas",
     "A referendum with no turnout (integer square root zero) is rejected. Otherwise super-majority approve needs nays/sqrt(turnout) < ayes/sqrt(electorate), super-majority against needs nays/sqrt(electorate) < ayes/sqrt(turnout), each compared exactly as fractions, and simple majority needs more ayes than nays.",
     ["inputs"], "every tally, electorate and threshold kind", WHY + "A handful of tallies per formula.", ["pallets/democracy/src/vote_threshold.rs", D[0]], [("Approved::approved", "pallets/democracy/src/vote_threshold.rs"), ("compare_rationals", "pallets/democracy/src/vote_threshold.rs")],
     note="The square root itself is a library function and is taken as given.")
prop("C17", "Every referendum concludes exactly once, at its end block",
     "In the block at which an ongoing referendum ends it becomes finished with that block and the outcome of its threshold formula, and is reported as passed or not passed. "
     "Its call is scheduled to run as root, once, if and only if it passed, after its delay but at least one block later; and the lowest unfinished index only ever moves past referenda that are no longer ongoing.",
     IH, "every block number and set of referenda with any end block, tally and threshold", WHY, D, [("bake_referendum, begin_block", D[0])], [("ReferendumInfoOf", "state", D[0]), ("LowestUnbaked", "first index that may be ongoing", D[0])])
prop("C18", "Launch periods alternate between external and most-backed public proposals",
     "Exactly at multiples of the launch period one proposal is tabled if there is any: the kind that was not tabled last if available, else the other. "
     "A public one is the queued proposal with the largest total deposit, tabled with super-majority approve; an external one keeps its own threshold; both vote for the voting period and enact after the enactment period.",
     IH, "every block number, queue, deposits and external slot", WHY, D, [("launch_next, launch_public, launch_external", D[0])], [("LastTabledWasExternal", "alternation", D[0])],
     note="A launch whose deposit release fails half-way is outside the rule.")
prop("C19", "Referenda get consecutive fresh numbers and start with an empty tally",
     "Every referendum, however it starts, takes the next number from a counter that starts at zero and grows by one, begins ongoing with zero ayes, nays and turnout, and with the end block, proposal, threshold and delay it was started with.",
     IH, "every start path and counter value", WHY, D, [("inject_referendum", D[0])], [("ReferendumCount", "next number", D[0])])
prop("C20", "Proposal metadata always belongs to the current owner of the proposal",
     "Metadata can be set only by the owner's rightful origin and only if its preimage exists; when a proposal becomes a referendum its metadata moves along, and when a proposal or referendum is vetoed, cancelled, blacklisted or replaced its metadata is cleared. "
     "Every such change is reported by an event and never touches another owner's metadata.",
     IH, "every owner kind, origin and proposal life cycle", WHY + "Replacement and blacklisting with metadata present were not tested.", D, [("transfer_metadata, clear_metadata", D[0]), ("set_metadata", D[0])], [("MetadataOf", "hash per owner", D[0])])
prop("C21", "Each governance call is open only to its own origin",
     "Every privileged governance call succeeds only for the origin configured for it (submission, external, majority, default, fast-track, instant, cancellation, blacklist, cancel-proposal, veto or root), and the others only for a signed account acting on its own votes, delegations or deposits.",
     ["inputs", "configurations"], "every call, origin and configuration of origins", WHY, D, [("ensure_origin, ensure_signed, ensure_root at entry", D[0])])

E = ["pallets/elections-phragmen/src/lib.rs"]
WHYE = "The unit tests run scripted elections with a handful of accounts, constant bonds and one set of parameters; the claim quantifies over every voter set, bond history and configuration. "
prop("C22", "A council vote is bounded, backed by a freeze and locked",
     "A voter may vote for between one and the configured maximum of accounts, for no more than there are candidates, members and runners-up together, and only while there is somebody to vote for. "
     "The stake, capped at the voter's total balance, is frozen under the voting reason and must exceed the minimum balance; while an earlier vote is still locked it may not be below the earlier value. "
     "The vote is recorded with that stake and locked until the current block plus the voting lock period, and nothing else changes.",
     IH, "every voter, vote list, stake, earlier vote, block and list of candidates, members and runners-up", WHYE, E, [("vote", E[0])],
     [("Voting", "votes, stake and lock per voter", E[0]), ("freeze with the voting reason", "locked stake", "Fungible")], ["Voting", "frozen balance"])
prop("C23", "Voters leave only after their lock, or when defunct",
     "A voter can withdraw its votes only if it has votes and their lock has run out; the freeze is lifted and the record removed. "
     "Root can remove, among the first voters up to the given number, at most the given number of those none of whose votes goes to a current member, runner-up or candidate; each loses its record and its freeze, and nobody else does.",
     IH, "every voting record, block and list of seats", WHYE, E, [("remove_voter, clean_defunct_voters", E[0])], [("Voting", "votes, stake and lock per voter", E[0])])
prop("C24", "Only outsiders become candidates, once, with a bond, while there is room",
     "Candidacy is refused to current candidates, members and runners-up, when the caller understates the number of candidates, and once the configured maximum of candidates stands. "
     "It holds exactly the configured bond from the caller, and inserts the caller with the bond paid into the ordered candidate list, changing nothing else.",
     IH, "every caller, candidate list, seat list and bond configuration", WHYE, E, [("submit_candidacy", E[0])], [("Candidates", "ordered candidates and their bonds", E[0])])
prop("C25", "A candidacy bond is returned or slashed once, at the amount paid",
     "Whoever renounces as candidate, runner-up or member gets back exactly the bond recorded for it, and leaves exactly the list it renounced; a wrong role is refused. "
     "A removed member's recorded bond is either slashed to the slash handler or returned in full, as root chose. No change of the configured bond changes a bond already paid.",
     IH, "every role, list and bond recorded, including bonds recorded under another configuration", WHYE, E, [("renounce_candidacy, remove_and_replace_member", E[0])], [("Members, RunnersUp, Candidates", "bonds recorded", E[0])])
prop("C26", "A free seat goes to the best runner-up and the collective is told",
     "When a member is removed or renounces, the runner-up ranked best takes the seat, the member list stays ordered, and the collective is told exactly who left, who came and who now sits. "
     "The prime keeps its role unless it is the one leaving. A removed member is replaced (unless an election is run at once, after the replacement), and the removal is reported.",
     IH, "every member list, runner-up list and prime", WHYE, E, [("remove_and_replace_member", E[0])], [("Members", "ordered seat holders", E[0]), ("RunnersUp", "worst first", E[0])])
prop("C27", "An election considers every standing account and every recorded vote",
     "An election asks the Phragmen solver for the configured number of members plus runners-up, from all candidates, members and runners-up, with every voter's stake and votes. "
     "With nobody standing it only reports an empty term; with more voters than the configured maximum, or when the solver fails, it only reports an error.",
     IH, "every candidate, seat and voter set and configuration", WHYE, E, [("do_phragmen", E[0])], [("Voting, Candidates, Members, RunnersUp", "inputs", E[0])],
     note="The solver sp_npos_elections::seq_phragmen is a dependency outside the repository and is taken as given.")
prop("C28", "The best-backed winners sit, the next are runners-up, all with their bonds",
     "Among winners with non-zero backing the first in the solver's order become members, ordered by account, and the remaining ones runners-up, best last, each recorded with its backing and with the bond it had recorded before. "
     "The candidate list is emptied, the round counter grows by one, and the collective is told the incoming, outgoing and sitting members.",
     IH, "every solver result and prior seat and bond state", WHYE, E, [("do_phragmen", E[0])], [("Members, RunnersUp, Candidates, ElectionRounds", "outcome", E[0])])
prop("C29", "Exactly those who lose their standing lose their bond",
     "After an election every candidate, outgoing member and outgoing runner-up who is neither member nor runner-up afterwards has its recorded bond slashed once to the loser handler, and is reported; nobody who keeps or gains a seat is slashed.",
     IH, "every election outcome and bond history", WHYE, E, [("do_phragmen", E[0])], [("holds with the candidacy reason", "bonds", "Fungible")])
prop("C30", "An election that cannot be held changes nothing",
     "When nobody stands, there are too many voters, or the solver fails, members, runners-up, candidates, the round counter, bonds and the collective stay as they were.",
     IH, "every state in which the election cannot be held", WHYE, E, [("do_phragmen", E[0])])
prop("C31", "The prime is the new member with the highest Borda score",
     "After an election the collective's prime is the new member with the largest sum, over all voters, of stake times the configured maximum of votes minus the position at which the voter named it, the highest account among equals, and none if there are no members; it is set after the membership change.",
     IH, "every voter set, vote order and outcome", WHYE, E, [("do_phragmen", E[0])], [("collective prime", "default vote", "ChangeMembers")])
prop("C32", "Elections happen exactly at term ends and on demand",
     "An election is run in every block whose number is a multiple of a non-zero term duration and in no other block; otherwise only when root removes a member and asks for a re-run, after the seat was refilled. The block hook changes nothing else.",
     ["inputs", "schedules"], "every block number, term duration and call", WHYE, E, [("on_initialize, remove_member", E[0])])
prop("C33", "Council calls are open only to their origin; genesis and views match the seats",
     "Voting, withdrawing, candidacy and renouncing act only for the signer; removing members and cleaning voters demand root. "
     "Genesis seats the given members in order with their stakes and a vote for themselves, refuses more than the desired number or unfunded stakes, and initialises the collective. Membership queries answer from the member list.",
     ["inputs", "configurations"], "every origin, genesis configuration and query", WHYE, E, [("calls, build, contains, sorted_members", E[0])])

prop("C34", "A slash re-vests what is left of each schedule until its old end",
     "When a vesting account is slashed, each of its schedules that is still running keeps the part still locked less the slashed amount, released evenly from now (or its later start) until its old end; a schedule with nothing left to release is dropped, and the vesting lock is updated. "
     "It never panics, whatever schedules the account holds, and an account without vesting is left alone. Every registered slash handler is called with the account and amount.",
     ["inputs", "histories"], "every set of schedules (running, ended or not begun), slash amount and block", "The two unit tests use schedules that have all begun and were vested just before the slash.", ["pallets/on-slash-vesting/src/lib.rs"],
     [("OnSlash for pallet_vesting::Pallet and for tuples", "pallets/on-slash-vesting/src/lib.rs")], [("Vesting", "schedules per account", "pallet_vesting")],
     note="The rate is rounded down to whole units per block, so amounts smaller than the number of blocks left are dropped. pallet_vesting itself is a dependency.")

L = ["pallets/linear-release/src/lib.rs", "pallets/linear-release/src/types.rs"]
WHYL = "The unit tests use a handful of schedules and blocks; the claim quantifies over every list of schedules, block, amount and hold reason. "
prop("C35", "A vesting schedule unlocks linearly and completely",
     "At every block a schedule's locked amount is its total less the per-block rate (at least one) times the blocks since its starting block, and zero once that product reaches the total or overflows; the releasable amount is always the rest of the total. "
     "The ending block is the starting block plus the total over the rate rounded up, at least one block later. Account totals add up over all schedules of that account and reason.",
     ["inputs"], "every schedule, block and list of schedules, including products beyond the number type", WHYL, L,
     [("locked_at, releaseble_at, ending_block_as_balance, is_valid", L[1]), ("vesting_balance, total_scheduled_amount", L[0])], [("Vesting", "schedules per account and hold reason", L[0])])
prop("C36", "Vesting releases the hold exactly down to what is still locked",
     "Vesting one reason (by the owner or by anyone for another account) or all reasons releases from that very reason's hold everything above the sum still locked by the account's schedules for that reason, drops the schedules with nothing left locked, and reports it. "
     "It fails if there is no schedule; other accounts and reasons are untouched.",
     IH, "every account, reason, schedule list, hold and block", WHYL, L, [("do_vest, vest, vest_other, vest_all, vest_all_other", L[0])], [("Vesting", "schedules", L[0]), ("holds by reason", "funds at stake", "Currency")],
     note="Assumes amounts still locked do not cancel out by number-type saturation.")
prop("C37", "A vested transfer moves the amount into hold together with its schedule",
     "A vested transfer of at least the minimum amount with a valid schedule moves exactly the schedule's total from the source to a hold of the target under the given reason, and appends that schedule to the target's list. "
     "It fails without effect if the schedule is invalid, too small or the list is full. A signed caller pays from its own account; only root names another source.",
     IH, "every source, target, schedule, reason and prior list", WHYL, L, [("do_vested_transfer, vested_transfer, force_vested_transfer", L[0])], [("Vesting", "schedules", L[0])])
prop("C38", "Merging two schedules keeps the locked amount and the later end",
     "Merging two schedules of the caller replaces them by one that starts at the latest of now and both starting blocks, locks the sum of what both still lock and ends with the later of the two (a finished one is just dropped); the other schedules stay. "
     "Equal indices change nothing, indices out of range fail.",
     IH, "every pair of schedules, block and list", WHYL, L, [("merge_vesting_info, merge_schedules", L[0])], [("Vesting", "schedules", L[0])],
     note="The rate is rounded down to whole units per block (at least one). Assumes two schedules not both finished still lock something together.")
prop("C39", "Schedules set by other pallets are admitted and dropped as stated",
     "Adding a release schedule for an account appends exactly that schedule, refusing a zero rate or a full list and ignoring a zero amount; setting one also releases what is not locked. The check beforehand answers exactly whether an addition is possible. "
     "Removing a schedule drops exactly the one at the index and releases what the remaining ones do not lock.",
     IH, "every schedule, index and prior list", WHYL, L, [("ReleaseSchedule impl", L[0])], [("Vesting", "schedules", L[0])])

X = ["pallets/proxy-bonding/src/lib.rs", "pallets/proxy-bonding/src/functions.rs"]
WHYX = "The unit tests use fixed prices and a few bonds; the claim quantifies over every price, amount, path, release type and block. "
prop("C40", "A treasury bond is fully paid for before it is placed",
     "Bonding on somebody's behalf charges the caller, in the chosen asset, the configured percentage of the bond's value at current prices, into the sub-account of that derivation path, and then holds exactly the bond there under the given reason, out of the treasury. "
     "It fails if a price is missing, the fee cannot be paid without killing the payer, or the treasury cannot cover the bond. Different derivation paths use different sub-accounts.",
     ["inputs", "configurations"], "every bond, asset, price and derivation path", WHYX, X, [("bond_on_behalf_of, calculate_fee, get_bonding_account", X[1])], [("sub-accounts", "fee and bond per path", X[1])])
prop("C41", "Treasury bonds and fees go back only when released, to the right place",
     "Bonds return to the treasury only after a release type is set for that path and reason and, if locked, once its block is reached, and then all of them. "
     "Fees of a path go to the fee recipient only if the bond was not refunded; a refund pays the user the fee from the path's account.",
     IH, "every path, reason, release type and block", WHYX, X, [("transfer_bonds_back_to_treasury, transfer_fees_to_recipient", X[0]), ("refund_fee, set_release_type", X[1])], [("Releases", "release type per path and reason", X[0])])

S = ["pallets/dispenser/src/lib.rs"]
WHYS = "The unit tests use a few accounts and one policy; the claim quantifies over every credential, balance and prior dispensing history. "
prop("C42", "Each identity is dispensed to at most once, with the locked part vested",
     "A dispense pays the configured amount from the pallet's account to the signer of a valid credential bound to the whitelisted policy, only if that identity was never dispensed to and the account covers it, and records the identity. "
     "All but the free part is put into a vesting schedule starting after the lock period. The amount can be changed only by the admin origin and to more than the free part.",
     IH, "every credential, history, balance and configuration", WHYS, S, [("dispense, set_dispense_amount", S[0])], [("Dispensed", "identities served", S[0]), ("DispenseAmount", "amount", S[0])])
prop("C43", "An account without funds may only send the dispense call, nonces in order",
     "An account without providers and sufficients is refused any transaction except the dispense call. A transaction's nonce below the account's is refused, and only the account's current nonce is executed, after which it counts up by one.",
     IH, "every account state, call and nonce", WHYS, ["pallets/dispenser/src/extensions.rs"], [("validate, pre_dispatch", "pallets/dispenser/src/extensions.rs")])
R = ["pallets/polimec-receiver/src/lib.rs"]
prop("C44", "A migration pays and vests each contribution exactly once",
     "Only the configured sibling parachain can execute migrations. Each migration not yet executed pays its amount from that chain's sovereign account to the named 32-byte account, puts the same amount into a vesting schedule from the genesis moment and is recorded as executed; one already executed moves nothing. "
     "If any transfer or schedule fails, or an origin is not a plain local account, the whole call fails.",
     IH, "every list of migrations and execution history", "There is one scripted test; the claim quantifies over every list, origin and history.", R, [("execute_migrations", R[0])], [("ExecutedMigrations", "executed user, type and id", R[0])])

K = ["polimec-common/common/src/credentials/mod.rs"]
prop("C45", "Only a valid, unexpired credential of the signer is accepted",
     "An origin with credentials is accepted exactly when it is signed, the token verifies under the given Ed25519 key, carries an expiry not before the chain's current time, and names the signing account as its subject. "
     "It then yields that account and the token's own identity, investor type and policy; otherwise it is refused with a bad-origin error.",
     ["inputs"], "every origin, token, key and time", "Unit tests sign a few tokens; the claim quantifies over every token, signer and time.", K, [("EnsureInvestor::try_origin, ensure_origin, verify_token", K[0])],
     note="The jwt-compact validator is a dependency. A verifying key that is not a curve point panics by design ('The Key is always valid').")
M = ["polimec-common/common/src/lib.rs"]
prop("C46", "Price conversions and migration totals follow their definition",
     "A decimals-aware price is price times ten to the USD decimals over ten to the asset's decimals, converting back multiplies or divides by ten to the difference of the decimals, and both give nothing when a step does not fit. "
     "A migration list's total, longest vesting time, origins and membership are those of its elements.",
     ["inputs"], "every price, number of decimals and list of migrations", "There are no unit tests of these beyond two prices.", M, [("ProvideAssetPrice", M[0]), ("Migrations", M[0])])

SP = ["pallets/parachain-staking/src/lib.rs", "pallets/parachain-staking/src/types.rs", "pallets/parachain-staking/src/delegation_requests.rs", "pallets/parachain-staking/src/auto_compound.rs"]
WHYP = "The pallet's own tests script particular accounts, amounts and rounds; the claim quantifies over every state, amount and round. "
prop("C47", "Staking parameters change only as their authority and bounds allow",
     "Staking expectations, inflation and the parachain bond settings can be changed only by the monetary governance origin, ranges only if minimum <= ideal <= maximum. "
     "The number selected, the commission and the round length only by root and within their bounds (round length above the number selected); each call refuses an unchanged value and changes nothing else.",
     ["inputs", "histories"], "every origin, prior configuration and value", WHYP, SP, [("set_* calls", SP[0])], [("InflationConfig, TotalSelected, Round", "staking parameters", SP[0])],
     note="The conversion from annual to per-round rates is taken as a function; its numeric quality is not decided.")
prop("C48", "A collator candidate's stake, pool entry and hold move together",
     "Joining, leaving, going off- and online and changing the self-bond keep a candidate's record, its entry in the ordered candidate pool, the total and the balance on hold for collators in step, each only from the right state and, for leaving and bonding less, only once the scheduled round is reached. "
     "Leaving returns everything and removes every record of the candidate.",
     ["inputs", "histories"], "every candidate state, amount, pool and round", WHYP, SP, [("candidate calls", SP[0]), ("CandidateMetadata", SP[1])], [("CandidateInfo, CandidatePool, Total", "candidates", SP[0])],
     note="The per-delegator part of execute_leave_candidates is covered through C49's rules only.")
prop("C49", "Delegation changes are scheduled once, wait and keep the hold in step",
     "A delegation's revocation or decrease can be scheduled once at a time and within the minimums, is recorded against the delegator's pending amount, executed only once its round is reached and then removed. "
     "Cancelling removes exactly that request and its pending amount. The delegator's balance on hold is always adjusted to the total delegated, and the auto-compound settings change only for existing delegations.",
     ["inputs", "histories"], "every delegator state, request list and round", WHYP, SP, [("delegation requests", SP[2]), ("adjust_bond_lock", SP[1]), ("auto compounding", SP[3])], [("DelegatorState, DelegationScheduledRequests", "delegations", SP[0])])
prop("C50", "Rounds, points and payouts follow the schedule",
     "A block author gets 20 points in the current round. A round ends once its length has passed, a new session takes the selected candidates (none if there are none, keeping the old set), "
     "and the payout for a round is prepared once its delay has passed, only if points were awarded, at the issuance that the stake of that round calls for, and is removed when finished. Rewards are paid out of the pay master.",
     ["inputs", "histories"], "every round, stake, block and point total", WHYP, SP, [("payouts, sessions, points", SP[0])], [("Points, AwardedPts, Staked, DelayedPayouts", "per round", SP[0])],
     note="Shares of single delegators within a payout are not decided.")

FU = {n: "pallets/funding/src/functions/" + f for n, f in dict(app="1_application.rs", eva="2_evaluation.rs", auc="3_auction.rs", con="4_contribution.rs", end="5_funding_end.rs",
                                                            set="6_settlement.rs", mig="7_ct_migration.rs", misc="misc.rs").items()}
FL = "pallets/funding/src/lib.rs"
FT = "pallets/funding/src/types.rs"
WHYF = "The pallet's own tests play scripted projects (and need an HTTP mock and the XCM simulator, so they do not run here); the claim quantifies over every project, amount, time and account. "
prop("C51", "A project moves through its phases in order, each once",
     "A project's status changes only from the phase the step is for and only after that phase's end, is announced, and the new phase runs from the next block for its configured length. "
     "Evaluation starts once, by the institutional issuer, for a project with a policy document; it fails when too little was bonded. Only the issuer of a project still in the application phase removes it, which frees the issuer for another project; one issuer has one active project.",
     IH, "every project, caller, credential and block", WHYF, [FU["app"], FU["eva"], FU["misc"]],
     [("transition_project", FU["misc"]), ("start_evaluation, end_evaluation", FU["eva"]), ("do_create_project, do_remove_project", FU["app"])],
     [("ProjectsDetails", "status and round times", FL), ("DidWithActiveProjects", "active project of an identity", FL)])
prop("C52", "An evaluation bonds what its amount is worth and counts once",
     "An evaluation is accepted only in the running evaluation round, from a valid credential for the project's policy that is not its issuer's, above the minimum and within the limits per project and user. "
     "It puts on hold the PLMC the amount is worth at the current price, splits it into an early and a late part at the threshold, and adds it once to the round's totals.",
     IH, "every project state, price, amount and credential", WHYF, [FU["eva"]], [("do_evaluate", FU["eva"])], [("Evaluations, EvaluationCounts", "evaluations", FL)])
prop("C53", "A bid is taken at the bucket prices and paid for in full",
     "A bid is accepted only in the running auction, from an eligible credential, within the ticket sizes, counts and multiplier allowed to its investor type. It is split over the price buckets in order, "
     "each part paid in the chosen asset and bonded at the current prices, recorded under its own number, and the bucket moves up by the amount taken.",
     IH, "every bucket state, amount, price, mode and investor", WHYF, [FU["auc"], FT, FU["misc"]], [("do_bid, do_perform_bid", FU["auc"]), ("Bucket::update, TicketSize", FT), ("try_plmc_participation_lock", FU["misc"])],
     [("Bids, Buckets, AuctionBoughtUSD", "bids and prices", FL)])
prop("C54", "A contribution buys no more than remains, paid for in full",
     "A contribution is accepted only in the running community round, not from the issuer, from winning bidders only later, and within the ticket sizes, counts and multiplier allowed. "
     "It buys at most the tokens remaining, at the weighted average price, is paid and bonded in full and is added once to the project's totals.",
     IH, "every project state, amount, price, mode and investor", WHYF, [FU["con"]], [("do_contribute", FU["con"])], [("Contributions, ContributionBoughtUSD", "contributions", FL)])
prop("C55", "The auction allots tokens to the best bids, first come first",
     "Once the auction has ended, bids are served from the highest price down, equal prices by number, until the auction's share of the tokens is used up: in full, then in part, and the rest rejected. "
     "Winners are marked, and the project's remaining tokens and funds change by exactly what was allotted at the lower of the bid's and the average price.",
     IH, "every set of bids and allocation", WHYF, [FU["auc"], FU["misc"], FT], [("do_end_auction", FU["auc"]), ("decide_winning_bids", FU["misc"]), ("BidInfo::cmp", FT)], [("Bids, DidWithWinningBids", "outcome of bids", FL)],
     note="The weighted average price itself (Bucket::calculate_wap) is not decided.")
prop("C56", "Funding succeeds exactly at its threshold, and rewards follow",
     "Funding can be ended only in the community round, when all tokens are sold or its time is over. It succeeds exactly when the funds reached are at least the threshold share of the target; "
     "evaluators are then rewarded from the fee computed over the brackets, otherwise slashed, and the issuer is free for another project.",
     IH, "every project state, amount and block", WHYF, [FU["end"], FU["misc"]], [("do_end_funding", FU["end"]), ("generate_evaluator_rewards_info, calculate_fee_allocation", FU["misc"])], [("ProjectsDetails", "status and evaluators' outcome", FL)])
prop("C57", "Settlement starts once and mints the reserved tokens",
     "Settlement starts only once, after a decided funding. On success the contribution token is created and named, a fifth and a half of the fee's tokens are minted to the contribution treasury, and bonds of proxied participations are locked for their vesting time; on failure those are refunded.",
     IH, "every project state and block", WHYF, [FU["set"], FU["misc"]], [("do_start_settlement", FU["set"]), ("generate_liquidity_pools_and_long_term_holder_rewards", FU["misc"])], [("ProjectsDetails", "status and funding end", FL)])
prop("C58", "Each participation is settled once, for exactly what it is due",
     "Settling an evaluation, bid or contribution removes it. Money and bond go back in full when funding failed or the bid was rejected; otherwise tokens are minted and listed for migration, the money goes to the funding destination, what a bid overpaid is refunded and the bond is vested. "
     "Evaluators lose the configured share or receive their reward.",
     IH, "every participation, outcome, price and mode", WHYF, [FU["set"]], [("do_settle_evaluation, do_settle_bid, do_settle_contribution", FU["set"])], [("Evaluations, Bids, Contributions", "open participations", FL)])
prop("C59", "Each account's migration is confirmed once, then the project ends",
     "A project is settled only when no participation is left open. Each account with tokens to migrate counts once as open, its status moves only forward, and confirming it lowers the count exactly once; "
     "only the issuer confirms off-chain, and the migration is finished only when the count is zero.",
     IH, "every set of participations, migration state and caller", WHYF, [FU["set"], FU["mig"], FU["misc"]], [("create_migration, do_mark_project_as_settled", FU["set"]), ("change_migration_status", FU["misc"]), ("off-chain migration calls", FU["mig"])],
     [("UserMigrations, UnmigratedCounter", "open migrations", FL)])
prop("C60", "A pallet migration trusts only its project's own chain",
     "A migration through the project's chain starts only once, by the issuer of a settled project. Readiness answers and confirmations are accepted only from that chain's location, for a query still open, and each is used up by its answer; "
     "a holding answer passes only if the chain holds at least the tokens sold. An answer without any asset is a failed check, never a panic.",
     IH, "every response, location, query and project state", WHYF, [FU["mig"]], [("do_start_pallet_migration, do_start_pallet_migration_readiness_check", FU["mig"]), ("do_pallet_migration_readiness_response, do_confirm_pallet_migrations", FU["mig"])],
     [("ActiveMigrationQueue", "open queries", FL), ("ProjectsDetails", "migration state", FL)],
     note="The channel handshake and the encoding of the messages are not decided.")

prop("C61", "The task that enacts a referendum is named by the referendum's number",
     "An approved referendum is scheduled once, as root, under a name that is the encoding of the pallet's identifier and the referendum's number, padded with zeros, or the first bytes of its Blake2 hash when the encoding is longer than the name. "
     "So no two referenda ever share a name and the scheduler never refuses one because of another.",
     IH, "every referendum number, identifier and length of the name", WHY + "The tests enact a handful of referenda and never look at the name.", D,
     [("name", "pallets/democracy/src/lib.rs EncodeInto::encode_into"), ("scheduling", "pallets/democracy/src/lib.rs bake_referendum")])
prop("C62", "The elections state check passes only on a sound state",
     "The pallet's state check, run by try-runtime before and after an upgrade, succeeds exactly when the stored council is sound. Members and candidates are in account order, runners-up run from the least to the most backed, "
     "no account is in two of the three lists, and every member and runner-up has backing.",
     IH, "every stored set of members, runners-up and candidates", "The tests run the check only on states the pallet itself produced, which are all sound: they can show that it passes, not that it would fail.", E,
     [("Hooks::try_state, do_try_state and the checks it calls", E[0])], [("Members", "seats", E[0]), ("RunnersUp", "replacements", E[0]), ("Candidates", "candidates", E[0])])
prop("C63", "Stored values are read back exactly as they were written",
     "Every value the democracy and elections pallets keep is read back exactly as it was written, also where it is part of a storage key: no part is dropped, reordered or replaced. "
     "Two different keys never share an entry, and an entry that was never written reads as empty, zero or its configured initial value.",
     IH, "every value of every stored type, key and entry", "The tests write and read a handful of values, most of them through the same call, and never the parts that only matter later.", D + E,
     [("stored types and their encodings", "pallets/democracy/src/types.rs, vote.rs, vote_threshold.rs, conviction.rs"), ("stored types and their encodings", E[0]), ("storage declarations", "pallets/democracy/src/lib.rs")],
     [("every storage item", "its key and its value", D[0])])
prop("C64", "Every governance change is reported by its own event, with true values",
     "Each change the democracy and elections calls and block hooks make that has an event is reported by exactly one such event, with the account, number, hash, amount or list the change was really about. "
     "No event reports something that did not happen.",
     IH, "every call, block and prior state", "Wallets, explorers and voters follow the chain only through events; the tests look at a few of them, mostly at the last one of a call.", D + E,
     [("every deposit_event of both pallets", D[0]), ("every deposit_event of both pallets", E[0])],
     [("frame_system's event list", "one entry per change", D[0])])
prop("C65", "Every call and block hook is charged for the work it can cause",
     "Each democracy and elections call declares, before it runs, the weight measured for that very call at the largest size it can meet (the configured maximum or the witness given), pays for it, and is of ordinary class except the two emergency calls. "
     "Delegating and undelegating give back only what the target's number of votes did not need; the block hooks report a full block when a referendum was tabled or concluded and the election's size when one was held.",
     IH, "every call with every argument, and every block and prior state", "The tests never look at weights: a call that is too cheap works like any other until somebody fills blocks with it.", D + E,
     [("#[pallet::weight] of every call, delegate, undelegate, begin_block", D[0]), ("#[pallet::weight] of every call, do_phragmen", E[0])], [],
     note="The measured numbers themselves (weights.rs) are the matter of C68.")
prop("C66", "An entry that one call reaches under two names keeps both changes",
     "When a call changes a stored entry under one key and again under another, and the two keys can name the same entry, the second change builds on the first. "
     "So a voter who delegates again to the account he already delegates to adds his new votes to what is left after his old ones were taken back.",
     ["inputs", "histories"], "every call with every argument, whichever of its keys coincide", "The tests delegate to a different account each time; the loss needs two arguments that coincide.", D + E,
     [("try_delegate, try_undelegate", D[0]), ("reduce_upstream_delegation, increase_upstream_delegation", D[0])], [],
     note="Not the funding and staking pallets: the calls of the first are too large for the whole-call summaries this needs, the second keeps each delegation in two lists whose agreement is not decided.")
prop("C67", "No call and no block hook panics",
     "Whatever its arguments and whatever is stored, a call ends with success or an error and a block hook returns: neither unwraps a missing value, fails an assertion, reaches outside a list or divides by zero. "
     "A panic in a block hook would stop the chain, and one in a call would cost the caller's weight for nothing.",
     ["inputs", "histories"], "every call and block hook with every argument and every stored state", "A test reaches a panic only in the state that triggers it, and such states are the rare ones.", D + E,
     [("on_initialize, do_phragmen, calls", E[0]), ("begin_block, launch_public, bake_referendum, calls", D[0])], [],
     note="Overflow of plain arithmetic and panics inside the Substrate libraries are not decided; configured periods and the electorate are taken not to be zero. The staking pallet, whose own expects rest on its storage invariants, and the funding pallet are outside.")
prop("C68", "The weight tables charge what was measured",
     "Each weight function of the democracy, elections, vesting, dispenser and funding pallets charges exactly the proof size, at least the database reads and writes, and at the largest size at least the least time, that its measurement recorded beside it; none charges less for a larger size. "
     "The table used without a runtime charges the same as the chain's table, function by function.",
     ["inputs"], "every weight function with every size", "The tests run with weights that nobody compares: a term dropped from one table changes no test.", D + E,
     [("SubstrateWeight, ()", "pallets/democracy/src/weights.rs"), ("SubstrateWeight, ()", "pallets/elections-phragmen/src/weights.rs"),
      ("SubstrateWeight, ()", "pallets/linear-release/src/weights.rs"), ("SubstrateWeight, ()", "pallets/dispenser/src/weights.rs"), ("SubstrateWeight, ()", "pallets/funding/src/weights.rs")], [],
     note="Whether the measurement itself is right is not decided; a function without a record is compared with the other table only. The staking pallet's table was edited by hand after it was measured and is outside.")
prop("C69", "Project metadata is accepted only if every limit holds",
     "A project is created, or edited by its issuer before it is frozen, only with metadata that has a positive price within bounds, 6 to 18 decimals, a funding target within bounds, an allocation of at least one token and at most the supply, a positive auction share, distinct currencies and ticket sizes above the minimum of each investor type and not above their own maximum; nothing else is refused. "
     "The project then starts afresh: in the application phase, unfrozen, with all its tokens remaining and a first bucket at the minimum price holding the auction's share, each later one a tenth of it for a tenth more.",
     IH, "every metadata value, issuer and project state", WHYF, [FT, FU["app"], FU["misc"]],
     [("ProjectMetadata::is_valid, TicketSize::check_valid", FT), ("project_validation, do_create_project, do_edit_project", FU["app"]), ("create_bucket_from_metadata", FU["misc"])],
     [("ProjectsMetadata, ProjectsDetails, Buckets", "the project", FL)])
prop("C70", "Migration messages carry what the project's chain has to do",
     "A channel request is answered only for a project in migration whose chain asks with admissible sizes: one message accepts it and requests the way back, and the project's channel state follows; when the way back is accepted, the readiness check starts, which asks for the holdings and the receiver pallet under exactly the two query numbers it then waits for. "
     "An account's migrations are sent once at a time, only when everything of it is settled and the chain has passed the check, as one call to the receiver that reports under the query number recorded for that account.",
     IH, "every request, answer, project and participant", WHYF, [FU["mig"], FU["misc"]],
     [("do_handle_channel_open_request, do_handle_channel_accepted", FU["mig"]), ("do_start_pallet_migration_readiness_check, do_send_pallet_migration_for", FU["mig"]), ("construct_migration_xcm_message", FU["misc"])],
     [("ProjectsDetails (migration_type)", "channel and check state", FL), ("ActiveMigrationQueue, UserMigrations", "who waits for which query", FL)])
declined("D01", "The average price is each bucket's price weighted by what it took",
     "The weighted average price of an auction is the sum of the buckets' prices weighted by the share of the accepted money each took.",
     IH, "every bucket state", WHYF, [FT], [("Bucket::calculate_wap", FT)],
     "the price is a chain of 18-digit fixed-point divisions and saturating multiplications inside nested closures over two lazily built lists; whether their rounding meets the stated average is a numeric question no static rule here decides, and pinning the expression tree would only restate its text")
declined("D04", "The off-chain worker submits the median of the fetched prices",
     "Every price submitted by the oracle's worker is computed only from well-formed answers and not more often than the configured interval.",
     ["inputs", "schedules"], "every answer of every exchange and every interleaving of workers", "Needs network answers and timers.", ["pallets/oracle-ocw/src/lib.rs"], [("offchain_worker", "pallets/oracle-ocw/src/lib.rs")],
     "quantifies over network answers, timeouts and worker schedules outside the chain's state; parsing and averaging run through dependencies whose source is not available offline, so no sound static argument is in reach")
declined("D05", "Storage migrations keep every stored value",
     "After a runtime upgrade, every item stored under the old layout is found, with the same meaning, under the new one.",
     ["inputs", "histories"], "every old storage content", "There are no tests of the migrations.", ["pallets/funding/src/storage_migrations.rs"], [("migrations", "pallets/funding/src/storage_migrations.rs")],
     "the old layout is only implied by bytes of chains already running; the source cannot say whether the decoding matches them")
declined("D06", "Blocks stay within weight and the runtime never stalls",
     "No sequence of calls makes a block exceed its weight or time limits.",
     ["inputs", "histories", "schedules"], "every block and load", "Benchmarks sample single calls.", ["pallets/democracy/src/weights.rs", "pallets/elections-phragmen/src/weights.rs"], [("weights", "pallets/democracy/src/weights.rs")],
     "quantifies over running time; the weights are measured numbers and no static rule here bounds real execution time")

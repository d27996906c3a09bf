"""The properties: text for properties.jsonl and MANIFEST.json."""
DEM = "pallets/democracy/src/"
EL = "pallets/elections-phragmen/src/lib.rs"
NOTE = ("Every assertion is decided by Z3 for all values within the stated bounds, on the MIR of the pallet, FRAME storage and balances code compiled "
        "from the current tree; trusted: rustc's MIR, the executor (mirsym) with its models of host storage and hashing (an injective function), Z3. "
        "Sampled paths and every counterexample are re-run on the native build. ")
NOTE2 = NOTE + ("The sources are compiled unchanged against hand-written manifests and small stand-ins for the third-party crates that are missing here "
         "(stubs/: jwt-compact, pallet-timestamp, xcm types; a multi-asset store in the mock). ")
LR = "pallets/linear-release/src/"
FF = "pallets/funding/src/functions/"
FT = "pallets/funding/src/types.rs"
FL = "pallets/funding/src/lib.rs"
NOTE3 = NOTE2 + "Compact amounts are encoded at fixed length in the symbolic storage; calls run inside a storage layer, as a dispatch does. "
PBD = "pallets/proxy-bonding/src/"
CM = "polimec-common/common/src/"
WHY = "The unit tests run a handful of fixed scenarios with round numbers; "
P = [
 dict(id="D01", title="Referendum tallies are the sum of the votes currently in force",
  statement="At every moment an ongoing referendum's ayes, nays and turnout equal the sum, over all accounts, of what their current votes contribute with conviction, plus what is currently delegated to those who voted. Voting, changing or removing a vote, delegating and undelegating change a tally by exactly the difference in the acting account's contribution. Each account has one vote per referendum and only it can remove it while the referendum runs.",
  quant="every sequence of vote, remove_vote, remove_other_vote, delegate, undelegate (as one step from any consistent state), every amount and conviction",
  why=WHY + "a tally drifts only after particular combinations of replaced votes, delegations and convictions.",
  files=[DEM + "lib.rs", DEM + "types.rs", DEM + "vote.rs"],
  state=[("ReferendumInfoOf", "tally of each running referendum", DEM + "lib.rs"), ("VotingOf", "votes and delegations per account", DEM + "lib.rs")],
  mech=[("try_vote / try_remove_vote", DEM + "lib.rs"), ("increase_upstream_delegation / reduce_upstream_delegation", DEM + "lib.rs"), ("Tally::add/remove/increase/reduce", DEM + "types.rs")],
  observe=["Democracy::ReferendumInfoOf", "Democracy::VotingOf"],
  note=NOTE + "Inductive step from an arbitrary consistent state with three explicit accounts and symbolic totals for everybody else."),
 dict(id="D02", title="Voted and delegated balance stays locked as long as its conviction demands",
  statement="An account's voting freeze always covers its largest current vote or delegation and every lock still running, and a vote or delegation never exceeds its total balance. When a winning vote is removed or a delegation ends, its balance stays frozen until the end of the lock period of its conviction, and losing, split or cancelled votes lock nothing further; others can remove only votes that lock nothing. An unlock releases exactly what no vote, delegation or running lock still needs.",
  quant="every vote, delegation, removal and unlock at any block, with any conviction, amount and earlier lock",
  why=WHY + "lock lengths depend on the conviction, outcome, end block and earlier locks together.",
  files=[DEM + "lib.rs", DEM + "vote.rs", DEM + "conviction.rs"],
  state=[("PriorLock", "locks from past activity", DEM + "vote.rs"), ("freeze Vote", "frozen balance", DEM + "lib.rs")],
  mech=[("extend_freeze in try_vote/try_delegate", DEM + "lib.rs"), ("update_lock", DEM + "lib.rs"), ("PriorLock::accumulate/rejig", DEM + "vote.rs")],
  observe=["Fungible::balance_frozen"],
  note=NOTE + "One account's record in all its forms; at most two simultaneous votes."),
 dict(id="D03", title="A referendum is approved exactly when its threshold formula says so",
  statement="With ayes, nays, turnout and electorate given, simple majority approves when ayes exceed nays; super-majority-approve when nays/sqrt(turnout) is less than ayes/sqrt(electorate); super-majority-against when nays/sqrt(electorate) is less than ayes/sqrt(turnout), with integer square roots and exact fractions. Without turnout the quorum-based thresholds reject.",
  over=["inputs"], quant="every tally and electorate (exactly up to the bounds)", why=WHY + "rounding matters only near the threshold, which no test samples.",
  files=[DEM + "vote_threshold.rs", DEM + "types.rs"], mech=[("Approved::approved, compare_rationals", DEM + "vote_threshold.rs")],
  observe=["VoteThreshold::approved"],
  note=NOTE + "Exact for small square roots; above that only where the integer parts of the ratios decide."),
 dict(id="D04", title="Conviction arithmetic, lock periods and the vote encoding are exact",
  statement="Voting power is a tenth of the balance without conviction and the conviction's number times the balance (saturating) otherwise; the lock of conviction n lasts 2^(n-1) periods. A vote survives encoding and decoding and no byte decodes to an invalid vote. Adding and removing the same vote or delegation from a tally restores it, and the balance a record locks is the largest of its parts.",
  over=["inputs"], quant="every balance, conviction, byte and tally", why=WHY + "overflow and rounding need all values.",
  files=[DEM + "conviction.rs", DEM + "vote.rs", DEM + "types.rs"], mech=[("Conviction::votes, lock_periods", DEM + "conviction.rs"), ("Vote::encode/decode", DEM + "vote.rs"), ("Tally", DEM + "types.rs")],
  observe=["Conviction::votes", "AccountVote::locked_if"], note=NOTE),
 dict(id="D05", title="Proposal deposits: held once per backing, refunded at launch, slashed on removal",
  statement="What an account has on hold for proposals is exactly the sum of its recorded deposits. Proposing needs the minimum deposit and room in the queue, seconding holds the same amount again; launching a proposal releases all its deposits in full, and cancelling or blacklisting it slashes exactly its deposits to the slash handler. No other account's deposit or proposal changes.",
  quant="every queue of proposals and depositors, every amount, every operation", why=WHY + "a deposit lost or refunded twice needs repeated backers or several proposals.",
  files=[DEM + "lib.rs"], state=[("DepositOf", "backers and deposit of a proposal", DEM + "lib.rs"), ("PublicProps", "queue", DEM + "lib.rs")],
  mech=[("propose, second, cancel_proposal, blacklist", DEM + "lib.rs"), ("launch_public", DEM + "lib.rs")], observe=["Fungible::balance_on_hold", "Democracy::DepositOf"],
  note=NOTE + "Removing all proposals by root (clear_public_proposals) is outside the statement."),
 dict(id="D06", title="Privileged democracy calls succeed only for their own origin and conditions",
  statement="Every privileged call (external proposals, fast-tracking, cancelling, blacklisting, vetoing, clearing, metadata) succeeds for exactly the origins configured for it, and a refused call changes nothing. Fast-tracking needs a majority-carries external proposal and the minimum voting period unless the instant origin is allowed to shorten it. A proposal is emergency-cancelled at most once, and metadata belongs to its owner and needs a noted preimage.",
  quant="every call from every origin in every queue state, every period", why=WHY + "each test checks one wrong origin for one call.",
  over=["inputs", "configurations"],
  files=[DEM + "lib.rs"], mech=[("ensure_origin in every dispatchable", DEM + "lib.rs"), ("set_metadata", DEM + "lib.rs")], observe=["dispatch results", "storage"],
  note=NOTE),
 dict(id="D07", title="Vetoed and blacklisted proposals stay out for as long as they must",
  statement="A vetoed external proposal is withdrawn and cannot be proposed again before its cool-off ends, and can afterwards; the same account cannot veto it twice. A blacklisted proposal is withdrawn from every queue and can never be proposed again, whatever vetoes follow. Only one external proposal waits at a time and a normal external proposal never replaces it.",
  quant="every block, cool-off period and earlier blacklist entry", why=WHY + "the permanence of a blacklist breaks only when blacklisting and vetoing combine.",
  files=[DEM + "lib.rs"], state=[("Blacklist", "until when, and who vetoed", DEM + "lib.rs"), ("NextExternal", "waiting external proposal", DEM + "lib.rs")],
  mech=[("veto_external, blacklist, external_propose, propose", DEM + "lib.rs")], observe=["dispatch results", "Democracy::Blacklist"],
  note=NOTE + "A genuine defect found here (a veto ended a permanent blacklist) is repaired by a fix commit."),
 dict(id="D08", title="Referenda end exactly on time, by their threshold, and passed ones are enacted",
  statement="A referendum is decided exactly at its end block by its threshold over its tally, never earlier or later, and the result is final. A passed referendum's own proposal is scheduled once, after its enactment delay and at least one block later; rejected or cancelled ones are never scheduled. No running referendum is ever skipped.",
  over=["inputs", "histories"], quant="every window of running, finished and cancelled referenda at any block", why=WHY + "skipping depends on the mix of finished, cancelled and running referenda.",
  files=[DEM + "lib.rs"], state=[("LowestUnbaked", "first referendum that may still run", DEM + "lib.rs")],
  mech=[("begin_block, bake_referendum", DEM + "lib.rs"), ("inject_referendum", DEM + "lib.rs"), ("internal_cancel_referendum", DEM + "lib.rs")], observe=["Scheduler::schedule_named", "Democracy::ReferendumInfoOf"],
  note=NOTE),
 dict(id="D09", title="Launch periods alternate sources and launch the best-backed proposal",
  statement="At each launch period at most one referendum starts, and one does if a proposal waits; external and public proposals take turns when both wait. The public proposal launched is one with the highest total backing and keeps its own call, metadata and threshold; external proposals keep the threshold they were proposed with. Nothing else leaves the queues, and nothing is launched outside launch periods.",
  quant="every pair of queues, backing and launch period", why=WHY + "ties and equal products of deposit and backers are not sampled.",
  files=[DEM + "lib.rs"], state=[("LastTabledWasExternal", "whose turn it is", DEM + "lib.rs")], mech=[("launch_next, launch_external, launch_public", DEM + "lib.rs")],
  observe=["Democracy::ReferendumInfoOf", "Democracy::PublicProps"], note=NOTE),
 dict(id="D10", title="Delegations are counted exactly once, at the current delegate",
  statement="The voting power and capital a delegate holds is exactly the sum of what is currently delegated to it: changing the delegate or amount moves it and undelegating removes it. Nobody delegates to themselves, accounts with votes cannot delegate and delegating accounts cannot vote. An account's own operations never change what it has received.",
  quant="every delegation state of three accounts with symbolic totals of everyone else", why=WHY + "double counting shows up only after re-delegation between accounts in particular voting states.",
  files=[DEM + "lib.rs", DEM + "vote.rs"], state=[("VotingOf", "delegations received and given", DEM + "lib.rs")],
  mech=[("try_delegate, try_undelegate", DEM + "lib.rs")], observe=["Democracy::VotingOf"], note=NOTE),
 dict(id="E01", title="Council elections seat exactly the Phragmen winners, once per term",
  statement="In the last block of every term, and only then (or when a forced rerun is asked for), an election is held over all candidates, members and runners-up with every voter's current votes and stake. The best-placed winners with any backing take at most the desired seats, the next ones at most the desired runner-up places in order of rank, all with their stake and own deposit. Members are sorted and distinct, candidates are cleared, votes stay, and the prime is the member with the highest Borda count. With too many voters or nobody standing, nothing changes.",
  quant="every term length and block, every combination of roles, desired seats and votes within the bounds", why=WHY + "ties, overlaps of roles and the exact split between seats depend on combinations.",
  files=[EL], state=[("Members, RunnersUp, Candidates", "who has which role", EL), ("Voting", "votes and stakes", EL)],
  mech=[("do_phragmen", EL), ("on_initialize", EL)], observe=["Elections::Members", "ChangeMembers::change_members_sorted", "ChangeMembers::set_prime"],
  note=NOTE + "The Phragmen arithmetic itself (sp-npos-elections) is a dependency, used as the oracle."),
 dict(id="E02", title="Candidacy deposits are held, returned or slashed exactly once",
  statement="What an account has on hold for candidacy is exactly the deposit recorded with its candidacy or seat, at the amount it was submitted with. Renouncing and an unslashed removal return it in full; losing an election or a slashed removal hands exactly that deposit to the slash handler. Nobody else's money moves, and those who keep a seat keep their deposit.",
  quant="every deposit, role and operation", why=WHY + "a deposit is lost or paid twice only for certain changes of role.",
  files=[EL], state=[("deposit of Members, RunnersUp, Candidates", "recorded deposits", EL)],
  mech=[("do_phragmen", EL), ("remove_and_replace_member", EL), ("submit_candidacy, renounce_candidacy", EL)], observe=["Currency::balance_on_hold"], note=NOTE),
 dict(id="E03", title="Council votes are valid, recorded as cast and lock their stake",
  statement="A vote is accepted exactly when it names at least one and at most the allowed number of targets, no more than there are candidates, members and runners-up, and its value exceeds the existential deposit or, while the voter is still locked, is no less than its current stake. The stake is the value capped by the total balance, is frozen until the voter leaves, and cannot be removed before the lock period from the last vote has passed. A refused vote changes nothing.",
  quant="every value, balance, earlier vote and lock, at every block", why=WHY + "caps and locks meet only at particular values.",
  files=[EL], state=[("Voting", "votes, stake, lock", EL)], mech=[("vote", EL)], observe=["Currency::balance_frozen", "Elections::Voting"], note=NOTE),
 dict(id="E04", title="Council voters leave only after their lock, and only defunct ones are purged",
  statement="A voter can remove itself exactly when its lock has ended, and then its whole voting freeze, and no other freeze, is lifted. Root can purge only voters none of whose targets is a candidate, member or runner-up, never more than it asked for and all of those within the limits it gave; everybody else's votes and stakes stay.",
  quant="every lock, block, stake and combination of votes and roles within the bounds", why=WHY + "a purge that hits an active voter needs particular mixes of targets.",
  files=[EL], state=[("Voting", "votes, stake, lock", EL)], mech=[("remove_voter, do_remove_voter", EL), ("clean_defunct_voters, is_defunct_voter", EL)], observe=["Currency::balance_frozen", "Elections::Voting"], note=NOTE),
 dict(id="E05", title="A leaving council member is replaced by the best runner-up",
  statement="When a member renounces or root removes it, the best runner-up (if any) takes the seat with its own stake and deposit, nobody else's role changes, and the membership handler is told exactly that change. The prime stays unless it is the one who leaves. Only root removes members, each role is renounced only by its holder, and a refused call changes nothing.",
  quant="every combination of seats, prime, account and claimed role", why=WHY + "replacement order and prime matter only with several runners-up.",
  files=[EL], state=[("Members, RunnersUp", "seats", EL)], mech=[("remove_and_replace_member", EL), ("renounce_candidacy, remove_member", EL)], observe=["ChangeMembers::change_members_sorted", "Elections::Members"], note=NOTE),
 dict(id="E06", title="Standing for council: one role per account, sorted and paid for",
  statement="Submitting candidacy succeeds exactly for a signed account that has no role yet, can pay the candidacy deposit, gives a sufficient candidate count as witness and finds the candidate limit not yet reached. Candidates stay sorted and distinct, members, runners-up and candidates never overlap, and a refused submission changes nothing.",
  quant="every account, role, witness, deposit and balance", why=WHY + "overlapping roles arise only through sequences of changes.",
  files=[EL], state=[("Candidates", "who stands", EL)], mech=[("submit_candidacy", EL), ("is_candidate, is_member, is_runner_up", EL)], observe=["Elections::Candidates"],
  note=NOTE + "Known finding: one candidate too many is accepted exactly at the limit (see known_findings.json)."),
 dict(id="S01", title="A slash shrinks every vesting schedule and keeps its pace to the end",
  statement="When an account is slashed, each of its vesting schedules keeps exactly what it still locked at that block minus the slashed amount (never below zero), vesting from the current block evenly over the blocks that remained, rounded down per block. A schedule with nothing left, or less than one unit per remaining block, disappears.",
  quant="every schedule (length, rate, elapsed blocks, amount), every combination of schedules, every slash", why=WHY + "what is left depends on the rounding of rate, end block and elapsed time together, and two scenarios are tested.",
  files=["pallets/on-slash-vesting/src/lib.rs"], state=[("pallet_vesting::Vesting", "schedules of an account", "pallets/on-slash-vesting/src/lib.rs")],
  mech=[("OnSlash for pallet_vesting::Pallet", "pallets/on-slash-vesting/src/lib.rs")], observe=["Vesting storage"],
  note=NOTE + "A genuine defect found here (a panic on schedules that ended but were not removed) is repaired by a fix commit."),
 dict(id="S02", title="After a slash an account's vesting lock is exactly what still vests",
  statement="Adjusting an account's vesting after a slash always completes, whatever state its schedules are in. It leaves the vesting lock at exactly the sum its schedules still lock (no lock if nothing is left), so everything else is usable; it moves no money, changes nobody else's vesting, does nothing to accounts without schedules, and every registered slash handler is told the slash.",
  quant="every schedule state, balance and slash", why=WHY + "a lock that outlives its schedules, or a panic, needs schedules in unusual states.",
  files=["pallets/on-slash-vesting/src/lib.rs"], state=[("pallet_balances::Locks", "the vesting lock", "pallets/on-slash-vesting/src/lib.rs")],
  mech=[("OnSlash for pallet_vesting::Pallet", "pallets/on-slash-vesting/src/lib.rs"), ("OnSlash for tuples", "pallets/on-slash-vesting/src/lib.rs")], observe=["Balances::locks", "Balances::reducible_balance"],
  note=NOTE),
 # ---- group fin
 dict(id="L01", title="A release schedule unlocks linearly, completely, and never early",
  statement="In pallet-linear-release the locked amount of a schedule is the full amount until its start, falls by the rate every block after it, never rises and never goes below zero; what is not locked is releasable, so that locked and releasable always add up to the amount, for every rate and block. Its ending block is the first where nothing is locked. A schedule is valid exactly if amount and rate are not zero.",
  over=["inputs"], quant="every amount, start, block and rate (several rates up to the largest)", why=WHY + "overflow and the last partial step need extreme or uneven values.",
  files=[LR + "types.rs"], mech=[("VestingInfo::locked_at, releaseble_at, ending_block_as_balance", LR + "types.rs")], observe=["VestingInfo"],
  note=NOTE2 + "A genuine defect (releasable 0 on overflow) is repaired by a fix commit."),
 dict(id="L02", title="Vesting releases exactly what has vested and nothing else",
  statement="A vest of an account's schedules under a hold reason, by anybody or for all reasons at once, leaves on hold exactly what the schedules still lock, makes the rest usable and reports it, drops finished schedules and keeps the others as they are. It moves no money between accounts and touches no other reason or account; money held under the reason without a schedule stays held; without schedules nothing is released.",
  quant="every set of up to three schedules, block, amount and hold", why=WHY + "the release depends on all schedules, the earlier releases and the block together.",
  files=[LR + "impls.rs", LR + "lib.rs"], state=[("Vesting", "schedules per account and reason", LR + "lib.rs"), ("hold per reason", "money not yet released", LR + "impls.rs")],
  mech=[("do_vest, write_release, report_schedule_updates", LR + "impls.rs")], observe=["fungible::InspectHold::balance_on_hold", "Vesting"],
  note=NOTE2 + "Known finding: money under the reason that no schedule covers is released too (lr::vest_extra)."),
 dict(id="L03", title="Merging release schedules keeps what is locked and the later end",
  statement="Merging two schedules of an account replaces them by one that locks exactly what both still lock, starting now or at the later start, with the rate that spreads it over the time to the later end (at least one unit a block); a schedule that has ended is dropped and the other kept unchanged. Exactly what all schedules still lock stays on hold. Merging a schedule with itself changes nothing, and missing schedules are refused.",
  quant="every pair of schedules (four lengths), in every order and position in time", why=WHY + "rounding and schedules that have ended or not begun combine in many ways.",
  files=[LR + "impls.rs", LR + "lib.rs"], state=[("Vesting", "schedules per account and reason", LR + "lib.rs")], mech=[("merge_vesting_info, exec_action, merge_schedules", LR + "impls.rs")], observe=["Vesting"],
  note=NOTE2),
 dict(id="L04", title="Vested transfers and schedule changes conserve money and respect limits",
  statement="A vested transfer succeeds exactly if its schedule is valid and at least the minimum, the sender (or root) asks, the sender can pay and the receiver has a free schedule slot; it moves exactly the amount, holds what is still locked and adds exactly this schedule. Adding or setting a schedule for held money moves nothing between accounts (setting releases what has vested, adding an ended one frees it); empty ones are ignored and invalid ones refused. Removing schedules frees exactly what they lock. Refused calls change nothing.",
  quant="every amount, balance, minimum, start and earlier schedules", why=WHY + "the boundaries (minimum, existential deposit, full schedule list, ended schedules) are separate cases.",
  files=[LR + "impls.rs", LR + "lib.rs"], state=[("Vesting", "schedules per account and reason", LR + "lib.rs")], mech=[("do_vested_transfer, set_release_schedule, add_release_schedule, can_add_release_schedule, remove_vesting_schedule", LR + "impls.rs")], observe=["Vesting", "balances"],
  note=NOTE2 + "A genuine defect (removing all schedules failed when one had ended) is repaired by a fix commit."),
 dict(id="B01", title="Bonding from the treasury costs exactly the fee and bonds exactly the amount",
  statement="The proxy-bonding fee is the fee percentage of the bond's dollar value, converted at the fee asset's price with both tokens' decimals; without a price there is none. Bonding on behalf of a user succeeds exactly if user and treasury can pay; it moves exactly the fee from the user to the sub-account, exactly the bond (and a missing existential deposit) from the treasury, and holds the bond in the sub-account under the reason given. A refused bond moves nothing.",
  quant="every bond, balance and existential deposit (for several markets)", why=WHY + "rounding of three conversions and the existential deposits matter only for uneven amounts.",
  files=[PBD + "functions.rs"], state=[("sub-account", "bonds and fees of a project", PBD + "functions.rs")], mech=[("calculate_fee, bond_on_behalf_of", PBD + "functions.rs")], observe=["balances, holds"],
  note=NOTE2),
 dict(id="B02", title="Proxy bonds return only to the treasury and only when due",
  statement="Bonds held in a sub-account go back to the treasury, whole, only when a release rule for that path and reason is set and its block has come (or it refunds); anybody signed may send them. Fees go to the fee recipient only when the rule locks the bonds, never when it refunds or none is set. A refund pays exactly the fee of that bond, if it is there. Other paths, reasons and assets stay untouched.",
  quant="every release rule, block, hold, balance and fee", why=WHY + "the rules of other paths, reasons and blocks near the release are not sampled.",
  files=[PBD + "lib.rs", PBD + "functions.rs"], state=[("Releases", "release rule per path and reason", PBD + "lib.rs")], mech=[("transfer_bonds_back_to_treasury, transfer_fees_to_recipient", PBD + "lib.rs"), ("refund_fee", PBD + "functions.rs")], observe=["balances, holds"],
  note=NOTE2),
 dict(id="C01", title="Prices convert exactly between dollar and token decimals",
  statement="The decimals-aware price of a token is its price (to the millionth of a dollar) scaled by the decimals of dollar and token, so that one whole token converts to exactly its price, and converting it back gives the price to the millionth. Without an oracle price, or for unrepresentable decimals, there is no price.",
  over=["inputs"], quant="every price, all usual decimals", why=WHY + "truncation shows only with prices of many digits or unusual decimals.",
  files=[CM + "lib.rs"], mech=[("ProvideAssetPrice", CM + "lib.rs")], observe=["ProvideAssetPrice::get_decimals_aware_price"], note=NOTE2),
 dict(id="C02", title="An investor origin needs the signer's own valid unexpired credential",
  statement="An investor call is accepted exactly if it is signed, the credential is signed with the verifying key, names the signer as its subject, has an expiry and has not expired at the chain's time; what the call then sees (account, identity, investor type, policy) is what the credential says.",
  quant="every signer, subject, expiry, time and key", why=WHY + "the boundary of the expiry, negative expiries and foreign subjects are separate cases.",
  files=[CM + "credentials/mod.rs"], mech=[("EnsureInvestor::try_origin, verify_token", CM + "credentials/mod.rs")], observe=["EnsureOriginWithCredentials::ensure_origin"],
  note=NOTE2 + "The signature check of jwt-compact (absent here) is modelled as equality of keys."),
 dict(id="C03", title="A batch of migrations keeps every entry and adds up",
  statement="A batch of migrations keeps every entry in order; its total is the sum of their token amounts and its vesting time the longest of theirs.",
  over=["inputs"], quant="every amount and time, up to three entries", why=WHY + "sums and maxima are tested with one entry.",
  files=[CM + "lib.rs"], mech=[("migration_types::Migrations", CM + "lib.rs")], observe=["Migrations"], note=NOTE2),

 # ---- group fund
 dict(id="F01", title="Projects: valid metadata, one per issuer, edits only before evaluation",
  statement="Project metadata is accepted exactly if prices, allocations, ticket sizes, currencies and the funding target obey the documented limits. Creating a project needs an institutional credential and no other active project of that identity, and charges exactly the creation deposits; editing, removing and starting the evaluation need the issuer and a project still in application; the bucket and target always follow the metadata; removing frees exactly the project's own issuer identity. Refused calls and other projects are left alone.",
  quant="every allocation, supply, ticket size, target, price class, credential and status", why=WHY + "limits at their boundaries and foreign identities are not sampled.",
  files=[FF + "1_application.rs", FT], state=[("ProjectsMetadata, ProjectsDetails, Buckets, DidWithActiveProjects", "projects", FL)], mech=[("do_create_project, do_edit_project, do_remove_project", FF + "1_application.rs"), ("ProjectMetadata::is_valid", FT)], observe=["ProjectsDetails", "Buckets", "DidWithActiveProjects"],
  note=NOTE3 + "A genuine defect (removing freed the wrong identity) is repaired by a fix commit."),
 dict(id="F02", title="Evaluations bond exactly their worth and decide if the auction starts",
  statement="An evaluation is taken exactly if the round runs, the amount reaches the minimum, the limits per user and project are kept, the evaluator is not the issuer, fits the policy and can pay; it holds exactly the PLMC worth the dollars, counts dollars as early up to the threshold and late beyond, and adds to the round's totals. Once the round is over anyone can end it: at the threshold or above the auction starts, below it funding fails, with the issuer free again.",
  quant="every amount, balance, time, earlier total and count (for several markets)", why=WHY + "the split into early and late and the threshold matter only at exact amounts.",
  files=[FF + "2_evaluation.rs"], state=[("Evaluations", "evaluations and bonds", FL), ("EvaluationCounts", "evaluations of a project", FL)], mech=[("do_evaluate, do_end_evaluation", FF + "2_evaluation.rs")], observe=["Evaluations", "ProjectsDetails", "balances, holds"], note=NOTE3),
 dict(id="F03", title="Bids are taken at bucket prices, within limits, against exactly bond and money",
  statement="A bid is taken exactly if the auction runs and credential, policy, currency, multiplier, ticket sizes and the number of bids allow it. It fills the current bucket and continues in the next ones at one tenth of the minimum price more each; the parts add up to the bid. Each part records its price, moves exactly the money to the project's escrow and holds exactly the bond, taking the unslashable part of the user's evaluation bonds first; without own bond the treasury bonds for a fee. Refused bids change nothing.",
  quant="every amount, bucket, limit, balance and time (for several markets, up to four buckets)", why=WHY + "bucket boundaries, reused evaluation bonds and rounding combine in ways not sampled.",
  files=[FF + "3_auction.rs", FF + "misc.rs", FT], state=[("Bids, Buckets, BidCounts, AuctionBoughtUSD", "bids", FL)], mech=[("do_bid, do_perform_bid", FF + "3_auction.rs"), ("bond_plmc_with_mode, try_plmc_participation_lock", FF + "misc.rs"), ("Bucket", FT)], observe=["Bids", "Buckets", "balances, holds"], note=NOTE3),
 dict(id="F04", title="The auction sells to the highest bids and sets the weighted average price",
  statement="An auction round can be ended by anyone once it is over, and not before. Bids win by price, then by age, exactly up to the auction's allocation; the last may win in part, the rest is rejected; nothing else of a bid changes. The price for the community round is the average of the bucket prices weighted by money, between the minimum and the highest bucket; what was sold and raised (at most at that price) is counted and exactly the winners are marked.",
  quant="every amount and order of three bids by two bidders on up to three prices, every time", why=WHY + "ties, partial wins and full allocations need exact amounts.",
  files=[FF + "3_auction.rs", FF + "misc.rs", FT], state=[("Bids", "bids and their fate", FL), ("DidWithWinningBids", "winners", FL)], mech=[("do_end_auction", FF + "3_auction.rs"), ("decide_winning_bids", FF + "misc.rs"), ("Bucket::calculate_wap, BidInfo::cmp", FT)], observe=["Bids", "ProjectsDetails"],
  note=NOTE3 + "A genuine defect (in an oversubscribed auction bids beyond the allocation lowered the average price) is repaired by a fix commit."),
 dict(id="F05", title="Contributions buy what is left at the weighted average price",
  statement="A contribution is taken exactly if the community round runs, tokens are left, credential, policy, currency, multiplier and ticket sizes allow it (only the one that sells out may be below the minimum), and auction winners wait for the remainder. It buys the amount asked for or what is left, at the weighted average price, moves exactly the money to escrow, holds exactly the bond (or has the treasury bond for a fee), and what is sold and raised is counted. Refused calls change nothing.",
  quant="every amount, remainder, limit, balance and time (for one market, two prices)", why=WHY + "the last small contribution, the remainder's start and summed limits are boundaries.",
  files=[FF + "4_contribution.rs", FF + "misc.rs"], state=[("Contributions, ContributionBoughtUSD", "contributions", FL)], mech=[("do_contribute, do_perform_contribution", FF + "4_contribution.rs")], observe=["Contributions", "ProjectsDetails", "balances, holds"], note=NOTE3),
 dict(id="F06", title="The end of funding decides by a third of the target, and splits the fee exactly",
  statement="Only a community round can be ended as a funding round: by anyone, when sold out or over. Funding succeeds exactly from 33 % of the target on; below it evaluators will be slashed. The fee is 10 % of the first million dollars, 8 % of the next four and 6 % beyond, taken from the tokens sold: half for liquidity pools, a fifth for long-term holders, three tenths for evaluators, a fifth of those for the early ones; the parts add up.",
  quant="every amount sold (for raised amounts and targets around each boundary), every status and time", why=WHY + "brackets and the threshold are boundaries; a sold out project stays sold out in every later stage.",
  files=[FF + "5_funding_end.rs", FF + "misc.rs"], state=[("ProjectsDetails", "outcome and rewards", FL)], mech=[("do_end_funding", FF + "5_funding_end.rs"), ("compute_total_fee_from_brackets, generate_evaluator_rewards_info", FF + "misc.rs")], observe=["ProjectsDetails"],
  note=NOTE3 + "A genuine defect (a sold out project could be put back from settlement by anyone) is repaired by a fix commit."),
 dict(id="F07", title="Settlement pays everybody exactly once and exactly what is due",
  statement="After the funding anyone can start the settlement, once, and settle each bid and contribution, once. On success the issuer gets the price of what was won, the participant the rest, exactly the tokens, and a bond that is released over the time of its multiplier (the part no longer needed at once); on failure or rejection everything goes back. Only this participation's money leaves escrow; treasury bonds never go to participants. Settlement ends only when nothing is left.",
  quant="every amount, bond, price, decision and outcome, settled early or years late", why=WHY + "refunds after price moves, tiny bonds and late settlements are not sampled.",
  files=[FF + "6_settlement.rs", FF + "misc.rs", LR + "impls.rs"], state=[("Bids, Contributions", "open participations", FL), ("UserMigrations, UnmigratedCounter", "tokens to migrate", FL), ("Vesting", "release schedules", LR + "lib.rs")], mech=[("do_start_settlement, do_settle_bid, do_settle_contribution, do_mark_project_as_settled", FF + "6_settlement.rs"), ("calculate_vesting_info", FF + "misc.rs")], observe=["balances, holds", "Vesting", "contribution tokens", "UserMigrations"],
  note=NOTE3 + "Two genuine defects (tiny bonds blocked settlement; a settlement after the release time kept the bond held forever) are repaired by fix commits."),
 dict(id="F08", title="Evaluators are slashed a fifth on failure and rewarded their part on success",
  statement="Settling an evaluation, by anyone, once, during settlement: after a failure exactly the slash percentage of the original bond goes to the treasury and vesting shrinks by as much; the rest of the current bond is freed. After a success the bond is freed and exactly the evaluator's share of the pots (early part of the early pot, all of the normal pot) is minted and set to migrate; nobody gets more than there is. Other evaluations and other money on hold are untouched.",
  quant="every bond, converted part, pot and share", why=WHY + "bonds partly used for bids and uneven shares are not sampled.",
  files=[FF + "6_settlement.rs"], state=[("Evaluations", "evaluations and bonds", FL)], mech=[("do_settle_evaluation, slash_evaluator, reward_evaluator, calculate_evaluator_reward", FF + "6_settlement.rs")], observe=["balances, holds", "contribution tokens", "UserMigrations"], note=NOTE3),
 dict(id="F09", title="An off-chain migration is confirmed once per user, by the issuer",
  statement="During an off-chain migration only the issuer confirms that a user's tokens have migrated, each user once; the counter of users still waiting falls by exactly one with each confirmation, so that a project never finishes its migration while users wait. Everything else, and other users and projects, stay as they were.",
  quant="every status, caller, participant, earlier confirmation and counter", why=WHY + "a second confirmation of the same user is not sampled.",
  files=[FF + "7_ct_migration.rs", FF + "misc.rs"], state=[("UserMigrations, UnmigratedCounter", "who still waits", FL)], mech=[("do_confirm_offchain_migration", FF + "7_ct_migration.rs"), ("change_migration_status", FF + "misc.rs")], observe=["UserMigrations", "UnmigratedCounter"],
  note=NOTE3 + "A genuine defect (confirming one user twice counted another as migrated) is repaired by a fix commit."),
 dict(id="F10", title="A project goes through its stages in order, each when due",
  statement="Whatever public call is made, a project only moves from application to evaluation (by its issuer), to auction or failure, to the community round, to success or failure, to settlement with that outcome, to its end with the same outcome, to migration (by its issuer, after success) and to its end when nobody waits; rounds end only when over or sold out. Everything else is refused and changes nothing.",
  over=["inputs", "schedules"], quant="every status, call, caller, time and remaining amount", why=WHY + "calls in later stages than the one they belong to are rarely sampled.",
  files=["pallets/funding/src/functions/"+x for x in ["1_application.rs","2_evaluation.rs","3_auction.rs","5_funding_end.rs","6_settlement.rs","7_ct_migration.rs"]], state=[("ProjectsDetails", "status", FL)], mech=[("transition_project", FF + "misc.rs")], observe=["ProjectsDetails"], note=NOTE3),
 dict(id="F11", title="A migration to a parachain gets ready only with that parachain",
  statement="A channel request is accepted exactly from the parachain of a project in migration and within the size limits; the relay chain is then asked to accept it and to open one back. Once both channels are open the readiness check starts: the parachain is asked for all minted tokens and the receiver pallet, with answers to exactly the new queries. Only the issuer repeats a check; only that parachain answers it, each part once, and it passes exactly if the tokens sold and the receiver are there. No answer panics; refused messages change nothing, nor do other projects change.",
  over=["inputs", "histories"], quant="every parachain id, size, channel state, check state, amount, pallet index, place and kind of answer", why=WHY + "answers come from other chains, which may send anything at any time.",
  files=[FF + "7_ct_migration.rs"], state=[("ProjectsDetails", "channels and readiness check", FL)], mech=[("do_handle_channel_open_request, do_handle_channel_accepted, do_start_pallet_migration_readiness_check, do_pallet_migration_readiness_response", FF + "7_ct_migration.rs")], observe=["ProjectsDetails", "messages to other chains", "queries"],
  note=NOTE3 + "Messages and answers are data of a stand-in for XCM; what another chain does with a message is outside. Three genuine defects (an empty answer panicked; answers were asked for under fixed query ids, so that only a chain's first check could ever finish; anyone could reset a passed check) are repaired by fix commits."),
 dict(id="F12", title="Tokens are sent to the project's parachain once, and confirmed only by it",
  statement="A user's migration over XCM is sent exactly if the check has passed, nothing of the user is unsettled and the migration was not sent before or failed. Then exactly the user's migrations go in one message to the receiver pallet of that parachain, and only that parachain answers, once: success confirms and lowers the counter of waiting users by one, an error lets the migration be sent again. Other answers, users and projects change nothing.",
  over=["inputs", "histories"], quant="every parachain id, check state, status, number of migrations, open participation and kind of answer", why=WHY + "double sending would pay twice; foreign or repeated answers are not sampled.",
  files=[FF + "7_ct_migration.rs", FF + "misc.rs"], state=[("UserMigrations, UnmigratedCounter, ActiveMigrationQueue", "migrations on their way", FL)], mech=[("do_send_pallet_migration_for, do_confirm_pallet_migrations", FF + "7_ct_migration.rs"), ("construct_migration_xcm_message, change_migration_status", FF + "misc.rs")], observe=["UserMigrations", "UnmigratedCounter", "ActiveMigrationQueue", "messages to other chains"],
  note=NOTE3 + "Messages and answers are data of a stand-in for XCM; what another chain does with a message is outside. An unanswered migration waits forever (the query's time is not watched)."),
]
NA = {}

"""Which harnesses decide which property."""


def H(name, **k):
    return dict(name=name, **k)


VB = ("one operation by account 1 from any consistent state: records idle, voting on one of two ongoing referenda, with a finished one, or "
      "delegating; two delegates in several states; base tallies, delegations, balances, freezes and amounts to 2^96, convictions None and 6x (more in deep)")
VA = ["the pre-state is consistent (tallies are sums of votes, freezes cover records), as the checked operations keep it",
      "sums of capital stay below 2^100, so that no saturation happens"]
PB = "0 to 2 queued proposals (or a full queue of 3), 1 to 3 deposits each by three accounts (= MaxDeposits), amounts to 2^90"
LB = "0 to 2 public proposals with 1 to 3 deposits, no or any external proposal, launch periods to 60 blocks, voting and enactment periods to 2^30, amounts to 2^90"
BB = "a window of %d referenda, each ongoing, finished or cancelled; ends and delays to 2^41, tallies to 2^100 (simple majority) or 2^20 (quorum thresholds)"
EB = ("five combinations of 0 to 2 members, runners-up and candidates with any deposits to 2^40, three of desired seats, two voters with one to "
      "three votes and stakes from four combinations")
SB = "0 to 2 members, 0 to 2 runners-up, up to 4 candidates, any deposits and balances to 2^41, every account's role"
EA = ["seats, candidates and deposits are consistent before the operation, as the checked operations keep them",
      "the outcome of the election itself is taken from sp-npos-elections (a dependency); stakes in elections are a few concrete values"]

LB2 = "0 to 3 schedules of any amount to 2^90, any start and now to 2^40, three rates (to 10^9), any free balance to 2^100; five ways to call"
MB = "two schedules of 1, 4, 50 or 1000 blocks at two rates to 2^60, five positions in time, any amounts at that length and rate, now from 2^20 to 2^40"
FB = "bonds to 2^64, %s markets (price pairs, asset decimals and fee percentages)"

PROPS = {
    "D03": dict(harnesses=[
        H("dem_arith::thr_quick", reach=["approved", "rejected"], bounds="turnout, electorate <= 35 (square roots to 5), ayes, nays <= 2^110: exact"),
        H("dem_arith::thr_deep", tier="thorough", reach=["approved", "rejected"], bounds="turnout, electorate <= 99 (square roots to 9), ayes, nays <= 2^110: exact"),
        H("dem_arith::thr_simple", reach=["simple"], bounds="all u128 amounts; no turnout, and simple majority"),
        H("dem_arith::thr_wide", reach=["wide"], bounds="amounts to 2^100 wherever the integer parts of the two ratios differ"),
    ], assumptions=["the electorate is at least 1", "ayes, nays at most 2^110"]),
    "D04": dict(harnesses=[
        H("dem_arith::conviction_power", reach=["done"], bounds="all capitals, all convictions"),
        H("dem_arith::vote_codec", reach=["valid", "invalid"], bounds="all 256 bytes"),
        H("dem_arith::tally_step", reach=["added", "overflow"], bounds="all u128 tallies and votes"),
        H("dem_arith::tally_delegation", reach=["done"], bounds="tallies and delegations to 2^120"),
        H("dem_arith::lock_rule", reach=["winning", "free"], bounds="all votes"),
        H("dem_arith::locked_cover", reach=["expired", "running"], bounds="two votes or one delegation, two earlier locks, all amounts, blocks to 2^40"),
    ]),
    "D01": dict(harnesses=[
        H("dem_vote::vote_quick", tier="only-quick", shards=8, depth=2, reach=["voted", "refused"], bounds=VB),
        H("dem_vote::vote_deep", tier="thorough", shards=24, depth=3, reach=["voted", "refused"], bounds=VB + "; three convictions and three states of the delegate"),
        H("dem_vote::vote_list", reach=["accepted", "refused"], bounds="0 to 3 (= MaxVotes) existing votes, every position of the new one, all amounts to 2^50"),
        H("dem_vote::remove_step", reach=["removed", "refused", "delegating"], bounds=VB),
        H("dem_vote::delegate_quick", tier="only-quick", shards=16, depth=3, reach=["delegated", "refused"], bounds=VB),
        H("dem_vote::delegate_deep", tier="thorough", shards=32, depth=3, reach=["delegated", "refused"], bounds=VB),
        H("dem_vote::undelegate_step", reach=["undelegated", "refused"], bounds=VB),
    ], assumptions=VA),
    "D02": dict(harnesses=[
        H("dem_vote::vote_quick", tier="only-quick", shards=8, depth=2, reach=["voted", "refused"], bounds=VB),
        H("dem_vote::vote_deep", tier="thorough", shards=24, depth=3, reach=["voted", "refused"], bounds=VB),
        H("dem_vote::remove_step", reach=["removed", "refused", "delegating"], bounds=VB),
        H("dem_vote::delegate_quick", tier="only-quick", shards=16, depth=3, reach=["delegated", "refused"], bounds=VB),
        H("dem_vote::delegate_deep", tier="thorough", shards=32, depth=3, reach=["delegated", "refused"], bounds=VB),
        H("dem_vote::undelegate_step", reach=["undelegated", "refused"], bounds=VB),
        H("dem_vote::unlock_step", reach=["unlocked"], bounds=VB + "; the unlock at any of 250 blocks"),
        H("dem_vote::lock_time", reach=["free again", "free after delegation", "locked by conviction", "locked by delegation", "not for others"], bounds="one vote or delegation of any kind, all seven convictions, all lock periods to 2^20, blocks to 2^40, amounts to 2^80"),
        H("dem_vote::redelegate_time", reach=["old lock", "only new"], bounds="all seven convictions, lock periods to 2^20, blocks to 2^40, amounts to 2^80"),
        H("dem_vote::frozen_funds", reach=["moved", "kept"], bounds="amounts to 2^96"),
    ], assumptions=VA),
    "D10": dict(harnesses=[
        H("dem_vote::vote_quick", tier="only-quick", shards=8, depth=2, reach=["voted", "refused"], bounds=VB),
        H("dem_vote::remove_step", reach=["removed", "refused", "delegating"], bounds=VB),
        H("dem_vote::delegate_quick", tier="only-quick", shards=16, depth=3, reach=["delegated", "refused"], bounds=VB),
        H("dem_vote::delegate_deep", tier="thorough", shards=32, depth=3, reach=["delegated", "refused"], bounds=VB),
        H("dem_vote::undelegate_step", reach=["undelegated", "refused"], bounds=VB),
    ], assumptions=VA),
    "D05": dict(harnesses=[
        H("dem_gov::propose", reach=["proposed", "refused"], bounds=PB),
        H("dem_gov::second", reach=["seconded", "refused"], bounds=PB),
        H("dem_gov::slash_proposal", reach=["slashed"], bounds=PB),
        H("dem_gov::slash_nothing", reach=["nothing"], bounds=PB),
        H("dem_gov::launch_deep", shards=16, depth=3, reach=["external", "public", "nothing launched"], bounds=LB),
    ], assumptions=["accounts can pay their deposits where these are on record (consistent pre-state)"]),
    "D06": dict(harnesses=[
        H("dem_gov::guards", reach=["permitted", "forbidden"], bounds="14 privileged calls, each from 12 origins"),
        H("dem_gov::metadata", reach=["done", "refused"], bounds="6 origins, 6 metadata owners, 4 external states, noted and unnoted preimages"),
        H("dem_gov::fast_track", reach=["tracked", "refused"], bounds="5 origins, all periods and delays to 2^40"),
        H("dem_gov::cancel", reach=["cancelled", "kept"], bounds="3 referendum states, 4 ways of cancelling"),
        H("dem_gov::slash_proposal", reach=["slashed"], bounds=PB),
    ], assumptions=["origins are signed accounts, root or none; the six privileged origins are single distinct accounts"]),
    "D07": dict(harnesses=[
        H("dem_gov::veto", reach=["vetoed", "refused"], bounds="all blocks and cool-off periods to 2^40, up to two vetoers, absent, temporary and permanent blacklisting before"),
        H("dem_gov::external", reach=["queued", "refused"], bounds="all blocks to 2^40, three kinds of external proposal"),
        H("dem_gov::cancel", reach=["cancelled", "kept"], bounds="3 referendum states, 4 ways of cancelling"),
        H("dem_gov::blacklist", reach=["blacklisted"], bounds="all blocks (later proposal at any u64 block below the maximum)"),
        H("dem_gov::slash_proposal", reach=["slashed"], bounds=PB),
        H("dem_gov::propose", reach=["proposed", "refused"], bounds=PB),
    ], assumptions=["proposal hashes do not collide (five distinct inline proposals)"]),
    "D08": dict(harnesses=[
        H("dem_gov::bake_deep", shards=24, depth=3, reach=["passed", "rejected", "still running"], bounds=BB % 3),
        H("dem_gov::cancel", reach=["cancelled", "kept"], bounds="3 referendum states, 4 ways of cancelling"),
        H("dem_gov::fast_track", reach=["tracked", "refused"], bounds="all periods and delays to 2^40"),
        H("dem_gov::launch_deep", shards=16, depth=3, reach=["external", "public", "nothing launched"], bounds=LB),
    ], assumptions=["every block's on_initialize runs, so running referenda end at the current block or later", "electorate 16 and turnout 0, 4 or 25 where the square root matters (the formula itself is D03)"]),
    "D09": dict(harnesses=[
        H("dem_gov::launch_deep", shards=16, depth=3, reach=["external", "public", "nothing launched"], bounds=LB),
        H("dem_gov::fast_track", reach=["tracked", "refused"], bounds="all periods and delays to 2^40"),
        H("dem_gov::external", reach=["queued", "refused"], bounds="all blocks to 2^40, three kinds of external proposal"),
    ], assumptions=["deposit sums stay below 2^93"]),
    "E01": dict(harnesses=[
        H("elec::election_two", shards=8, depth=3, reach=["elected", "nobody elected", "nobody stands"], bounds=EB),
        H("elec::election_deep", tier="thorough", shards=64, depth=4, reach=["elected", "nobody elected", "nobody stands"], bounds="27 combinations of seats, three voters with eight kinds of votes"),
        H("elec::when", reach=["election", "no election", "too many voters"], bounds="terms and blocks to 2^12, 3 to 5 voters (the limit is 4)"),
        H("elec::remove", shards=8, depth=3, reach=["refused", "slashed", "returned"], bounds=SB),
        H("elec::renounce", shards=8, depth=3, reach=["refused", "renounced"], bounds=SB),
    ], assumptions=EA),
    "E02": dict(harnesses=[
        H("elec::election_two", shards=8, depth=3, reach=["elected", "nobody elected", "nobody stands"], bounds=EB),
        H("elec::election_deep", tier="thorough", shards=64, depth=4, reach=["elected", "nobody elected", "nobody stands"], bounds="27 combinations of seats, three voters with eight kinds of votes"),
        H("elec::remove", shards=8, depth=3, reach=["refused", "slashed", "returned"], bounds=SB),
        H("elec::renounce", shards=8, depth=3, reach=["refused", "renounced"], bounds=SB),
        H("elec::submit", reach=["stands", "refused"], bounds=SB),
    ], assumptions=EA),
    "E03": dict(harnesses=[
        H("elec::vote", reach=["voted", "changed", "refused"], bounds="0 to 4 votes with 0 to 3 seats and candidates, all balances, stakes, existential deposits, lock periods and blocks to 2^40"),
    ], assumptions=EA),
    "E04": dict(harnesses=[
        H("elec::leave", reach=["left", "refused"], bounds="all balances, stakes, locks and blocks to 2^40"),
        H("elec::defunct", shards=8, depth=3, reach=["cleaned", "kept"], bounds="three voters with up to five kinds of votes, four combinations of roles, six of limits; all stakes to 2^40"),
    ], assumptions=EA),
    "E05": dict(harnesses=[
        H("elec::remove", shards=8, depth=3, reach=["refused", "slashed", "returned"], bounds=SB),
        H("elec::renounce", shards=8, depth=3, reach=["refused", "renounced"], bounds=SB),
    ], assumptions=EA),
    "E06": dict(harnesses=[
        H("elec::submit", reach=["stands", "refused"], bounds=SB + "; all bonds and funds to 2^43, all witnesses"),
        H("elec::submit_full", bounds="exactly MaxCandidates candidates, all witnesses"),
        H("elec::submit_over", reach=["over"], bounds="more than MaxCandidates candidates, all witnesses"),
        H("elec::renounce", shards=8, depth=3, reach=["refused", "renounced"], bounds=SB),
        H("elec::remove", shards=8, depth=3, reach=["refused", "slashed", "returned"], bounds=SB),
        H("elec::election_two", shards=8, depth=3, reach=["elected", "nobody elected", "nobody stands"], bounds=EB),
    ], assumptions=EA),
    **{p: dict(harnesses=[
        H("slash::one", reach=["all vested", "still vesting"], bounds="one schedule of 1 to 100000 blocks (five lengths), four rates to 2^90, seven positions in time, any amount at that length and rate; any block, balance to 2^110, any u128 slash"),
        H("slash::two", shards=8, depth=3, reach=["all vested", "still vesting"], bounds="two schedules of 1 or 4 blocks, two rates, six positions each"),
        H("slash::six", reach=["six"], bounds="six (= the maximum) schedules of fixed lengths, any amounts"),
    ] + ([
        H("slash::none", reach=["none"], bounds="no schedules, any balance and slash"),
        H("slash::tuple", reach=["told"], bounds="three handlers, any slash"),
    ] if p == "S02" else []), assumptions=["the account exists (holds at least the existential deposit)"]) for p in ("S01", "S02")},
    # ---- group fin: linear-release, proxy-bonding, polimec-common
    "L01": dict(group="fin", harnesses=[
        H("lr::curve", reach=["early", "linear", "curve"], bounds="all u128 amounts, all u64 blocks, seven rates from 0 to 2^128-1"),
        H("lr::ending", reach=["ends"], bounds="amounts to 2^100, four rates to 2^70, starts to 2^40"),
    ]),
    "L02": dict(group="fin", harnesses=[
        H("lr::vest", reach=["vested", "completed", "refused"], bounds=LB2),
        H("lr::vest_all", reach=["all"], bounds="one or two schedules under each of three reasons, all amounts to 2^90, starts and now to 2^40"),
        H("lr::vest_extra", bounds="one schedule, and money held under the same reason without one"),
    ], assumptions=["the balance on hold is at least what the schedules still lock and at most what they started with"]),
    "L03": dict(group="fin", harnesses=[
        H("lr::merge", shards=8, depth=3, reach=["merged", "ended"], bounds=MB),
        H("lr::merge_call", shards=16, depth=4, reach=["merged", "same", "out of bounds"], bounds=MB + "; two durations by one, with or without a third schedule between them"),
    ], assumptions=["the balance on hold is at least what the schedules still lock and at most what they started with"]),
    "L04": dict(group="fin", harnesses=[
        H("lr::transfer", reach=["transferred", "refused"], bounds="all amounts and balances to 2^110, minima to 2^90, any start, three rates, with or without an earlier schedule"),
        H("lr::transfer_full", reach=["full"], bounds="three (= MAX_VESTING_SCHEDULES) running or finished schedules"),
        H("lr::add", reach=["added", "empty", "invalid"], bounds="0 to 2 earlier schedules, all amounts to 2^90, any starts"),
        H("lr::remove", reach=["removed", "all removed"], bounds="0 to 3 schedules, all amounts to 2^90, any starts, every index"),
    ]),
    "B01": dict(group="fin", harnesses=[
        H("pb::fee", reach=["fee"], bounds=FB % "six"),
        H("pb::bond", shards=8, depth=3, reach=["bonded", "refused"], bounds=FB % "one" + "; all balances to 2^100, existential deposits to 2^40"),
    ]),
    "B02": dict(group="fin", harnesses=[
        H("pb::release", reach=["released", "kept"], bounds="all holds and balances to 2^90, release blocks and now to 2^40, three paths"),
        H("pb::fees", reach=["paid", "kept"], bounds="all fees and balances to 2^100, three paths"),
        H("pb::refund", shards=4, depth=2, reach=["refunded", "refused"], bounds=FB % "two" + "; all balances to 2^100"),
    ]),
    "C01": dict(group="fin", harnesses=[
        H("common::price", reach=["converted"], bounds="all prices to 2^100/10^18 dollars, token decimals 0, 2, 6, 8, 10, 12, 18"),
        H("common::price_none", reach=["none", "wide"], bounds="all prices, all decimals to 255"),
    ]),
    "C02": dict(group="fin", harnesses=[
        H("common::investor", reach=["accepted", "refused"], bounds="all signers and subjects (128 bits), expiries and times (64 bits), two keys, three types, three origins"),
    ], assumptions=["the signature scheme (jwt-compact, absent here) accepts exactly the tokens signed with the verifying key"]),
    "C03": dict(group="fin", harnesses=[
        H("common::migrations", reach=["summed"], bounds="0 to 3 migrations, amounts to 2^120, all times"),
    ]),
    "F01": dict(group="fund", harnesses=[
        H("app::valid", bounds="all supplies, allocations, tickets and caps, percentages and currencies as cases"),
        H("app::valid_price", bounds="prices around the limits, all allocations"),
        H("app::create", bounds="all allocations and balances, credentials as cases"),
        H("app::edit", reach=["edited", "removed", "refused"], bounds="edit or removal by three identities in every stage"),
        H("app::start", bounds="all times, callers as cases, every stage"),
    ]),
    "F02": dict(group="fund", harnesses=[
        H("ev::evaluate", bounds="three markets, all amounts, balances, totals and times"),
        H("ev::end", reach=["auction", "failed", "refused"], bounds="all totals, times, two targets"),
    ]),
    "F03": dict(group="fund", harnesses=[
        H("auc::bid", reach=["bid", "refused"], bounds="a bid in one bucket: amounts to 2^64, balances to 2^80, seven modes, three currencies, all times to 40 blocks"),
        H("auc::split", reach=["split", "refused"], bounds="a bid over two to four buckets: amounts to 2^54, two markets"),
        H("auc::reuse", reach=["bonded", "refused"], bounds="two evaluations, all bonds to 2^60"),
    ]),
    "F04": dict(group="fund", harnesses=[
        H("auc::decide", reach=["decided", "refused"], bounds="three bids of two bidders on two or three prices, all amounts to 2^60, allocations to 2^62"),
        H("auc::wap", reach=["first", "average"], bounds="none to three full buckets, the last filled by any thousandth"),
        H("auc::wap_over", reach=["average"], bounds="eleven or twelve full buckets, the last filled by any thousandth"),
    ]),
    "F05": dict(group="fund", harnesses=[
        H("con::contribute", reach=["contributed", "refused"], bounds="one contribution: amounts to 2^64, balances to 2^80, eight modes, three currencies, two prices, all times to 60 blocks"),
    ]),
    "F06": dict(group="fund", harnesses=[
        H("fin::end", reach=["ended", "refused"], bounds="two targets, raised amounts around a third of them, all amounts sold to 2^62, every status, all times to 60 blocks"),
        H("fin::fees", reach=["fees"], bounds="fifteen raised amounts, around and within every bracket, all amounts sold to 2^64"),
    ]),
    "F07": dict(group="fund", harnesses=[
        H("set::start", reach=["success", "failure", "refused"], bounds="two raised amounts, all amounts sold to 2^62, every status"),
        H("set::bid", reach=["settled", "refused"], bounds="all amounts, bonds and money to 2^60, four modes and two currencies, two prices, three decisions, settled at four times"),
        H("set::contribution", reach=["settled", "refused"], bounds="all amounts, bonds and money to 2^60, four modes and two currencies, settled up to 2^30 blocks late"),
        H("set::mark", reach=["finished", "refused"], bounds="every status, one open participation of any kind"),
    ]),
    "F08": dict(group="fund", harnesses=[
        H("set::evaluation", reach=["settled", "refused"], bounds="all bonds and pots to 2^60, three outcomes"),
        H("fin::reward", reach=["reward"], bounds="pots to 2^60, three totals, twenty shares"),
    ]),
    "F09": dict(group="fund", harnesses=[
        H("life::confirm", reach=["confirmed", "refused"], bounds="every status, counters to 2^20, every caller, two participants with up to three migrations"),
    ]),
    "F10": dict(group="fund", harnesses=[
        H("life::step", reach=["step", "refused"], bounds="nine calls in each of twelve stages, all times to 60 blocks"),
    ]),
    "F11": dict(group="fund", harnesses=[
        H("mig::open", reach=["accepted", "refused"], bounds="all parachain ids, sizes and capacities, three stages, three kinds of migration"),
        H("mig::accepted", reach=["checking", "refused"], bounds="all parachain ids, nine channel states, ten check states, all minted amounts to 2^60"),
        H("mig::recheck", reach=["checking", "refused"], bounds="nine channel states, ten check states, three stages, two callers of three kinds"),
        H("mig::answer", reach=["answered", "refused"], bounds="all parachain and query ids, amounts to 2^80, pallet indices to 2^10, nine kinds of answers from four kinds of places"),
    ]),
    "F12": dict(group="fund", harnesses=[
        H("mig::send", reach=["sent", "refused"], bounds="all parachain ids, ten check states, four migration states, one or two migrations, amounts to 2^60"),
        H("mig::done", reach=["confirmed", "failed", "refused"], bounds="all parachain ids, three query ids, five kinds of answers from four kinds of places"),
    ]),
}

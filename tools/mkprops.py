#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json, os

C = "controller/src/"
L = "liquidity_layer/src/"
A = "price_aggregator/src/"
LIQ, STRAT, ORA = C + "positions/liquidation.rs", C + "strategy.rs", C + "oracle/mod.rs"
RATES = "common/rates/src/rates.rs"
POOL, PU, PC = L + "liquidity.rs", L + "utils.rs", L + "cache/mod.rs"
SUP, WD, BOR, REP, UPD, ACC, EM = [C + "positions/" + x + ".rs" for x in
                                   ["supply", "withdraw", "borrow", "repay", "update", "account", "emode"]]
CFG, ROUT, VAL, UT, HELP, VIEWS, CACHE, CL = [C + x for x in
      ["config.rs", "router.rs", "validation.rs", "utils.rs", "helpers/mod.rs", "views.rs", "cache/mod.rs", "lib.rs"]]
STO = C + "storage/mod.rs"
H, I, S, F, CF, P = "histories", "inputs", "schedules", "fault_sequences", "configurations", "programs"
T_NONE = ("The tests that run here reach only arithmetic helpers and flag structs; the scenario tests fix one hand-written "
          "history with chosen amounts, so they cannot speak for ")

def m(name, where):
    return {"name": name, "where": where}

# id, title, statement, over, quantifier text, why, files, state, mechanism, observe
R = []
def p(id, title, st, over, qt, why, files, mech, obs, state=()):
    R.append(dict(id=id, title=title, statement=st, over=over, qt=qt, why=T_NONE + why, files=files, mech=mech, obs=obs, state=state))

p("P01", "Every market stays solvent: no operation creates or loses value",
  "For every market, cash held plus debts owed minus deposits owed (the treasury's share included) is unchanged by every accepted operation up to rounding of the smallest units. Interest, fees, rewards and socialised losses only move value between these three.",
  [H, I, S, F], "every accepted transaction in every history of users, liquidators, flash borrowers, strategies and administrators, with any time between blocks",
  "arbitrary interleavings and rounding at any index and decimals.",
  [POOL, PU, RATES, "common/math/src/math.rs"],
  [m("supply/borrow/withdraw/repay bookkeeping", POOL), m("interest accrual and revenue split", PU), m("scaled amount conversions", PC)],
  ["token balance of each market contract", "market totals and indexes"],
  [("scaled deposits, scaled debts, treasury share, indexes", L + "storage/mod.rs")])
p("P02", "Market totals equal the sum of all positions",
  "In every market the recorded total deposits equal the sum of all accounts' deposits plus the treasury's share, and the recorded total debt equals the sum of all accounts' debts. A position recorded for an account therefore exists in its market, and nothing is recorded twice.",
  [H, S, F], "every state reached by any history of operations, including refused and aborted ones, liquidations, write-offs and multi-step strategies",
  "two ledgers (controller and market) staying in step over whole histories.",
  [POOL, UPD, UT, STO],
  [m("position and total are written in two contracts", POOL), m("positions stored per account", UPD)],
  ["market totals", "account positions"], [("positions per account", STO), ("market totals", L + "storage/mod.rs")])
p("P03", "Debt grows exactly by the published interest rate curve",
  "Between two accruals of a market, its debt grows by the continuously compounded rate that the market's three-slope curve gives at the utilisation of the earlier one, for exactly the time that passed. Any operation on the market brings it up to date first, and neither debt nor deposit value ever falls by accrual.",
  [H, I, CF], "all rate curves an administrator can set, all utilisations, all time gaps from milliseconds to more than a year, any interleaving of operations",
  "the full range of curves, utilisations and time gaps against an independent high-precision reference.",
  [RATES, PU, PC, POOL], [m("piecewise rate and compounding", RATES), m("global sync before every operation", PU)],
  ["market indexes", "pool views of rates"], [("borrow index, supply index, last timestamp", L + "storage/mod.rs")])
p("P04", "Interest is split between depositors and treasury by the reserve factor",
  "The interest debtors owe in an accrual is credited in full: the reserve-factor share to the treasury's claim and the rest to depositors in proportion to their deposits. Nothing of it is lost or credited twice.",
  [H, I, CF], "all reserve factors, market sizes, decimals, time gaps and interleavings",
  "exactness of the split over long histories and dust-sized or huge markets.",
  [RATES, PU], [m("supplier rewards and protocol fee", RATES), m("internal revenue accounting", PU)],
  ["market indexes and treasury claim"], [("treasury share", L + "storage/mod.rs")])
p("P05", "Doing and undoing within a block is never profitable",
  "Supplying and withdrawing, or supplying, borrowing, repaying and withdrawing in the same block never leaves the user with more than before and costs at most rounding. Splitting an operation into parts, or forcing an accrual before it, changes nothing beyond rounding.",
  [H, I, S], "any amounts, any market state reachable by a history (indexes, totals, decimals) and any splitting",
  "rounding-attack searches over reachable market states.",
  [POOL, PC, PU, SUP, WD, BOR, REP], [m("rounding of scaled amounts", PC), m("accrual idempotence", PU)],
  ["user balances", "positions"])
p("P06", "Views report the true current state",
  "Health factor, collateral, debt, liquidatability, position amounts, market indexes, rates, prices and liquidation estimates returned by the read-only endpoints equal the values an independent computation derives from the ledger at that moment, and what a liquidation estimate promises is what the liquidation then delivers.",
  [H, I], "every reachable state at every time since the last accrual",
  "agreement between simulated-forward views and actual execution at arbitrary times.",
  [VIEWS, HELP, L + "view.rs"], [m("account and market views", VIEWS), m("pool views", L + "view.rs")],
  ["all read-only endpoints"])
p("P07", "Deposits and withdrawals move exactly what they record",
  "A deposit credits the account with exactly the tokens paid in, and a withdrawal pays exactly the requested amount or the whole remaining claim if that is less, debiting the same amount. The market's cash moves by the same amount and no debt changes. Ordinary deposits and withdrawals are served.",
  [H, I, S], "all amounts (dust, everything, more than everything), repeated tokens, all markets and indexes",
  "arbitrary amounts and repeated entries at arbitrary indexes.",
  [SUP, WD, POOL, UT], [m("supply processing", SUP), m("withdraw processing", WD), m("market cash movement", POOL)],
  ["user balance, market balance, position"], [("deposit positions", STO)])
p("P08", "Loans and repayments move exactly what they record",
  "A loan pays out exactly the amount by which the debt grows, and a repayment reduces the debt by exactly what is kept; anything paid beyond the debt returns to the payer in the same transaction. A fully repaid debt disappears and no deposit changes. Ordinary loans and repayments are served.",
  [H, I, S], "all amounts (dust, exact, overpaid), repeated tokens, payers other than the owner, all indexes",
  "arbitrary amounts and repeated entries at arbitrary indexes.",
  [BOR, REP, POOL], [m("borrow processing", BOR), m("repay and refund", REP), m("market repay", POOL)],
  ["user balance, market balance, position"], [("borrow positions", STO)])
p("P09", "No loan is granted beyond the account's borrowing power",
  "After every accepted loan the account's total debt value is at most its collateral value weighted by the loan-to-value ratios its deposits carry (never above their liquidation thresholds), at current prices and with interest accrued. A loan within this limit is not refused for lack of collateral.",
  [H, I, CF, S], "every account composition, batch of loans, price and time",
  "batches of several loans, mixed decimals, price moves between blocks and e-mode terms.",
  [BOR, VAL, HELP], [m("collateral validation", BOR), m("loan-to-value sum", HELP)],
  ["account risk figures before and after a loan"])
p("P10", "Owners can never leave their own account liquidatable",
  "After any accepted withdrawal, loan, leverage, debt swap, collateral swap or repayment with collateral, an account that still owes anything has a health factor of at least one at current prices. A withdrawal that keeps the account safe is not refused for health.",
  [H, I, P, F], "every account, amount and price, and every behaviour of the external swap router",
  "router misbehaviour, price moves and multi-step strategies.",
  [WD, STRAT, VAL], [m("health validation at the end", VAL), m("strategies", STRAT)], ["health after the operation"])
p("P11", "Only unhealthy accounts are liquidated, on the documented terms",
  "A liquidation succeeds only when the account's health factor is below one. The collateral taken is worth what was actually repaid plus the dynamic bonus of the documented formula (never above 15%, whatever bonus is configured), and every deposited asset contributes in proportion to its value.",
  [H, I, CF, S], "every unhealthy account composition, every list of payments (repeated, excessive, dust, worthless), every health level and bonus setting",
  "payment lists with repetitions or dust and all health bands.",
  [LIQ, HELP], [m("repayment capping", LIQ), m("bonus and repayment targets", HELP)],
  ["value repaid and seized per liquidation"], [("collateral terms stored in positions", STO)])
p("P12", "Liquidation settles exactly between liquidator, market and treasury",
  "In each liquidation, debts fall by what the liquidator is charged after refunds, the liquidator receives the seized collateral less the treasury's share, which is the configured share of the bonus part only. No one is charged more than offered, and the cash of each market moves accordingly.",
  [H, I, S], "every liquidation of any payment list and account composition",
  "multi-asset settlements with refunds and fees.",
  [LIQ, WD, REP, POOL], [m("refund and settlement", LIQ), m("liquidation fee to revenue", POOL)],
  ["liquidator and market balances, treasury claim"])
p("P13", "Liquidation repairs solvent accounts and never takes more than needed",
  "A liquidation repays no more debt than needed to reach the target health, and one of that size returns a solvent account to a health of at least one; no liquidation lowers the health of an account whose collateral exceeds its debt plus the bonus. Any unhealthy account with priceable assets can be liquidated.",
  [H, I, S], "every unhealthy account and payment, and every state at which a liquidator may try",
  "all health bands, and liveness of liquidation from reachable states.",
  [LIQ, HELP], [m("maximum repayment estimation", HELP), m("seizure", LIQ)], ["health before and after"])
p("P14", "Bad debt is written off completely, and only when it is bad debt",
  "A write-off is possible exactly when an account owes more than its collateral is worth and that collateral is worth at most five dollars; the account then disappears. Its remaining collateral goes to the treasury and each unpaid debt is charged to that market's depositors in proportion, at most down to the floor, without touching other markets or any cash, and the market stays usable.",
  [H, I, S], "every account near the threshold, every market state, callers at any time",
  "threshold neighbourhoods and markets with interest, dust or treasury shares.",
  [LIQ, POOL, PU, CL], [m("clean-up", LIQ), m("seizure of positions and loss socialisation", POOL)],
  ["market indexes and treasury claim", "existence of the account"], [("supply index", L + "storage/mod.rs")])
p("P15", "Risk terms of existing positions change only by the rules",
  "A deposit carries the risk terms in force when it was last touched; administrators changing a market's settings never alter existing positions. A later explicit terms update applies current settings, and one that touches liquidation thresholds is refused when it would leave the account below a health of 1.05 with debt.",
  [H, CF, S], "every order of configuration changes, deposits, e-mode changes, price moves and terms updates",
  "histories mixing governance changes with positions opened earlier.",
  [UPD, SUP, EM, CFG], [m("account threshold update", SUP), m("terms at deposit", SUP)], ["terms stored in positions"], [("terms in positions", STO)])
p("P16", "Flash loans return principal and fee or never happened",
  "A flash loan completes only if it is enabled, within the market's cash, and the market ends the transaction with at least the principal plus the configured fee, the fee going to the treasury; otherwise nothing at all changes. Honest borrowers are served.",
  [I, P, F, H], "every borrower behaviour, amount, fee and market state", "arbitrary callback programs in the borrower.",
  [POOL, CL, VAL], [m("flash loan checks", POOL), m("entry point", CL)], ["market cash, treasury claim"])
p("P17", "Nothing of the protocol runs inside an open flash loan",
  "While a flash loan is open, every state-changing user operation of the protocol called from the borrower's code is refused. The guard is never left set after any transaction, whatever its outcome.",
  [P, F, H], "every operation re-entered from within the borrower's callback with otherwise valid arguments, in every market state",
  "calls from inside callbacks for each entry point.",
  [VAL, CL, STRAT, CACHE], [m("re-entrancy guard", VAL)], ["outcome of the inner call", "guard storage"], [("flash loan flag", STO)])
p("P18", "Supply and borrow caps hold and refuse nothing below them",
  "No deposit, loan, leverage or swap leaves a market's total deposits or total debts above its configured cap, interest included. An operation that stays within the cap is not refused because of it.",
  [H, I, CF], "every cap, batch and market state including accrued interest", "boundary amounts and accrued interest.",
  [SUP, BOR, VAL], [m("supply cap check", SUP), m("borrow cap check", BOR)], ["market totals"])
p("P19", "Accounts never exceed the position limits",
  "No operation that opens a position leaves an account with more deposit or borrow positions than the configured limit for that kind. Operations within the limit are not refused because of it.",
  [H, CF, I], "every limit, batch with repeated tokens and strategy", "batches with repeated tokens and limit changes.",
  [VAL, CFG], [m("bulk position limits", VAL)], ["positions per account"])
p("P20", "Isolated collateral stays isolated and under its debt ceiling",
  "An isolated asset is only ever the sole collateral of its account, such an account borrows only assets allowed in isolation, and loans never push the asset's debt tracker above its ceiling; a loan that keeps within it is not refused for it. The tracker rises by the dollar value of every such loan and falls by that of every repayment or write-off, never below zero.",
  [H, CF, I, S], "every history of isolated accounts, price moves, repayments, liquidations, write-offs and strategies",
  "tracker consistency over histories and price moves.",
  [BOR, REP, SUP, UT, LIQ], [m("debt ceiling", BOR), m("tracker adjustment", UT), m("isolation at deposit", SUP)],
  ["isolated debt per asset", "accounts' collateral"], [("isolated debt tracker", STO)])
p("P21", "Siloed debts are never mixed with other debts",
  "An account owing a siloed asset owes nothing else, and takes no other debt while it does; accounts with other debt cannot take a siloed one, and siloed debts cannot be swapped. Borrowing that keeps to this is not refused for it.",
  [H, CF, I], "every batch, strategy and configuration change", "batches that mix siloed and ordinary tokens.",
  [BOR, STRAT], [m("siloed validation", BOR), m("debt swap restriction", STRAT)], ["debts of an account"])
p("P22", "Efficiency mode only ever helps accounts that belong in it",
  "An account in an efficiency category deposits and borrows only assets enabled in that category and gets the category's risk terms; isolated assets cannot use one, and removed categories take no new positions. An account outside gets the market's own terms.",
  [H, CF, I], "every order of category edits, removals, deposits and loans", "category edits between operations.",
  [EM, SUP, BOR, CFG], [m("e-mode validation", EM)], ["terms and assets of accounts"], [("e-mode categories", STO)])
p("P23", "The account NFT alone controls an account, through its whole life",
  "Only the holder of an account's NFT can withdraw, borrow or restructure it, whoever opened it; look-alike tokens and NFTs of dissolved accounts are refused. Each open account has exactly one NFT, a new account goes to the caller, and an account emptied by its owner is closed and its NFT burned.",
  [H, S, I, F], "every interleaving of transfers, openings, closings, liquidations, write-offs and forged payments", "transfers between users interleaved with all operations.",
  [ACC, VAL, UT], [m("account creation and NFT handling", ACC), m("payment validation", VAL)], ["NFT holders", "open accounts"], [("account list and attributes", STO)])
p("P24", "Value is never moved at a price the oracle rules forbid",
  "Borrowing, withdrawing with debt, liquidating and every other risk-taking operation is refused when any asset it depends on has a stale feed, an inactive pair, or sources further apart than the outer tolerance; such a refusal never happens when all prices are sound. Repaying and depositing keep working when only the tolerance is violated.",
  [F, H, CF, S], "every feed age, divergence, outage and oracle configuration at every operation", "fault timing relative to each operation.",
  [ORA, VAL, CACHE], [m("safe price selection", ORA), m("unsafe price switch per operation", CACHE)], ["acceptance of operations under feed faults"], [("oracle settings", STO)])
p("P25", "Asset prices are composed exactly as configured",
  "For each asset, the price used is the reference value of its configured sources: the aggregated feed, the 15-minute time-weighted DEX quote, their average between the tolerances, the redemption rate of a staked token or the fair reserve value of an LP share. It never comes from a source the configuration excludes.",
  [I, CF, F, H], "every source value, exchange rate, reserve, tolerance and configuration", "combinations of sources and boundary divergences.",
  [ORA, VIEWS], [m("price composition", ORA)], ["price views"], [("oracle settings", STO)])
p("P26", "A published feed is the median of a quorum of authorised nodes",
  "A feed value is published only when a quorum of distinct registered nodes has voted within one round, and it is the median of exactly those votes, with strictly increasing round numbers. Unregistered, early, late, future or repeated votes never count, and paused feeds can be neither written nor read.",
  [S, F, H, I], "every schedule of votes, duplicates, delays, clock jumps, node changes, quorum changes and pauses", "vote schedules across nodes.",
  [A + "lib.rs", A + "utils.rs", A + "median.rs", A + "admin.rs"], [m("submission rounds", A + "utils.rs"), m("median", A + "median.rs")],
  ["published rounds and views"], [("open round and last submissions", A + "storage.rs")])
p("P27", "The feed recovers: a quorum of live nodes always gets a price through",
  "From any state the aggregator can reach, once it is unpaused and a quorum of registered nodes submits within one window, the feed is refreshed with their median. No history of half-open rounds, removed nodes or lowered quorums can block it for longer than one window.",
  [S, F, H], "every state reached by faulty vote schedules and administration", "liveness after arbitrary fault sequences.",
  [A + "lib.rs", A + "utils.rs", A + "admin.rs"], [m("round discard after the window", A + "utils.rs")], ["feed after healing"], [("open round", A + "storage.rs")])
p("P28", "Pausing stops every user operation and changes nothing else",
  "While the protocol is paused no user operation executes, and pausing and resuming changes no balances, positions or terms: the operation that would have run before the pause gives the same result after it. Only the owner can throw the switch, and upgrades leave the protocol paused as documented without losing state. The price aggregator's own switch works the same way: while it is paused no vote counts and no price is served.",
  [H, S, F, P], "every operation at every state, with pauses, resumes and upgrades at any point", "each operation under pause and after upgrade.",
  [CL, STRAT, ROUT, CFG], [m("pause checks", CL)], ["acceptance while paused"])
p("P29", "The treasury receives exactly its fees, and only by claiming",
  "Interest share, flash-loan fees, strategy fees and liquidation fees accrue to the treasury's claim in full; a claim pays exactly the claim or the available cash if less, to the configured recipient. The claim never shrinks except by claims and socialised losses.",
  [H, I, S], "every history of fees and claims, also with too little cash", "claims under low cash interleaved with fees.",
  [POOL, PU, ROUT], [m("claim of revenue", POOL), m("fee accounting", PU)], ["treasury balance and claim"], [("treasury share", L + "storage/mod.rs")])
p("P30", "External rewards reach all depositors pro rata",
  "Rewards added to a market with deposits raise every deposit by the same factor and in total by exactly the reward. They change no debt, mint no claims and stay in the market's cash.",
  [H, I], "every reward size and market state, including tiny and huge markets", "extreme ratios of reward to deposits.",
  [POOL, ROUT, RATES], [m("reward distribution", POOL)], ["market index, positions"], [("supply index", L + "storage/mod.rs")])
p("P31", "Privileged endpoints obey only their owner",
  "Configuration, market creation and upgrade, oracle, quorum, node and pause endpoints, and every state-changing endpoint of a market contract, are refused for every other caller and leave no trace. No user-supplied argument or account can bypass this.",
  [H, I, P, S], "every such endpoint, caller and state", "every endpoint crossed with every kind of caller.",
  [CFG, ROUT, POOL, A + "admin.rs", CL], [m("owner checks", CFG), m("market contract owner checks", POOL)], ["acceptance by caller", "storage after refusal"])
p("P32", "Strategies keep custody: all value ends with the user or the market",
  "After any operation the controller holds no tokens. A strategy's loan, swap proceeds and change all end as the account's collateral, as repaid debt or back with the user; it takes no more collateral than asked and touches no other position of the account. Honest strategies that break no rule go through.",
  [P, F, I, H], "every router behaviour: little, nothing, change, wrong, extra or several tokens, reverts", "router faults during strategies.",
  [STRAT, POOL], [m("swap and change handling", STRAT), m("strategy loan", POOL)], ["controller balance", "positions and user balances"])
p("P33", "Everyone can leave: debts can be repaid and deposits withdrawn",
  "From every reachable state, once prices are available again and the protocol is unpaused, every debt can be repaid, in part or in full, and then every depositor can withdraw and the treasury claim everything owed up to rounding. No history locks a position or strands the last depositor.",
  [H, F, S, CF], "every end state of every simulated history including faults, write-offs and configuration changes", "liveness from arbitrary reachable states.",
  [WD, REP, POOL, UT], [m("repay and withdraw", POOL), m("account closing", UT)], ["a complete wind-down of the system"])
p("P34", "Configuration is stored as requested and only if consistent",
  "An accepted configuration change is exactly what later reads and operations see, for that object alone; a replaced router, feed, template or fee recipient is the one used from then on. Inconsistent settings (a market threshold not above its loan-to-value, malformed rate curves, out-of-range tolerances, fees or limits, unknown markets or categories) are refused, and consistent ones are accepted.",
  [I, CF, H], "every parameter combination in range and out of range, in every order", "boundary values and combinations of many parameters.",
  [CFG, ROUT, VAL, L + "utils.rs", ORA], [m("asset, oracle and rate validation", CFG)], ["configuration views", "refusals"], [("settings", STO)])
p("P35", "An operation on one account never affects bystanders",
  "An operation changes only the account it acts on and the balances of its parties: every other account keeps its positions and terms and every other user keeps their tokens. Others are affected only through the shared market index.",
  [H, S, I], "every operation in every state with many accounts and users", "all pairs of operation and bystander.",
  [UT, UPD, SUP, LIQ], [m("position storage keyed by account", STO)], ["all accounts and users around each transaction"], [("positions per account", STO)])
p("P36", "Emitted events reconstruct the ledger exactly",
  "An observer who only applies the emitted events in order holds, after every transaction, the same market totals, indexes and cash, account positions with their terms, isolated-debt trackers, settings and published rounds as the contracts. Every change is announced with the amount moved, the account's attributes and the price; failed operations announce nothing.",
  [H, S, CF], "every accepted operation in every history, nested calls, write-offs and configuration changes included", "the fold of all events over arbitrary histories against the state.",
  ["common/events/src/events.rs", UPD, LIQ, POOL, CFG], [m("market and position announcements", POOL), m("position announcements", UPD)],
  ["transaction logs", "views of the same state"])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_props.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more_props.py")) else None

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + "/properties.jsonl", "w") as f:
    for r in R:
        for x in r["files"]:
            assert os.path.exists("/repo/" + x), x
        assert len(r["title"]) <= 80, r["title"]
        a = {"files": r["files"], "mechanism": r["mech"], "observe_at": r["obs"], "hook_needed": None}
        if r["state"]:
            a["state"] = [{"name": n, "meaning": n, "where": w} for n, w in r["state"]]
        f.write(json.dumps({"id": r["id"], "title": r["title"], "statement": r["statement"],
                            "quantifier": {"over": r["over"], "text": r["qt"]},
                            "why_tests_cant": r["why"], "anchors": a}) + "\n")
NOTE = {
 "P26": "the aggregator contract alone with its nodes", "P27": "the aggregator contract alone with its nodes",
}
checks = []
for r in R:
    checks.append({"property": r["id"], "quick_cmd": "./check.sh %s quick" % r["id"], "thorough_cmd": "./check.sh %s thorough" % r["id"],
                   "evidence_file": "evidence/%s.json" % r["id"],
                   "technique": "deterministic simulation with fault injection (seeded schedules, reference-model oracle, replayable minimised traces)",
                   "level": "exploration",
                   "level_note": "seeded search over whole-system runs of the real contracts in one process (%s); passes mean no violation among the runs counted in the evidence file" %
                                 NOTE.get(r["id"], "controller, markets and price aggregator, with simulated DEX, router, staking and flash-borrower peers")})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the simulator drives the contracts through the VM's own seams", "source_commits": []},
           "checks": checks, "not_applicable": [],
           "notes": "Every check rebuilds sim/ (a path dependency on /repo) before it runs. Replay a violation with: target/release/lendsim replay FILE"},
          open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")

"""The property list: single source of properties.jsonl and of the checks in MANIFEST.json."""
P = []


def p(id, title, statement, over, text, why, files, mech, note, observe=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, observe=observe or [], technique=technique))


E, BK, PL, PF = "emitter/src/", "backstop/src/", "pool/src/", "pool-factory/src/"

p("C01", "BLND is emitted at one per second, to the listed backstop, each second once",
  "Each distribution mints to the backstop the emitter currently lists exactly one BLND per second elapsed since that "
  "backstop was last distributed to, and moves that backstop's clock to the current time in the same call, so no second is "
  "paid twice or skipped. BLND is minted nowhere else except by the final payout of a backstop being swapped out (same "
  "formula) and by the one-time drop, and no other operation moves a distribution clock.",
  ["inputs", "histories"], "all ledger times, all sequences of emitter calls",
  "Tests sample a few elapsed times and one swap; the claim is over every elapsed time and every call order.",
  [E + "emitter.rs", E + "contract.rs", E + "storage.rs"],
  [("distribution formula and clock", E + "emitter.rs execute_distribute"), ("swap payout", E + "backstop_manager.rs execute_swap_backstop")],
  "Exact for every input: the amount minted, its recipient, the stored clock, and the set of entry points that can mint or move a clock.",
  ["mint calls on the BLND token", "get_last_distro"])

p("C02", "Emitter backstop swap: majority, 31-day delay, re-check, pay-out before replace",
  "A swap can be queued only while none is queued and only if the proposed backstop holds strictly more of the current backstop "
  "token than the listed backstop; it can be executed only once 31 days have passed since queueing and the majority still holds, "
  "and cancelled only when the majority no longer holds. Execution pays the outgoing backstop its outstanding emissions, lists exactly "
  "the queued backstop and backstop token, starts the new backstop's clock at the current time and clears the queue; nothing else "
  "changes the listed backstop.",
  ["inputs", "histories"], "all balances, times and queue/cancel/swap sequences",
  "Tests try one delay boundary and one balance ordering.",
  [E + "backstop_manager.rs", E + "storage.rs"],
  [("queue / cancel / swap rules", E + "backstop_manager.rs")],
  "Exact commit conditions and final storage of the three swap operations; balances are what the external token reports.",
  ["get_queued_swap", "get_backstop", "swap events"])

p("C03", "The emitter's BLND drop is once per backstop, capped at 50M and backstop-only",
  "Only the backstop currently listed by the emitter can trigger the drop, it succeeds at most once for any backstop address, and it mints to "
  "each listed address exactly its listed amount, the amounts summing to at most 50 million BLND. The backstop contract asks the emitter for exactly "
  "the drop list it was initialised with.",
  ["inputs", "histories"], "all drop lists and call histories",
  "Tests use a handful of lists; the sum bound and the at-most-once rule hold over all lists and histories.",
  [E + "emitter.rs", E + "storage.rs", BK + "contract.rs"],
  [("drop rules", E + "emitter.rs execute_drop"), ("flag", E + "storage.rs set_drop_status"), ("caller", BK + "contract.rs drop")],
  "Exact: authorisation, at-most-once flag, per-entry mint, summed cap.", ["mint calls on the BLND token"])

p("C04", "Backstop deposits mint shares at the pool's rate, rounded down",
  "A backstop deposit needs the depositor's authorisation and a non-negative amount, moves exactly that many backstop tokens from the depositor to the backstop, adds them to the "
  "pool's token balance and mints the same number of shares to the pool and to the depositor: the amount itself when the pool has no shares, otherwise "
  "floor(amount * shares / tokens). A deposit that would mint no shares fails, as does one into a pool whose shares have no tokens behind them, the depositor can be neither the pool nor the backstop, and the first deposit for an address "
  "requires that the pool factory deployed it. The queue and every other balance are untouched.",
  ["inputs", "histories"], "all amounts, balances and share prices",
  "Tests use a few share prices; rounding direction and the absence of other effects are claims over all of them.",
  [BK + "backstop/deposit.rs", BK + "backstop/pool.rs", BK + "backstop/user.rs", BK + "contract.rs"],
  [("deposit", BK + "backstop/deposit.rs execute_deposit"), ("share conversion", BK + "backstop/pool.rs convert_to_shares")],
  "Exact final storage, token call, return value and event of deposit for every input in states with non-negative balances.",
  ["user_balance", "pool_data", "deposit event"])

p("C05", "Backstop withdrawals: 21-day queue, oldest first, paid at the pool's rate",
  "Queueing moves the chosen number of the depositor's own unqueued shares into a new queue entry that unlocks exactly 21 days later (at most 21 entries can be queued); dequeueing "
  "moves shares back, oldest entries first; withdrawing consumes only entries whose unlock time has passed, oldest first, reduces the pool's shares and queued shares by exactly the "
  "shares withdrawn and pays the user floor(shares * tokens / shares outstanding) backstop tokens, which must be positive. In each case exactly the requested number of shares leaves the queue, a partly "
  "used entry keeps its unlock time, part of an entry, a whole one or several can be taken (once unlocked), the caller is the depositor, and no other operation removes shares from a user.",
  ["inputs", "histories"], "all queues, amounts and times",
  "Queue consumption is a loop over a history-dependent list; tests try a few shapes.",
  [BK + "backstop/withdrawal.rs", BK + "backstop/user.rs", BK + "backstop/pool.rs", BK + "contract.rs"],
  [("queue / dequeue / withdraw", BK + "backstop/withdrawal.rs"), ("queue consumption", BK + "backstop/user.rs dequeue_shares")],
  "Loop invariant (queue sum minus amount left) checked for every iteration and exit; exact storage, payment, event otherwise.",
  ["user_balance", "withdraw event"])

p("C06", "Backstop draw and donate: pool-authorised, exact and bounded",
  "A draw needs the pool's own authorisation, is bounded by the pool's backstop tokens, reduces exactly that pool's token balance and sends exactly that amount to the named address. A donation needs both "
  "the donor's and the pool's authorisation, moves exactly the amount from the donor (neither the pool nor the backstop) and adds it to exactly that pool's token balance. Neither changes shares or queues; "
  "no other operation changes a pool's backstop balance than deposit, queue, dequeue, withdraw, claim, draw and donate.",
  ["inputs", "histories"], "all amounts and balances",
  "The bound and the frame are over every state.",
  [BK + "backstop/fund_management.rs", BK + "contract.rs"],
  [("draw / donate", BK + "backstop/fund_management.rs")],
  "Exact final storage, token calls and events.", ["pool_data", "draw / donate events"])

p("C07", "A backstop claim pays each pool's accrued emissions once and re-deposits them",
  "A claim needs the claimer's authorisation and at least one pool. For every listed pool it brings the emission index up to date, pays out what the claimer accrued there and zeroes it; the return value and event "
  "are the exact total. The total is joined into the Comet pool for LP tokens (with an approval of exactly the total), and each listed pool is credited floor(LP tokens * its claim / total), for which the "
  "recipient gets the matching shares, after the recipient's own emissions there were settled at the shares held before.",
  ["inputs", "histories"], "all pool lists (duplicates included), recipients and emission states",
  "Lists with duplicates, a recipient other than the claimer and interleaved accrual are not in the tests (two genuine defects here were repaired).",
  [BK + "emissions/claim.rs", BK + "emissions/distributor.rs"],
  [("claim", BK + "emissions/claim.rs execute_claim")],
  "Per-iteration equalities of both walks for every list; what Comet returns is taken as given.",
  ["claim / deposit events", "user_balance"])

p("C08", "Backstop emissions settle at the old shares before any share change",
  "Whenever a depositor's or a pool's unqueued shares change (deposit, queue, dequeue), the pool's emission index is first advanced by rate * elapsed time up to the expiry, divided by the pool's unqueued shares "
  "(and not at all while nothing is unqueued), and the depositor is credited floor(shares * index growth) at the shares held before the change; withdrawing changes no unqueued share and no emission state. "
  "No other operation alters accrued emissions, and these operations stay possible when every share is queued.",
  ["inputs", "histories"], "all emission configurations, balances and times",
  "Ordering and the formula must hold for every state and every sequence; tests try a few.",
  [BK + "emissions/distributor.rs", BK + "backstop/deposit.rs", BK + "backstop/withdrawal.rs"],
  [("accrual", BK + "emissions/distributor.rs update_emissions")],
  "Exact final emission storage of each operation as a function of the state before it; the claim path is C07 and the re-configuration path C09.",
  ["claim return value"])

p("C09", "Emissions are assigned once: 70% backstop, 30% pools, by unqueued tokens",
  "gulp_emissions succeeds only with a non-empty reward zone and when the emitter distributed more than an hour after the last gulp; it then moves the backstop's clock to the emitter's and assigns one BLND per elapsed second: "
  "each reward-zone pool's share is its tokens not queued for withdrawal over the sum for the zone, rounded down; 30% of its share is added to the pool's claimable emissions, and 70% "
  "plus what its old rate had left becomes the backstop rate for the next 7 days, after the index was brought up to date under the old rate. A pool collects its claimable emissions once, by itself, as a BLND allowance added to what it already has.",
  ["inputs", "histories"], "all reward zones, balances, clocks and earlier configurations",
  "Shares, rounding and roll-over are loops over runtime lists and times.",
  [BK + "emissions/manager.rs", BK + "contract.rs"],
  [("gulp", BK + "emissions/manager.rs gulp_emissions"), ("rate", BK + "emissions/manager.rs set_backstop_emission_config"), ("collection", BK + "emissions/manager.rs gulp_pool_emissions")],
  "Exact per-pool storage for every iteration, exact clock and commit condition.",
  ["gulp_emissions event", "BLND allowance of the pool"])

p("C10", "The reward zone only admits qualified pools, within its size, without duplicates",
  "A pool enters the reward zone only if it is not in it, its backstop holds BLND and USDC worth the threshold (whole BLND to the fourth power times whole USDC at least 3.2e26), and either the zone has room (10 places plus one per 2^23 seconds since the "
  "backstop epoch) or it replaces the named pool, which must be in the zone and hold strictly fewer backstop tokens, with emissions assigned within the last 24 hours. Exactly one entry changes, and nothing else changes the zone.",
  ["inputs", "histories"], "all reward zones, balances and times",
  "Tests fix one epoch and a few balances.",
  [BK + "emissions/manager.rs", BK + "backstop/pool.rs"],
  [("admission", BK + "emissions/manager.rs add_to_reward_zone"), ("threshold", BK + "backstop/pool.rs require_pool_above_threshold")],
  "Exact commit condition and final list.", ["rw_zone event"])

p("C11", "Backstop data reported to pools is derived from real balances, rounded safely",
  "pool_data reports the pool's backstop tokens, its queued share of all shares rounded up, and the BLND and USDC behind its tokens rounded down, from the per-token values last stored by update_tkn_val, which are exactly the Comet pool's own BLND and USDC "
  "balances per LP token, rounded down; nothing else sets them, and backstop_token reports the token fixed at initialisation.",
  ["inputs", "histories"], "all balances and token values",
  "Rounding direction matters at every value; tests sample few.",
  [BK + "backstop/pool.rs", BK + "backstop/fund_management.rs", BK + "storage.rs"],
  [("pool_data", BK + "backstop/pool.rs load_pool_backstop_data"), ("token values", BK + "backstop/fund_management.rs execute_update_comet_token_value")],
  "Exact return values and storage.", ["pool_data"])

p("C12", "Every contract is initialised once and its identities and code never change",
  "Each of the four contracts can be initialised exactly once; initialisation stores exactly the given identities (and, for a pool, status 'setup', which needs its admin's authorisation, a take rate below 100% and at least two positions). "
  "Afterwards nothing changes the emitter's BLND token, the backstop's tokens, factory and emitter, a pool's name, backstop and BLND token, or the factory's pool template, and the record of initialisation is never removed. No operation of any of them replaces its own code.",
  ["inputs", "histories"], "all arguments and states; every entry point of all four contracts",
  "Immutability quantifies over every entry point and every history.",
  [E + "contract.rs", BK + "contract.rs", PL + "pool/config.rs", PF + "pool_factory.rs"],
  [("initialize", PL + "pool/config.rs execute_initialize"), ("initialize", BK + "contract.rs initialize"), ("initialize", E + "contract.rs initialize"), ("initialize", PF + "pool_factory.rs initialize")],
  "Exact final storage of the four initialisers plus a who-writes-what analysis over every entry point.", ["storage getters"])

p("C13", "Only the admin changes a pool's settings, and only as asked",
  "set_admin (which also needs the new admin), update_pool, set_status, queue_set_reserve, cancel_set_reserve and set_emissions_config succeed only with the current admin's authorisation. set_admin changes only the admin, update_pool "
  "only the take rate (kept below 100%) and the position limit, cancel_set_reserve only removes the queued change. No other operation writes the admin, the emission shares, or queued reserve changes (except that set_reserve consumes one), "
  "and only those and the status machine write the pool configuration; update_status changes nothing in it but the status.",
  ["inputs", "histories"], "all arguments and states; every pool entry point",
  "A forgotten authorisation or an extra write anywhere is a takeover; mocked authorisation hides it from the tests.",
  [PL + "contract.rs", PL + "pool/config.rs", PL + "storage.rs"],
  [("admin operations", PL + "contract.rs"), ("configuration", PL + "pool/config.rs")],
  "Authorisation on every committing path, exact final storage and events, writer analysis.", ["set_admin / update_pool / cancel_set_reserve events"])

p("C14", "Reserve changes are validated, wait a week, and apply exactly as queued",
  "A reserve change is queued only with decimals <= 18, collateral and liability factors <= 100%, target utilisation <= 95% and below a maximum <= 100%, base rate in [0.01%, 100%), ordered rates and reactivity <= 0.0001, and only if none is queued for the asset. "
  "It unlocks a week later (at once while the pool is in setup). Anyone may then apply it: the stored configuration becomes exactly the queued one (index kept, decimals unchangeable), the queue entry is consumed, a new asset is appended to the reserve list with rates of 1 and no balances, "
  "an existing reserve keeps its supplies, and its rate modifier resets to 1 if an interest parameter changed.",
  ["inputs", "histories"], "all configurations, statuses and times",
  "Bounds and their edges, the index and the timelock must hold for every configuration.",
  [PL + "pool/config.rs"],
  [("queue", PL + "pool/config.rs execute_queue_set_reserve"), ("apply", PL + "pool/config.rs execute_set_reserve"), ("validation", PL + "pool/config.rs require_valid_reserve_metadata")],
  "Commit conditions, final storage and events, exact.", ["set_reserve / queue_set_reserve events", "get_reserve"])

p("C15", "Pool status follows the backstop's health exactly",
  "update_status (open to anyone, refused only in setup and when the admin froze the pool) moves: admin-on-ice to frozen at 75% queued for withdrawal; admin-active to on-ice at 50% queued or below the backstop threshold; any other status to frozen at 60%, on-ice at 30% or below the threshold, else active. "
  "The admin may set only active (threshold met, under 50% queued), admin-on-ice or on-ice (under 75% queued) and admin-frozen (always). The threshold is whole BLND^4 * whole USDC >= 3.2e26 with saturation. Only the status changes.",
  ["inputs", "histories"], "all statuses, queued shares and backstop balances",
  "The thresholds are edges of a state machine over runtime values.",
  [PL + "pool/status.rs", PL + "dependencies/backstop.rs"],
  [("state machine", PL + "pool/status.rs execute_update_pool_status"), ("admin", PL + "pool/status.rs execute_set_pool_status"), ("threshold", PL + "pool/status.rs calc_pool_backstop_threshold")],
  "The whole transition function compared as a guarded term.", ["set_status event", "update_status return value"])

p("C16", "The factory deploys the pool template at a salted address and records it",
  "deploy needs the admin's authorisation, a take rate below 100% and at least two positions; it deploys exactly one contract with the wasm hash fixed at initialisation, at an address determined by the salt and the admin (so nobody else can take it) and by nothing else, initialises it with exactly the given "
  "arguments and the fixed backstop and BLND token in the order the pool's initialiser expects, records it, and returns it. is_pool is true exactly for recorded deployments and never fails.",
  ["inputs", "histories"], "all arguments and states",
  "The backstop trusts is_pool; a wrong argument order or salt is only visible for special inputs.",
  [PF + "pool_factory.rs", PF + "storage.rs"],
  [("deploy", PF + "pool_factory.rs deploy"), ("is_pool", PF + "pool_factory.rs is_pool")],
  "Exact effects; the pool's initialiser is analysed as well so that both ends of the call agree.", ["deploy event", "is_pool"])

p("C17", "Interest accrues by the three-piece rate curve, rounded for the pool",
  "Bringing a reserve up to date (at most once per time step; nothing accrues at zero supply or utilisation) multiplies the debt rate by 1 + rate * elapsed/year, rounded up. The rate is the three-piece curve of utilisation (target, 95%) times the rate modifier, rounded up; the modifier drifts by reactivity * elapsed * "
  "(utilisation - target) within [0.1, 10]. Of the interest, floor(interest * take rate) goes to the backstop's credit and the rest raises the supply rate, rounded down. Supplies do not change, the clock becomes the current time; reading a reserve and re-configuring it use this same rule.",
  ["inputs"], "all reserve data, configurations and times (non-negative rates and supplies, clock not in the future)",
  "Rounding directions and curve edges hold for all values; tests sample a few.",
  [PL + "pool/interest.rs", PL + "pool/reserve.rs"],
  [("curve", PL + "pool/interest.rs calc_accrual"), ("accrual", PL + "pool/reserve.rs load, gulp")],
  "The loader's result compared field by field with an independent formula; overflow (which reverts) aside.", ["get_reserve", "set_reserve"])

p("C18", "Bad debt moves to the backstop exactly, and only from users without collateral",
  "bad_debt succeeds only for a user other than the backstop with no collateral and some liability. For every debt of the user, the backstop's liability grows by exactly the user's amount and the user's is removed; reserve totals are unchanged, the reserve is brought up to date and stored, "
  "both users' emissions for the debt token are settled at their old balances, and the move is announced. Nothing else changes and no token moves.",
  ["inputs", "histories"], "all positions, reserves and emission states",
  "It loops over runtime positions; a missed settlement or a wrong total shows up only with particular emission states.",
  [PL + "pool/bad_debt.rs", PL + "pool/user.rs"],
  [("transfer", PL + "pool/bad_debt.rs transfer_bad_debt_to_backstop"), ("positions", PL + "pool/user.rs add_liabilities, remove_liabilities")],
  "Step equality of the walk over every debt, plus contracts of the reserve loader and the emission settlement.", ["get_positions", "bad_debt event"])

p("C19", "Supplying and withdrawing trade tokens for shares at the supply rate",
  "In a submit, each supply (plain or as collateral) of a non-negative amount mints floor(amount / supply rate) shares to the user and adds the amount to what is collected; each withdrawal burns ceil(amount / supply rate) shares and pays the amount, or, if the user holds fewer, burns the whole balance and pays its floored value. "
  "No request mints or burns zero shares. The reserve's total moves by exactly the same shares, only that reserve, that position and those totals change, the user's emissions are settled at the old balance first, a position of zero is removed, the event carries the exact amounts, and every changed reserve is stored.",
  ["inputs", "histories"], "all request sequences, rates, positions and reserves",
  "Rounding and accounting must hold for every rate and every mix of requests on cached reserves; tests use a few.",
  [PL + "pool/actions.rs", PL + "pool/reserve.rs", PL + "pool/user.rs"],
  [("requests", PL + "pool/actions.rs build_actions_from_request"), ("positions", PL + "pool/user.rs add_supply, add_collateral, remove_supply, remove_collateral"), ("storing", PL + "pool/pool.rs store_cached_reserves")],
  "Step equality of the walk over requests for each request type, for one arbitrary request in an arbitrary state.", ["get_positions", "get_reserve", "supply / withdraw events"])

p("C20", "Borrowing and repaying trade tokens for debt at the debt rate",
  "In a submit, each borrow mints ceil(amount / debt rate) debt shares to the user, pays out the amount and is refused if it would leave the reserve's utilisation above its maximum; each repayment collects the amount and burns floor(amount / debt rate) shares, or, if the user owes less, burns the whole debt and "
  "refunds the amount less the debt's rounded-up value (never negative). No request mints or burns zero shares or takes a negative amount. Reserve totals move by the same shares, nothing else changes, the user's emissions are settled at the old balance first, the event carries the exact amounts, and every changed reserve is stored.",
  ["inputs", "histories"], "all request sequences, rates, positions and reserves",
  "Rounding, refunds and the utilisation cap must hold for every rate and supply.",
  [PL + "pool/actions.rs", PL + "pool/reserve.rs", PL + "pool/user.rs"],
  [("requests", PL + "pool/actions.rs build_actions_from_request"), ("utilisation", PL + "pool/reserve.rs require_utilization_below_max"), ("positions", PL + "pool/user.rs add_liabilities, remove_liabilities")],
  "Step equality of the walk over requests for each request type, for one arbitrary request in an arbitrary state.", ["get_positions", "get_reserve", "borrow / repay events"])

p("C21", "Submit is authorised and moves exactly the tokens the requests add up to",
  "submit needs the spender's authorisation and, if different, the user's; none of user, spender and recipient is the pool. For every token, the total the requests collect is transferred once from the spender to the pool and the total they pay once from the pool to the recipient, nothing more; the only other calls are those of filling a "
  "bad-debt or interest auction. The resulting positions are stored for the user and returned. No one else's positions change, except by filling an auction of theirs; auctions change only by fill and delete requests.",
  ["inputs"], "all callers, request sequences and states",
  "A token moved twice, skipped or taken from the wrong party must be excluded for every sequence of requests.",
  [PL + "contract.rs", PL + "pool/submit.rs"],
  [("auth", PL + "contract.rs submit"), ("transfers", PL + "pool/submit.rs execute_submit")],
  "Who authorises, and every call and write the entry point can make, compared with the rule.", ["token balances", "submit return value"])

p("C22", "No submit that takes value out leaves an unhealthy position",
  "If any request of a submit withdraws collateral, borrows, fills a user-liquidation or bad-debt auction, or deletes a liquidation, and the user ends with liabilities, the submit succeeds only if effective collateral / effective liabilities, floored, is at least 1.00001. Both are summed over every reserve from the positions and reserves "
  "as the requests left them: collateral value rounded down and times its factor, liabilities rounded up and divided by theirs, at prices the configured oracle gives for that asset no more than a day old (exactly a day is accepted). The positions checked are the ones stored.",
  ["inputs", "histories"], "all positions, reserves, prices and request sequences",
  "Solvency of each position depends on every rounding direction and factor in the sum.",
  [PL + "pool/submit.rs", PL + "pool/health_factor.rs", PL + "pool/pool.rs", PL + "pool/actions.rs"],
  [("check", PL + "pool/submit.rs execute_submit"), ("formula", PL + "pool/health_factor.rs"), ("staleness", PL + "pool/pool.rs load_price")],
  "Commit condition of submit, with the reserve walk's step compared with an independent formula.", ["submit success"])

p("C23", "Requests are refused exactly when the pool's status forbids them",
  "Every request of a successful submit has a known type and a non-negative amount; borrowing and deleting a liquidation happen only while the pool is active (status 0 or 1), supplying (plain or collateral) only while it is not frozen (status at most 3). Withdrawing, repaying and filling auctions stay possible at every status.",
  ["inputs"], "all request sequences and pool statuses",
  "One missing request type in the gate lets a frozen pool grow; tests try a few pairs.",
  [PL + "pool/pool.rs", PL + "pool/actions.rs"],
  [("gate", PL + "pool/pool.rs require_action_allowed"), ("types", PL + "pool/actions.rs build_actions_from_request")],
  "The path condition of one arbitrary request, decided for each type and status.", ["submit success"])

p("C24", "A user cannot open more positions than the pool allows",
  "After a successful submit the user's collateral and liability positions together number at most the pool's maximum, or no more than before the call; a user above a lowered maximum can still act without adding positions. The positions counted are the ones stored.",
  ["inputs", "histories"], "all request sequences and positions",
  "The maximum bounds the cost of liquidation; it must hold for all mixes of requests.",
  [PL + "pool/pool.rs", PL + "pool/submit.rs"],
  [("limit", PL + "pool/pool.rs require_under_max")],
  "Commit condition of submit.", ["get_positions"])

p("C25", "Filling an auction takes exactly the share and scaling its age dictates",
  "A fill in submit needs an existing auction of the named user and type that has started, a percentage of 1 to 100, and a filler other than that user. Of each bid entry ceil(amount x percent / 100) and of each lot entry floor(amount x percent / 100) is taken, zero entries dropped; the auction keeps exactly the rest, or is deleted if nothing is left, and no other auction changes. "
  "What is taken is scaled: the lot rises 0.5% per block to 100% at block 200 (floored); the bid is 100% to block 200, then falls 0.5% per block to 0 at 400 (rounded up). The fill is announced with user, filler and percentage.",
  ["inputs", "histories"], "all auctions, ages, percentages and fillers",
  "Rounding and the ramp's corners matter for every amount and block; tests try a few of each.",
  [PL + "auctions/auction.rs", PL + "pool/actions.rs"],
  [("scaling", PL + "auctions/auction.rs scale_auction"), ("fill", PL + "auctions/auction.rs fill")],
  "Step equality of the walks over an arbitrary auction's entries, and the auction store's contents after one arbitrary fill request.", ["fill_auction event", "get_auction"])

p("C26", "A user liquidation is created only when due and sized by the pool's formula",
  "new_liquidation_auction needs 1-100 percent, no open liquidation of that user (not the pool, not the backstop) and effective liabilities at least the effective collateral, summed over all reserves at current rates and oracle prices at most a day old. The bid is ceil(balance x percent) of each liability, the lot ceil(balance x estimate) of each collateral, "
  "the estimate being the debt share's value plus half the gap left by the average collateral and liability factors, as a share of the collateral, capped at 1. 100% needs an estimate of all collateral; less must leave a health factor within 1.03-1.15. Stored from the next block, returned, announced; nothing else changes but emissions settled.",
  ["inputs", "histories"], "all positions, reserves, prices and percentages",
  "The size formula and the post-liquidation band mix a dozen roundings over runtime sums; tests evaluate a handful.",
  [PL + "auctions/user_liquidation_auction.rs", PL + "pool/health_factor.rs", PL + "auctions/auction.rs"],
  [("creation", PL + "auctions/user_liquidation_auction.rs create_user_liq_auction_data"), ("health", PL + "pool/health_factor.rs"), ("removal", PL + "pool/user.rs rm_positions")],
  "Commit condition and stored auction compared with an independent formula over both health walks, plus step equality of every walk.", ["new_liquidation_auction result", "get_auction"])

p("C27", "Filling a liquidation moves exactly the fill between the two positions",
  "Filling a user-liquidation auction takes the scaled lot from the user's collateral shares and the scaled bid from the user's liability shares and adds exactly the same shares to the filler's; no balance goes negative, zero balances are removed. Both users' emissions are settled at their old balances first, reserve totals end unchanged, every reserve touched is stored, "
  "the user's positions are stored, and nothing else changes: no token moves, no other position, no call.",
  ["inputs", "histories"], "all auctions, positions, reserves and emission states",
  "Four loops over runtime maps share cached reserves and two positions; a slip shows only with several assets or emissions running.",
  [PL + "auctions/user_liquidation_auction.rs", PL + "pool/user.rs", PL + "pool/actions.rs"],
  [("fill", PL + "auctions/user_liquidation_auction.rs fill_user_liq_auction"), ("moves", PL + "pool/user.rs rm_positions, add_positions")],
  "Step equality of the four walks and of the request step, for one arbitrary fill in an arbitrary state.", ["get_positions", "get_reserve"])

p("C28", "A bad-debt auction offers all of the backstop's debt for its value and a margin",
  "new_bad_debt_auction needs that none is open and that the backstop owes something. The bid is every positive liability of the backstop, in full. The lot is the backstop tokens worth 1.4 times the debt, at most all the pool's tokens: debt is summed per reserve at current rates (each rounded up) and oracle prices at most a day old, a backstop token being worth five times "
  "its USDC share. The auction is stored from the next block, returned and announced; nothing else changes.",
  ["inputs", "histories"], "all backstop positions, reserves, prices and backstop balances",
  "The lot is a chain of roundings over a runtime sum; a wrong direction or operand costs the backstop for some inputs only.",
  [PL + "auctions/bad_debt_auction.rs", PL + "auctions/auction.rs"],
  [("creation", PL + "auctions/bad_debt_auction.rs create_bad_debt_auction_data")],
  "Stored auction compared with an independent formula; step equality of the walk over the debts.", ["new_bad_debt_auction result"])

p("C29", "A bad-debt fill moves the debt, pays the lot and writes off only what it must",
  "The filler is not the backstop. Exactly the scaled bid leaves the backstop's liabilities and joins the filler's; exactly the scaled lot, if any, is drawn from the backstop to the filler. If the backstop then still owes and its holdings, as they are after the draw, are under 0.0000003 of the pool's threshold, all of each remaining liability is written off and announced; otherwise "
  "none is. Emissions are settled at old balances first, reserve totals move by exactly these amounts, reserves and positions are stored, nothing else changes.",
  ["inputs", "histories"], "all auctions, backstop states, reserves and emission states",
  "The write-off socialises a loss: whether and how much depends on state read after an external call.",
  [PL + "auctions/bad_debt_auction.rs", PL + "pool/user.rs", PL + "pool/status.rs"],
  [("fill", PL + "auctions/bad_debt_auction.rs fill_bad_debt_auction"), ("threshold", PL + "pool/status.rs calc_pool_backstop_threshold")],
  "Step equality of every walk and of the request step, external calls tracked by a world variable.", ["get_positions", "draw", "bad_debt event"])

p("C30", "An interest auction sells the backstop's credit once, for its value and a margin",
  "new_interest_auction needs that none is open and that the credit offered is worth more than 200 units of the oracle's base. The lot is, for each asset asked for, once however often it is listed, the backstop's whole positive credit at current rates; its value is summed at oracle prices at most a day old. The bid is the backstop tokens worth 1.4 times that value. "
  "The auction is stored from the next block, returned and announced; nothing else changes.",
  ["inputs", "histories"], "all asset lists, reserves, prices and backstop balances",
  "Duplicate assets and rounding chains are input-dependent; tests use distinct assets.",
  [PL + "auctions/backstop_interest_auction.rs", PL + "auctions/auction.rs"],
  [("creation", PL + "auctions/backstop_interest_auction.rs create_interest_auction_data")],
  "Stored auction compared with an independent formula; step equality of the walk over the assets.", ["new_interest_auction result"])

p("C31", "Filling an interest auction trades exactly the bid for exactly the lot",
  "The filler is not the backstop. Exactly the scaled bid, if any, is donated by the filler to the backstop for this pool; for each entry of the scaled lot the reserve's backstop credit falls by exactly that amount and exactly that amount of the asset is transferred to the filler. The reserves are stored; no position, emission or other reserve value changes and no other call is made.",
  ["inputs", "histories"], "all auctions, ages, reserves and fillers",
  "It pays out of pooled tokens: paying without lowering the credit would drain suppliers for particular lots only.",
  [PL + "auctions/backstop_interest_auction.rs"],
  [("fill", PL + "auctions/backstop_interest_auction.rs fill_interest_auction")],
  "Step equality of the lot walk and of the request step; every call compared with the rule.", ["get_reserve", "donate and transfer calls"])

p("C32", "Auctions are created once, deleted only by their user, and otherwise kept",
  "Auctions change only through the three creation calls and through fill and delete requests. A creation never replaces an open auction, adds only its own and starts it in the next block. A delete request removes exactly the user's own liquidation, which must exist, is announced and changes nothing else. Other requests leave auctions alone. get_auction reports what is stored.",
  ["inputs", "histories"], "all auctions, requests and callers",
  "An auction overwritten or deleted by someone else voids a liquidation; it must be excluded for every entry point.",
  [PL + "auctions/auction.rs", PL + "pool/actions.rs", PL + "contract.rs"],
  [("deletion", PL + "auctions/auction.rs delete_liquidation"), ("creation", PL + "auctions/auction.rs")],
  "The auction store's contents after each entry point, and who may write it.", ["get_auction", "auction events"])

p("C33", "A claim pays the user exactly what accrued, once",
  "claim needs the user's authorisation. For each listed token id (2 x reserve index + 0 debt, 1 supply; the reserve must exist) the emission index and the user's accrual are brought up to date at the user's balance (debt, or collateral plus supply) and the accrual is zeroed. The sum is transferred from the backstop by its allowance to the chosen receiver, only if positive, "
  "returned and announced. Nothing else changes, no other call is made.",
  ["inputs", "histories"], "all positions, emission states and id lists, with repeats",
  "A double payment or a wrong balance shows only for particular id lists, times and states.",
  [PL + "emissions/distributor.rs", PL + "contract.rs"],
  [("claim", PL + "emissions/distributor.rs execute_claim, claim_emissions")],
  "Step equality of the claim walk against an independent formula, for one arbitrary id in an arbitrary state; the call compared with the rule.", ["claim result", "transfer_from call", "claim event"])

p("C34", "Pool emissions accrue by the schedule, each user by balance, and only there",
  "Settling a reserve token with a schedule, nonzero supply and elapsed time raises its index by floor(rate x time up to the expiry x token scalar / supply) and moves its clock, else leaves both. The user then accrues floor(balance x index growth since last seen / scalar), from 0 if never seen, and is set to the index. Schedules change only by gulp_emissions, the split "
  "only by set_emissions_config; indexes and accruals only by gulp, claims, requests, bad-debt transfer and liquidation creation.",
  ["inputs", "histories"], "all schedules, supplies, balances and times",
  "Index arithmetic and its guards mix expiry, supply and time; tests pick a few combinations.",
  [PL + "emissions/distributor.rs"],
  [("settlement", PL + "emissions/distributor.rs update_emissions")],
  "The settlement function's final storage compared with an independent formula; every writer of the four stores enumerated.", ["get_reserve_emissions", "get_user_emissions"])

p("C35", "Gulping emissions starts a one-week schedule per token and loses nothing owed",
  "gulp_emissions draws the pool's emissions from the backstop, at least 1 token, and for every entry of the split gives floor(share x amount). The index is first settled under the old schedule up to now (0 for a new token); the new rate is (share + what the old schedule still owed) / one week, expiring in a week. Each schedule is announced, the amount returned and "
  "announced; nothing else changes.",
  ["inputs", "histories"], "all splits, schedules, supplies and amounts",
  "Rolling a live schedule over into a new one is a history property; tests cover one overlap.",
  [PL + "emissions/manager.rs"],
  [("gulp", PL + "emissions/manager.rs do_gulp_emissions, update_reserve_emission_config")],
  "Step equality of the walk over the split against an independent formula; calls, events and writes enumerated.", ["gulp_emissions result", "reserve_emission_update event"])

p("C36", "The emission split is admin-set, on listed reserves and never over 100%",
  "set_emissions_config needs the admin. Every share is for the debt (0) or supply (1) token of a listed reserve, and the shares add up to at most 1 (7 decimals). The stored split has exactly those shares, each under 2 x index + type, and replaces the old one; nothing else changes.",
  ["inputs"], "all share lists",
  "A wrong key or a missed bound over-issues emissions for particular lists only.",
  [PL + "emissions/manager.rs"],
  [("split", PL + "emissions/manager.rs set_pool_emissions")],
  "Step equality of the walk and the commit condition, for an arbitrary list.", ["set_emissions_config"])

p("C37", "No operation moves anyone's tokens or holdings without their authorisation",
  "In all four contracts, every token taken by a transfer, donation, approval or allowance comes from the contract itself or from an address that authorised the call; the one exception is the backstop's allowance to its pools, spent only by the pool it was given to. A user's pool positions and backstop balance change only if that user authorised it, except: an open liquidation being filled, forgiving debt "
  "without collateral, the backstop's own positions, and rewards deposited for a chosen receiver.",
  ["inputs", "histories"], "all entry points, callers, arguments and states",
  "One unguarded path for one kind of request is a theft; tests mock all authorisations.",
  [PL + "contract.rs", PL + "pool/submit.rs", BK + "contract.rs", E + "contract.rs"],
  [("entry points", PL + "contract.rs submit, claim"), ("backstop entry points", BK + "contract.rs")],
  "Every call that moves value and every write to a user ledger in every entry point, against the authorisations its path requires.", ["transfer calls", "get_positions", "user_balance"])

p("C38", "Records in use do not expire, and auctions outlive their use",
  "Whenever a successful call reads an existing persistent record (balances, positions, configurations, emission state, reward zone, queued swap) it extends that record's lifetime to at least 46 days if it was below 45, or 120 if below 100 for records only their own user keeps alive; the drop marker and the emitter's get_last_distro are the exceptions. "
  "An auction is stored for at least 46 days and a queued reserve change and the drop list for 120, since those are lost on expiry. Every operation other than views, drop, bad_debt, new_liquidation_auction, set_reserve and set_emissions_config extends its contract's own lifetime to at least 31 days.",
  ["inputs", "histories"], "all entry points, states and ledger times",
  "The test ledger starts with lifetimes far longer than a test runs, so a missing or shortened extension is invisible to every test.",
  [PL + "storage.rs", BK + "storage.rs", E + "storage.rs", PF + "storage.rs"],
  [("extension on read", PL + "storage.rs get_persistent_default"), ("auctions", PL + "storage.rs set_auction")],
  "For every read of a present record and every write of a temporary one, on every path of every entry point, an extension of the same key and sufficient length on the same path.", ["entry lifetimes"])

p("C39", "Integer arithmetic is exact or the call fails, everywhere",
  "In all four contracts no operation that succeeds has computed with a wrapped, truncated or clamped integer: every addition, subtraction, multiplication, shift and power is overflow-checked in the release build, every narrowing conversion either fails or provably keeps the value, no floating point is used, and a saturated product is only ever compared with a threshold, never stored, paid, returned or announced.",
  ["inputs", "configurations"], "all functions of the contracts, all inputs",
  "Overflow needs values far outside those tests use, and the test profile checks overflow even where the release profile would not.",
  [PL + "pool/", BK + "backstop/", BK + "emissions/", E + "emitter.rs", "Cargo.toml"],
  [("release profile", "Cargo.toml [profile.release] overflow-checks"), ("conversions", PL + "emissions/manager.rs u64(..)")],
  "Every arithmetic operation in the release MIR of every contract function, and every value and guard observable from every entry point. The fixed-point library and the host are trusted.", ["call results", "stored state"])

p("C40", "Views answer with the stored state, to anyone, and change nothing",
  "get_backstop, get_last_distro, backstop_token and get_auction answer exactly the stored record whenever it exists and fail otherwise; get_queued_swap, get_positions, user_balance and is_pool always answer, with nothing, empty positions, a zero balance or false for a record that does not exist. None of these nor pool_data needs any authorisation, writes, calls a contract to change it, or publishes an event.",
  ["inputs", "histories"], "all arguments and states",
  "Contracts and users decide on these answers; tests query a few present records.",
  [E + "contract.rs", BK + "contract.rs", PL + "contract.rs", PF + "pool_factory.rs", PL + "storage.rs", BK + "storage.rs"],
  [("views", PL + "contract.rs get_positions, get_auction"), ("backstop views", BK + "contract.rs user_balance")],
  "Exact for every argument and state: the value answered, the condition of answering, and every effect.", ["return values"])

p("C45", "Every state-changing call announces itself once, with what it was about",
  "Each successful call of distribute, the swap calls and drop on the emitter, of deposit, the withdrawal calls, gulp_emissions, add_reward, claim, draw and donate on the backstop, of every administrative, status, emission, claim and auction-creating call on the pool, and of deploy publishes exactly one event of its own name, whose topics and data name the parties, assets and amounts of that very call. "
  "Each request of a submit call publishes exactly one event of its kind, naming the asset or auctioned user and the user (for fills: the auction type, the filler and the percentage). Claiming at the backstop also announces each deposit made, gulping emissions each reserve's new schedule, and bad debt each debt moved or written off. "
  "Nothing else is ever announced, and initialisers, views, gulp_pool_emissions, set_emissions_config, update_tkn_val and the backstop's drop announce nothing.",
  ["inputs", "histories"], "all inputs and states of every entry point",
  "Indexers and front ends rebuild balances from events; tests assert a few of them on sample inputs, and a missing or wrong one on a rare branch goes unnoticed.",
  [E + "contract.rs", BK + "contract.rs", PL + "contract.rs", PL + "pool/actions.rs", PF + "pool_factory.rs"],
  [("requests", PL + "pool/actions.rs build_actions_from_request"), ("contracts", PL + "contract.rs")],
  "Which events, under which conditions, with which topics and data, for every input; the amounts computed by requests, claims and schedules are those of C09, C19, C20, C33 and C35.", ["events"])

p("C46", "A reserve's share totals move exactly with the shares users hold",
  "Whatever a request, an auction fill or a bad-debt transfer adds to or takes from somebody's collateral and supply balances of a reserve is added to or taken from that reserve's b-token total, and likewise for liabilities and the d-token total; a fill moves shares between users without changing the totals, and a write-off removes them from both. "
  "No other balance or reserve is touched, the results are the ones stored, a new reserve starts with no shares under the next free index, reconfiguring a reserve keeps its totals and index, and nothing but submit and bad_debt changes positions. Hence both totals always equal the sum over all users.",
  ["inputs", "histories"], "all requests, fills and transfers from every state; by induction all histories",
  "The totals price every share and drive the interest rate; a drift of one share on a rare path (a capped repayment, a fill, a write-off) accumulates for ever and no test sums over users.",
  [PL + "pool/user.rs", PL + "pool/actions.rs", PL + "pool/bad_debt.rs", PL + "auctions/user_liquidation_auction.rs", PL + "auctions/bad_debt_auction.rs", PL + "pool/config.rs"],
  [("balances and totals", PL + "pool/user.rs add_liabilities .. rm_positions"), ("storing", PL + "pool/pool.rs store_cached_reserves, " + PL + "pool/user.rs store")],
  "Exact for every step of every writer of positions and reserve data.", ["get_positions", "reserve data"])

p("C41", "Pool solvency: suppliers' claims never exceed the pool's assets",
  "After any history of operations, for every reserve, the tokens held plus the debt owed at current rates cover the supply at current rates plus the backstop's credit, except where bad debt was explicitly written off.",
  ["histories"], "all histories of all operations by all users",
  "Rounding and rate updates compound over histories; tests follow a few.",
  [PL + "pool/reserve.rs", PL + "pool/actions.rs"],
  [("accrual", PL + "pool/reserve.rs Reserve::load")],
  "", ["token balance of the pool", "ResData"])

p("C42", "Interest modifier converges: utilisation is driven towards the target",
  "With constant utilisation away from the target, the rate modifier moves monotonically towards its bound, so borrowing and supplying incentives eventually bring utilisation to target.",
  ["histories"], "all histories of utilisation",
  "A statement about the long run and users' reactions.",
  [PL + "pool/interest.rs"],
  [("rate modifier", PL + "pool/interest.rs calc_accrual")],
  "", ["ir_mod"])

p("C43", "Operations stay within the network's resource limits",
  "With the maximum number of positions, reserves and requests the pool accepts, every operation (in particular liquidations) stays within the network's instruction, memory and ledger-entry limits, so no position can become impossible to liquidate.",
  ["inputs"], "all sizes of positions, reserve lists and request lists",
  "Tests reset the budget to unlimited.",
  [PL + "pool/health_factor.rs", PL + "pool/submit.rs"],
  [("health calculation", PL + "pool/health_factor.rs PositionData::calculate_from_positions")],
  "", ["transaction resource report"])

p("C44", "The backstop's credit is never negative and interest is never lost",
  "Over any history a reserve's backstop credit is non-negative and equals the backstop's share of all interest accrued minus what interest auctions sold and what write-offs consumed, to rounding.",
  ["histories"], "all histories",
  "Sum over histories of rounded amounts.",
  [PL + "pool/reserve.rs", PL + "auctions/backstop_interest_auction.rs"],
  [("credit", PL + "pool/reserve.rs accrue")],
  "", ["ResData.backstop_credit"])

NA = {
 "C41": "An inductive inequality between products of runtime rates, supplies and token balances across unbounded histories; the single steps are decided exactly (C17-C20, C27-C31), but no dataflow or type argument in reach bounds their rounded, nonlinear sum.",
 "C42": "A long-run statement about user behaviour; the one-step update of the modifier is decided by C17, convergence quantifies over a runtime trajectory.",
 "C43": "The cost of host functions is a runtime quantity the sources do not determine, and the reserve list has no bound in the code to count against.",
 "C44": "A conserved sum of rounded runtime quantities over histories; each change of the credit is decided exactly by C17, C29 and C31, its non-negativity along a history is not a static fact.",
}

#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/gen_properties.py > properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
A="x/dex/amm/"; K="x/dex/keeper/"; T="x/dex/types/"; M="x/dex/module/"

p("C01","Matched orders never trade worse than their limit, nor beyond their size",
 "Whatever orders are matched together in a batch, a buyer never pays more than its limit price and a seller never receives less than its limit price for the amount filled (up to one smallest unit of rounding per price level traded). No order is filled beyond its open amount or pays more than the coins it offered, orders left unfilled pay and receive nothing, and an order that receives a fill always both pays and receives a positive amount.",
 ["inputs"],"every set of buy and sell orders (any direction, price, amount, batch, partially consumed offer coins), with and without a last price",
 "Tests match a few dozen hand-written books; the guarantee is over every combination of prices, sizes and rounding, including amounts at the dust limit.",
 [A+"match.go",A+"order.go",A+"util.go",T+"order.go"],[("fill at a price capped by the matchable amount",A+"match.go"),("matchable amount from remaining offer coin",A+"util.go")],
 ["orders' paid/received/open amounts after matching"])
p("C02","Matching conserves both coins and never yields negative dust",
 "In every batch the base coin amount bought equals the base coin amount sold exactly. The quote coins paid by buyers equal the quote coins received by sellers plus the reported leftover, and that leftover is never negative.",
 ["inputs"],"every set of buy and sell orders, single-price and two-phase matching, any last price",
 "Conservation of every rounding path (ceil for buyers, floor for sellers, dropped dust sells, repeated price levels) cannot be sampled by fixed examples; a shortfall only shows for particular small amounts and low prices.",
 [A+"match.go"],[("sold amount drives the bought amount",A+"match.go"),("quote coin difference accumulation",A+"match.go")],
 ["sum over orders of paid and received", "returned leftover"])
p("C03","Better prices, then older batches, fill first; equals share pro rata",
 "On each side of a batch, an order with a strictly better price is completely filled before an order with a worse price receives anything, and at one price orders from an earlier batch are filled before those of a later batch (apart from amounts too small to be worth one quote unit). Orders with the same price and batch share a partial fill in proportion to their sizes, where the indivisible remainder goes to larger orders first, then user orders before pool orders, then lower ids.",
 ["inputs"],"every set of buy and sell orders over any number of price levels and batches",
 "Tests fix a few books with two or three orders per tick; fairness must hold for every mixture of sizes, batches and ties.",
 [A+"match.go",A+"util.go",A+"orderbook.go",T+"order.go"],[("distribution to ticks, batch groups and orders",A+"match.go"),("priority comparison",T+"order.go"),("grouping by batch",A+"util.go")],
 ["per-order filled amounts"])
p("C04","The batch price clears the book: no crossing volume is left over",
 "When a pair has no last price, a clearing price is found exactly when buys and sells cross, lies on a valid tick between the lowest sell and the highest buy, and at that price neither side has orders strictly better than the price exceeding the whole volume of the other side. When a pair has a last price, every traded price lies between the best crossing quotes and after matching no buy order remains at or above the price of a remaining sell order apart from unmatchable dust; without a crossing nothing is matched.",
 ["inputs"],"every order book and every set of pools, any tick precision, any last price",
 "The binary searches over about 10^5 ticks are exercised on a handful of books; the clearing conditions must hold on all of them.",
 [A+"match.go",A+"view.go",A+"tick.go"],[("clearing price search",A+"match.go"),("price direction and sequential matching",A+"match.go"),("cumulative amounts view",A+"view.go")],
 ["returned price","open amounts after matching"])
p("C05","Matching follows the batch auction rules exactly and deterministically",
 "The result of a batch (price, each order's fill, payments, leftover) is a function of the set of orders only: it does not depend on the order in which they are inserted or on repeated execution. It equals the result of applying the documented two-phase batch auction rules (single price at the last price, then level by level in the direction of the price movement) to that set.",
 ["inputs"],"every set of orders, every permutation of its insertion order",
 "Consensus needs identical results on every node for every book; tests compare a few results with constants and never permute or re-derive them.",
 [A+"match.go",A+"orderbook.go",A+"util.go"],[("sorted tick insertion",A+"orderbook.go"),("stable ordering before distribution",A+"match.go")],
 ["all order results, match price, leftover"])
p("C06","Price ticks are a consistent, ordered and reversible grid",
 "For every tick precision, rounding a price down or up gives the nearest tick on that side and is idempotent, the next and previous tick are adjacent and inverse of each other, the tick gap is the distance to the next tick, and numbering ticks and recovering a tick from its number are inverse and order preserving. Rounding to the nearest tick never leaves the enclosing tick interval and always returns a tick.",
 ["inputs"],"every positive price within the supported range and every tick precision",
 "Tests list some prices at one or two precisions; the boundaries at powers of ten exist at every magnitude.",
 [A+"tick.go"],[("tick arithmetic",A+"tick.go")],["tick functions' results"])
p("C07","Pools quote only what they hold, on ticks, and never at a loss",
 "Every order a pool places lies on a tick inside the allowed price range, buys strictly below and sells strictly above or at the pool price side, with at most one order per tick and direction (two at the limit when the pool price lies beyond it). Even if all its orders are completely filled the pool never pays out more than its reserves, and every fill keeps the pool's pricing curve value from decreasing beyond rounding; quoted cumulative amounts grow monotonically away from the pool price. Wherever its curve offers at least the minimum amount inside the range, the pool quotes: it leaves no gap wider than half a percent (or one tick) without an order, and yet its orders are spaced so that few suffice however fine the ticks are.",
 ["inputs"],"every basic and ranged pool state (reserves over the full range including single sided), any price range and tick precision",
 "The amounts come from square roots and divisions with rounding at 18 digits over 40 orders of magnitude; tests use a few pools.",
 [A+"pool.go",A+"util.go"],[("pool order generation",A+"pool.go"),("price gap function",A+"util.go"),("amount formulas",A+"pool.go")],
 ["generated pool orders"])
p("C08","Deposits and withdrawals never give more than the proportional share",
 "A deposit never accepts more coins than offered, mints no more pool coins than the share of the accepted coins, and accepts no more than rounding (one unit, and the 18 decimals shares are computed with) above the minted share's worth; it accepts nothing when the share is too small to mint a coin. A withdrawal returns no more than the proportional share less the fee (everything only for the last pool coin) and never less than that share by more than rounding, and depositing then withdrawing never yields a profit.",
 ["inputs"],"every pool state up to the maximum amounts, every deposit and withdrawal amount, every fee rate between 0 and 1",
 "Unit tests check some exact values; rounding direction must favour the pool for every amount.",
 [A+"pool.go"],[("share computation with floor and ceil",A+"pool.go")],["accepted, minted, withdrawn amounts"])
p("C09","Ranged pools start at their price and stay inside their price range",
 "A ranged pool is created only for valid prices (positive, ordered, within the global limits, a gap of at least 0.1%, the initial price within the range), never takes more than the offered coins, uses at least one side completely, and its price equals the requested initial price within rounding. With any reserves whose ratio 18 decimals can represent, the price of the pool stays within its minimum and maximum price up to rounding, and a one sided pool sits at the respective end of its range.",
 ["inputs"],"every range, initial price and deposit amounts; every later reserve state",
 "Numerical behaviour differs by magnitude, width of the range and position in it; tests check a few combinations.",
 [A+"pool.go"],[("ranged pool creation and translation",A+"pool.go")],["created pool balances and price"])
p("C10","Custody is solvent and value is neither created nor lost",
 "After every message and every block, each pair's escrow holds exactly the remaining offer coins of that pair's open orders and the request escrow exactly the coins of pending deposits and withdrawals, plus whatever anyone donated to them, so that every open position can be paid out at any time. The total supply of every coin other than pool coins never changes, and pool coin supply changes only by the amounts minted for created pools and succeeded deposits and burned for succeeded withdrawals.",
 ["histories","inputs"],"every sequence of messages by any users over any pairs and pools, with any block boundaries and times, any valid parameters, and donations to module addresses",
 "Tests run single scenarios of a few steps; escrow drift accumulates through rounding over long histories.",
 [K+"swap.go",K+"pool.go",K+"batch.go",T+"util.go"],[("escrow transfers in placing, matching and finishing",K+"swap.go"),("request escrow",K+"pool.go"),("bulk transfers",T+"util.go")],
 ["bank balances and supply after each step"])
p("C11","Block processing never fails",
 "For every state that messages can produce, begin-block and end-block processing completes without error or panic, whatever orders, pools, requests and balances exist. Unexpected donations to any address and extreme but accepted amounts or prices do not change that.",
 ["histories","inputs"],"every history of accepted messages with amounts and prices up to the accepted limits, any valid parameters",
 "A panic in end-block halts the chain; it needs particular states (drained pools, dust, extreme prices) which no scripted test builds.",
 [M+"abci.go",K+"batch.go",K+"swap.go",K+"pool.go"],[("errors become panics in batch execution",K+"batch.go"),("overflow guards",A+"pool.go")],
 ["panics and errors from block processing"])
p("C12","An order is accepted exactly under the documented conditions and escrows exactly",
 "A limit, market or market-making order message is accepted if and only if the pair exists, its coins match the pair and direction, its price lies within the limits around the last price (any supported price without one; market orders need a last price), its lifespan does not exceed the maximum, its amounts are not too small and the orderer can spend the offered coins. An accepted order takes exactly the coins needed at its tick-rounded price from the orderer, gets the pair's next id and current batch, expires at block time plus lifespan, and changes nothing else.",
 ["inputs","histories"],"every message and every reachable state",
 "Each test checks one rejection reason with one value; the acceptance region has many boundaries depending on state and parameters.",
 [K+"swap.go",T+"msgs.go",T+"util.go"],[("order placement",K+"swap.go"),("price limits",T+"util.go")],
 ["message result, new order record, balances"])
p("C13","Every order ends exactly once, with an exact refund, at the right time",
 "An order is executed in at least one batch, then stays open until it is completely filled, canceled, expired at the first batch at or after its expiry time, or its rest is too small to match; it is never matched after its expiry or after it ended. When it ends, its owner receives all remaining offer coins exactly once, a completed order has been filled completely, and the record disappears at the beginning of the next block while open orders are kept unchanged otherwise.",
 ["histories","inputs"],"every history of orders, batches and block times including exact boundary times",
 "Lifecycle transitions interact (expiry while partially matched, cancel in the next batch, batch sizes above one); tests cover single transitions.",
 [K+"swap.go",K+"batch.go",T+"request.go"],[("finish order",K+"swap.go"),("expiry sweep",K+"batch.go"),("deletion of ended records",K+"batch.go")],
 ["order records and owner balances before and after each step"])
p("C14","Only the owner can cancel, from the batch after placement, with full refund",
 "Canceling succeeds only for the order's own owner, for an existing order that is not already canceled and was placed in an earlier batch; it then refunds the remaining offer coins and changes nothing else. Canceling all orders affects exactly the signer's open orders of earlier batches in the named pairs (all pairs if none are named, an error if one does not exist), and no other user's order.",
 ["histories","inputs"],"every order state, signer, pair selection and point in the batch cycle",
 "Authorisation and selection must hold for every combination of owners, pairs, statuses and batches; tests use one or two.",
 [K+"swap.go"],[("cancel validation",K+"swap.go"),("iteration by orderer",K+"store.go")],["message result, order records, balances"])
p("C15","Deposit and withdrawal requests settle once, exactly and atomically",
 "A deposit or withdrawal request is accepted exactly under the documented conditions, escrows exactly the given coins, and is settled in the next batch: it either succeeds with the proportional amounts (accepted coins to the pool, the rest refunded, pool coins minted; or pool coins burned and coins paid from the pool) or fails with everything refunded. Requests of one batch settle one after another in request order against the reserves left by matching, and their records disappear at the beginning of the next block.",
 ["histories","inputs"],"every sequence of requests to basic and ranged pools in any state, including requests racing with each other, with trades, and with pool disabling",
 "Tests settle one request at a time on fresh pools.",
 [K+"pool.go",K+"batch.go",A+"pool.go"],[("request execution and finishing",K+"pool.go")],["request records, balances, supply"])
p("C16","Pairs and pools are created and disabled only under the documented rules",
 "A pair is created only for an ordered denom pair that does not exist yet; a pool is created only with coins of its pair, sufficient initial amounts, prices on ticks and within limits, no other active basic pool for a basic pool, and fewer than the maximum number of active pools; the creation fees go to the fee collector, ids are consecutive, and the creator receives the initial pool coins. A pool is disabled exactly when its pool coin supply or its reserves are exhausted when a batch touches it, is never enabled again, and a disabled pool neither trades nor accepts requests.",
 ["histories","inputs"],"every creation message in every reachable state, and every way of exhausting a pool",
 "Combination of limits, disabled pools and parameters is only sampled by single-case tests.",
 [K+"pair.go",K+"pool.go",A+"pool.go"],[("creation validation",K+"pool.go"),("disabling",K+"pool.go")],["message result, pair and pool records, balances"])
p("C17","Trading and other users' requests never dilute liquidity providers",
 "For every pool, the value of one pool coin measured by the pool's pricing curve (for a basic pool the product of reserves per squared pool coin supply) never decreases beyond integer rounding through matching, deposits and withdrawals, except for the payout of the last pool coin. A pool's balances change only by its own matched orders, its settled requests, and donations.",
 ["histories","inputs"],"every history of trades, deposits and withdrawals over basic and ranged pools",
 "Dilution appears as rounding leakage over many operations or in rare paths; no test measures it.",
 [A+"pool.go",K+"swap.go",K+"pool.go"],[("rounding in favour of the pool",A+"pool.go"),("pool settlement",K+"swap.go")],["pool reserves and supply around each step"])
p("C18","The market-making order count is exact and its limit is enforced",
 "For every orderer and pair, the recorded number of market-making orders equals the number of that orderer's open market-making orders in the pair after every message and block. A new market-making order is rejected exactly when the number of open ones has reached the maximum, and ending one in any way makes room for exactly one more.",
 ["histories"],"every history of market-making orders ending by fill, cancel, cancel-all, expiry or dust, in several pairs",
 "The counter is updated at several places; only long mixed histories show drift.",
 [K+"swap.go",K+"store.go"],[("counter updates",K+"swap.go")],["counter and open orders"])
p("C19","Nobody's coins move without their own message, order or request",
 "A user's balances change in a message only if the user signed it, and in block processing only by fills, refunds and settlements of the user's own orders and requests; pool creation fees, fills and refunds go to exactly the entitled accounts. A rejected message leaves all balances and records unchanged, and processing one pair's or pool's positions never alters those of another pair or pool.",
 ["histories","inputs"],"every history with several users, pairs sharing denoms, and rejected messages",
 "Cross-account and cross-pair leakage needs several users and pairs sharing denoms at once; tests mostly use one pair.",
 [K+"swap.go",K+"pool.go",K+"batch.go",T+"util.go"],[("per-order transfers",K+"swap.go"),("bulk transfers keyed by sender and receiver",T+"util.go")],["all balances around each step"])
p("C20","Parameters change only by the authority and only to usable values",
 "A parameter update is applied exactly when it is signed by the governance authority and every value is within its valid domain; then exactly the given parameters are in force and reported. A rejected update changes nothing, and no accepted parameter set can make message or block processing fail.",
 ["inputs","histories"],"every signer and every parameter set, valid or not, applied to any state and followed by further activity",
 "Tests check single invalid fields of the validator; acceptance, effect and later consequences for every value combination are not checked.",
 [T+"params.go",K+"params.go",K+"msg_server.go",K+"keeper.go"],[("authority check",K+"msg_server.go"),("parameter validators",T+"params.go")],["message result, parameters, later blocks"])
p("C21","Exporting and importing the state preserves everything",
 "For every reachable state, the exported module state is valid, importing it into a fresh chain and exporting again gives the identical state, and every lookup (by id, denoms, pair, reserve address, owner) answers as before. The imported chain continues exactly like the original under the same further messages and blocks.",
 ["histories"],"every reachable state at any point of a block cycle, any continuation",
 "A lost index or counter only shows in behaviour after import; tests import hand-made states.",
 [K+"genesis.go",M+"genesis.go",M+"module.go",T+"genesis.go"],[("export and import",K+"genesis.go"),("module genesis wiring",M+"genesis.go")],["exported state, queries, continued behaviour"])
p("C22","Inconsistent genesis states are refused",
 "A genesis state that breaks a documented consistency rule (invalid records or parameters, duplicate or out-of-range ids, references to missing pairs or pools, wrong coin denominations for their pair or pool, impossible batch numbers, zero counters) is refused by validation and by import. Every consistent state is accepted.",
 ["inputs"],"every consistent genesis state and every single-field corruption of it",
 "Tests list corruptions of one hand-made state; corruption must be found wherever it occurs in any state.",
 [T+"genesis.go",T+"pair.go",T+"pool.go",T+"request.go"],[("genesis validation",T+"genesis.go")],["validation result"])
p("C23","Queries report exactly the stored state, under every filter and pagination",
 "Every query returns exactly the records that satisfy its filters, with the values in the store (pool answers with the true reserves, supply, price and status), independent of how pages are cut, in either direction, with correct totals, and not-found or invalid-argument errors otherwise. Queries work for every reachable state and never change state.",
 ["histories","inputs"],"every reachable state, every query with every filter and pagination",
 "Tests query a small fixed state without pagination; index corruption, prefix collisions and special pool states are not reached.",
 [K+"grpc_query.go",K+"store.go",T+"keys.go",T+"util.go"],[("filtered pagination over prefixes",K+"grpc_query.go"),("index maintenance",K+"store.go")],["query responses versus state"])
p("C24","The order book query shows the true uncrossed liquidity per price level",
 "The order book reported for a pair shows, for each requested price unit, levels on multiples of that unit, sorted, at most the requested number per side, with positive amounts equal to the open user and pool amounts inside each level that remain after crossing orders are netted. Buy levels lie below sell levels, no liquidity is counted twice, and a coarser unit shows the same liquidity aggregated.",
 ["inputs","histories"],"every order book and pool set, every price unit and number of ticks",
 "Tests compare a few printed books; level boundaries depend on rounding at every magnitude.",
 [T+"orderbook.go",A+"view.go",K+"grpc_query.go"],[("order book view",A+"view.go"),("level construction",T+"orderbook.go")],["order book responses"])
p("C25","Store keys, addresses and pool coin names never collide and parse back",
 "Distinct objects have distinct store keys, no object's key lies under a lookup prefix of another owner, pair or denom, keys order by id, and every parsed key returns what it was built from. Escrow addresses, reserve addresses and pool coin names are distinct for distinct pairs and pools and pool coin names parse back to their pool only.",
 ["inputs"],"all ids, all addresses of lengths 1 to 255 and all valid denoms up to their maximum length",
 "Tests check a few hand-made keys; collisions depend on lengths and byte values.",
 [T+"keys.go",T+"pair.go",T+"pool.go"],[("length-prefixed big-endian keys",T+"keys.go"),("address derivation",T+"pair.go")],["keys, parsed values"])
p("C26","Messages and records survive every encoding unchanged",
 "Every message, record and genesis state decodes from its binary and JSON encodings to an equal value, both generated code families (the application's and the API module's) agree on the bytes, and every message resolves through the transaction codec with exactly its declared signer. Malformed bytes are rejected with an error, never with a crash or a differing re-encoding.",
 ["inputs"],"every value of every message and stored type, and arbitrary bytes",
 "Tests encode one instance of a few types; two independently generated code families must agree for all values.",
 ["x/dex/types/tx.pb.go","x/dex/types/dex.pb.go","x/dex/types/codec.go","api/defund/dex","proto/defund/dex"],[("generated marshalers","x/dex/types/tx.pb.go"),("codec registration",T+"codec.go")],["encoded bytes, decoded values"])
p("C27","Execution is deterministic across nodes",
 "Two independent application instances that process the same genesis and the same blocks of signed transactions report identical results, events, gas and application hashes at every height. The same holds when one of them is stopped after any committed block and reopened from its database.",
 ["histories","crash_points"],"every sequence of blocks of signed transactions and every restart point",
 "A dependence on map order, time or process state shows only for some histories; the repository's determinism simulation does not cover the exchange module.",
 ["app/app.go",M+"abci.go",K+"swap.go",A+"match.go"],[("ordered iteration in state changes",K+"batch.go"),("store commit","app/app.go")],["app hash, tx results, events"])
p("C28","The module's invariants hold on every reachable state and detect corruption",
 "All registered invariants report success after every message and block, and all of the module's invariants are registered with the crisis module's routes. If escrowed coins go missing, an exhausted pool is left enabled, or a market-making counter is wrong, the respective invariant reports it.",
 ["histories","fault_sequences"],"every reachable state; every corruption of the kinds named, of any size, at any point",
 "Tests corrupt one value in one small state.",
 [K+"invariants.go",M+"module.go"],[("invariants",K+"invariants.go"),("registration",M+"module.go")],["invariant results"])
p("C29","Events report exactly what happened",
 "Each accepted message emits its event with the ids, amounts, coins and refunds actually recorded, and block processing emits for every fill, pool fill, ended order and settled request exactly one result event whose amounts and statuses equal the actual changes of records and balances. Nothing that did not happen is reported.",
 ["histories"],"every message and every block of every history",
 "Indexers rely on events to reconstruct balances; tests check no event contents.",
 [K+"swap.go",K+"pool.go",K+"pair.go",T+"events.go"],[("event emission",K+"swap.go")],["emitted events versus state difference"])
p("C30","Each batch settles all open orders and pools of a pair by the batch rules",
 "In each batch, the open unexpired orders of a pair and the orders of all its active pools, and only those, are matched by the batch auction rules at prices within the limits around the last price; records, balances, last price and batch number afterwards are exactly the result of that matching. A pair's last price changes only when something matched, and the batch number increases by one per batch.",
 ["histories","inputs"],"every reachable state of a pair with several pools and orders of all statuses",
 "Tests match one or two orders with one pool; omissions (an order status, a second pool, the limits) need mixed states.",
 [K+"swap.go",K+"batch.go",T+"order.go",T+"pool.go"],[("collecting orders and pools, applying results",K+"swap.go")],["records and balances around a batch"])
p("C31","Shared numeric and transfer helpers obey their laws",
 "Queuing transfers and running them together moves exactly the same coins as running them one by one, in the order they were queued, and invalid or zero amounts move nothing. The shared helpers (overflow guards, square roots, share values, date ranges, random ranges, integer encodings, parsing, filtering) satisfy their documented definitions for every input.",
 ["inputs"],"every list of transfers over any accounts and coins; every argument of each helper",
 "These helpers have almost no tests of their own.",
 [T+"util.go","types/utils.go"],[("bulk send operation",T+"util.go"),("helpers","types/utils.go")],["balances, helper results"])
p("C32","Requests execute only on batch boundaries, in a fixed cycle",
 "Orders, deposits and withdrawals are executed only at blocks whose height is a multiple of the batch size, all of them then, and between batches their records and escrowed coins stay untouched; ended records are removed at every block beginning. Changing the batch size takes effect for the following blocks without losing or executing anything twice.",
 ["histories","configurations"],"every batch size, block height and interleaving of messages with blocks",
 "Tests use a batch size of one.",
 [M+"abci.go",K+"batch.go"],[("end block batch condition",M+"abci.go")],["records around each block"])
p("C33","Message validation accepts exactly the well-formed messages",
 "Stateless validation of each message type accepts a message if and only if all its documented conditions hold (valid addresses, non-zero ids, valid direction, denoms and coins, amounts within the minimum and maximum, an offer sufficient for price and amount, valid ranged pool prices, non-negative lifespan, no duplicate pair ids). Validation is deterministic and never modifies the message.",
 ["inputs"],"every message of every type with any single or combined field values, including boundary amounts",
 "Tests change one field at a time to one bad value.",
 [T+"msgs.go",A+"pool.go"],[("stateless validation",T+"msgs.go")],["validation result"])
p("C34","A whole-chain export can be restarted without loss",
 "Exporting the whole application at any height and initialising a new application from it reproduces all balances, exchange records and parameters, and the new chain continues to process blocks of transactions with the same results for the exchange. An export for restarting from height zero does the same apart from the block numbers.",
 ["histories","configurations"],"every reachable application state, both kinds of export, and every continuation",
 "The existing import/export simulation does not generate exchange activity.",
 ["app/export.go","app/app.go","app/app_config.go",M+"module.go"],[("app export","app/export.go"),("module wiring and account permissions","app/app_config.go")],["exported genesis, balances, app behaviour"])
p("C35","Only properly signed transactions act, each entirely or not at all",
 "A block of transactions changes the exchange exactly as the messages of its valid transactions do one after another, followed by one closing of the block by the exchange. A transaction whose signature, signer, sequence, account number, chain or signed content does not fit changes nothing, and one of which a message fails or whose gas runs out leaves no trace of its other messages.",
 ["histories","inputs"],"every block of transactions with single or several messages and signers, in every sign mode, with right and forged signatures and any gas limit",
 "The existing tests call the keeper directly and never process a signed transaction.",
 ["app/app.go","app/app_config.go",M+"abci.go",M+"module.go",K+"msg_server.go",K+"keeper.go","proto/defund/dex/tx.proto"],[("signer declarations","proto/defund/dex/tx.proto"),("message and block wiring","app/app_config.go"),("message handlers",K+"msg_server.go")],["transaction results, state after every block"])
p("C36","Commands and REST routes reach exactly the requests they describe",
 "Every transaction command builds exactly the message its arguments and flags describe, and refuses arguments which are malformed. Every query command and every REST route asks the query service exactly the question that its arguments, flags, path and parameters describe, and hands back its answer unchanged.",
 ["inputs"],"every command and route with every combination of well-formed and malformed arguments, flags and parameters",
 "No test runs a command or a route.",
 ["x/dex/client/cli/tx.go","x/dex/client/cli/query.go","x/dex/client/cli/util.go","x/dex/client/cli/flags.go",T+"query.pb.gw.go",M+"module.go"],[("transaction commands","x/dex/client/cli/tx.go"),("query commands","x/dex/client/cli/query.go"),("REST routes",T+"query.pb.gw.go")],["generated transactions, requests which reach the query service, printed answers"])
p("C37","Orders, deposits and withdrawals charge exactly their extra gas",
 "Every accepted order of any kind, deposit request and withdrawal request consumes exactly the order, deposit or withdrawal extra gas parameter more gas than it would without it, and no other message, and no block processing, charges these. The effects of a message do not depend on the extra gas parameters.",
 ["inputs","histories","configurations"],"every reachable state, every message, and every value of the three gas parameters",
 "The existing tests never look at the gas consumed.",
 [K+"pool.go",K+"swap.go",K+"params.go","x/dex/spec/08_params.md"],[("extra gas of requests",K+"pool.go"),("extra gas of orders",K+"swap.go")],["gas consumed by a message"])
p("C38","Delegated and joint authority acts exactly like the owner's signature",
 "A message carried out through another module (by a grantee with a live authorization, as part of a bundle, by the votes of a group, by a passed governance proposal, or signed jointly by enough members of a multisignature account) has exactly the effects that the same message signed by its owner alone has, and one without live authorization, with too few signatures or votes, from an outsider, after expiry or revocation, or while the circuit breaker disables its type, has none. A transaction's fee is taken exactly once, from the payer or from the granter of a live allowance which covers it, also when the transaction fails; only governance changes parameters.",
 ["inputs","histories"],"every history of blocks with delegated, bundled, joint, sponsored and disabled messages of all kinds",
 "Delegation runs through six other modules wired together with the exchange; no test exercises any of them.",
 ["app/app.go","app/app_config.go",M+"module.go",K+"msg_server.go"],[("wiring of the modules","app/app_config.go"),("circuit breaker and transaction handlers","app/app.go"),("authority over parameters",K+"msg_server.go")],["signed transactions, votes and proposals","complete state of all accounts, grants and allowances"])
p("C39","Coins crossing chains are conserved and every packet takes effect exactly once",
 "A transfer over an IBC channel takes exactly its amount from the sender: coins native to this end are held for the channel, vouchers which return to their origin are destroyed; receipt gives the receiver exactly the amount, once; a failure or a timeout gives it back to the sender, once. At all times the vouchers of every channel, wherever they are (also in orders, pools and escrows of the exchange), plus the amounts on their way equal what the other end holds, and every holder can send them back where they came from, also after restarts and after the state was exported and imported. Forged, altered, late, early and repeated packets, acknowledgements and timeouts have no effect. Fees promised for relaying a packet are held, and paid to the relayers or their payees, or returned, exactly once. The messages in a packet of an interchain account act exactly like the same messages signed by an owner, all of them or none, and only at the will of the account's owner.",
 ["inputs","histories","schedules","crash_points"],"every history of blocks with transfers, relays, fees and remote messages between trades, in every order of relaying",
 "The routes, permissions and keepers of the five IBC modules are wired by hand; no test sends a packet.",
 ["app/ibc.go","app/app_config.go","app/app.go","app/export.go"],[("IBC routes, fees and keepers","app/ibc.go"),("permissions of module accounts","app/app_config.go"),("export of the chain","app/export.go")],["signed transactions and packets between the ends of two transfer channels and a channel of an interchain account","complete state of all balances"])
for d in P: print(json.dumps(d))

#!/usr/bin/env python3
"""Source of tools/checks.json: python3 tools/gen_checks.py"""
import json, os
C = {}
def c(id, technique, rule, note, assumptions=None, thorough=800):
    C[id] = dict(technique=technique, rule=rule, note=note, assumptions=assumptions or [], thorough_scale=thorough)
REF = "rapid property test of the matching engine against an independent reference implementation of the batch auction"
HIST = "stateful rapid test of generated histories against an independent model of the exchange"
WORLD = ["histories have up to about 50 messages by four accounts on up to three pairs; batch size, fees, price limit, tick precision and the other parameters are generated",
         "message handlers are called through the message router on a cached context, blocks through the module's begin and end blockers"]
c("C01", REF, "at least one order is filled", "Generated books of up to about 60 orders (crossed, dust sized, partly consumed, several batches), amounts up to 40 digits.", ["prices and amounts are those ValidateBasic lets through"])
c("C02", REF, "at least one order is filled", "Conservation is recomputed from the orders after matching generated books; dust sized books are a large share.")
c("C03", REF, "two orders with different price or age of which the later is filled, or a price group with a partial fill shared by several orders", "Priority and pro rata shares are recomputed from the orders after matching.")
c("C04", REF, "the book crosses", "The clearing conditions are checked by direct summation over generated books, without reusing the engine's views.")
c("C05", "differential and metamorphic rapid test: independent reference implementation, permuted insertion, repeated execution", "the batch matches at least one order", "Every order's fill, payment and receipt, the price and the leftover are compared exactly.")
c("C06", "rapid property test against exact integer arithmetic plus a sweep around every power of ten", "a price off the grid or next to a power of ten", "Tick precisions 0 to 8 and the whole price range are generated.")
c("C07", "rapid property test of generated pools against exact rational arithmetic", "the pool quotes at least one order, or an amount to a price is compared", "Pools with reserves up to 31 digits, basic and ranged, limits around, beyond and far from the pool price.")
c("C08", "rapid property test of share arithmetic against exact rational arithmetic", "the deposit mints or the withdrawal pays something", "Amounts up to 40 digits, proportional, single-sided and rounding-critical ones.")
c("C09", "rapid property test of ranged pools against exact rational arithmetic", "the pool is within the precision of 18 decimals, or creation is refused", "The price is judged where 18 decimals can represent the reserves' ratio within 0.1%.", ["ranges whose reserves' ratio 18 decimals cannot represent are only checked for panics and balances"])
c("C10", HIST, "a block with a match or pending requests", "Escrow balances and supplies are recomputed from the records after every message and block.", WORLD)
c("C11", HIST + ", with extreme amounts and prices", "a block with a match or pending requests", "Histories with everyday, dust sized and extreme amounts, donations and prices must never make a block fail, panic or hang.", WORLD)
c("C12", HIST, "at least three accepted and one refused order message", "Acceptance and the effects of every order message are predicted and compared with the complete state.", WORLD)
c("C13", HIST, "an open order ends in a batch whose matching is settled", "The life of every order is followed through all messages and blocks.", WORLD)
c("C14", HIST, "a cancellation of at least one order is accepted", "Every cancellation is predicted, with complete state comparison.", WORLD)
c("C15", HIST, "a deposit or withdrawal request is settled", "Acceptance, escrow and settlement of every request are predicted with independent share arithmetic.", WORLD)
c("C16", HIST, "at least two creations are accepted and one is refused", "Creation and disabling of pairs and pools are predicted.", WORLD)
c("C17", HIST, "a pool trades or a request of it is settled", "The value of a pool coin is computed with 400 bit arithmetic before and after each block.", WORLD)
c("C18", HIST, "a market-making message arrives when the maximum is reached", "Counters are compared with the open market-making orders at every step.", WORLD)
c("C19", HIST + "; metamorphic deletion of another pair's messages", "balances move at least six times, or both pairs trade", "All balances of all accounts are compared at every step; histories are replayed without the other pair's messages.", WORLD)
c("C20", "rapid property test of generated parameter updates; " + HIST, "the update is refused or changes something; in histories, a block with a match or pending requests after an update", "Every field is drawn over its whole domain and outside it; histories run under wildly changing valid parameters.", WORLD + ["in histories tick precisions above 3 go with smaller price limits, since quoting pools takes time in proportion to the number of ticks"])
c("C21", HIST + "; round-trip and differential test of export and import", "the exported state has orders, pools and requests or counters; wide states have at least two pairs, pools and orders", "Histories are exported and imported midway, then both chains go on in step; generated states have extreme ids, addresses and denoms.", WORLD)
c("C22", "rapid property test of generated genesis states with one injected inconsistency", "an inconsistency is injected, or the consistent state has at least two pairs, pools and orders", "Consistent states with extreme values must be accepted, each of about 65 injected inconsistencies must be refused.")
c("C23", HIST + "; generated pages and filters of every query", "a query has several pages of records", "Every query is asked in histories and in generated states with extreme ids, with random filters, page sizes, offsets and directions, and compared with the complete state.", WORLD)
c("C24", "rapid property test of generated order books, and of the query in generated histories, against direct aggregation", "levels are aggregated or cut", "The uncrossed liquidity per level is recomputed with integers from the orders and pool orders.", WORLD + ["amounts are compared as the sum of the user and the pool amounts, which the system reports together", "where liquidity lies beyond the highest price, the tick gap beyond it is also accepted as the smallest unit"])
c("C25", "rapid property test of generated keys, addresses and names, against an independent statement of their layout", "several confusable owners, names or lookups with results", "Ids over the whole 64 bit range, addresses of 1 to 255 bytes, denoms which are prefixes of others; lookups run on a real store.")
c("C26", "rapid round-trip, differential and fuzz test of all encodings", "a non-empty encoding, a transaction, or damaged bytes which are refused", "All messages, records, queries and responses, through binary, JSON, the API module's code and the transaction codec, intact and damaged.")
c("C28", HIST + " with injected corruption", "a corruption is injected", "Invariants run at every step and after injected losses, wrong statuses and wrong counters.", WORLD)
c("C29", HIST, "at least four kinds of events occur", "The complete list of module events is derived from the state changes and compared.", WORLD)
c("C30", HIST, "a batch with a fill", "Each batch is recomputed with the reference auction on the records before it and compared with the records after it.", WORLD)
c("C31", "rapid property test of the helpers against exact arithmetic and direct definitions; metamorphic test of joined transfers", "transfers are joined or refused, numbers overflow, or a helper is compared with its definition on a non-trivial value", "Queued transfers are compared with the same transfers sent one by one on a copy of the chain; numbers have up to 90 digits.")
c("C32", HIST, "a batch with a batch size above one and open orders or pending requests", "Executed blocks are compared with the heights divisible by the batch size, which is changed by parameter updates on the way.", WORLD)
c("C33", "rapid property test of generated messages against the documented conditions", "the message has a flaw, or is of the largest size", "All ten kinds of messages; each part may be malformed, boundary values are favoured.", ["prices and amounts are set; a message with unset ones is refused when it is decoded"])
NET = ["blocks are finalized and committed by the whole application on an in-memory database, without the consensus engine; messages are previewed on the main node to draw meaningful ones"]
c("C27", "stateful rapid differential test: the same generated blocks on several nodes, restarted nodes and a fresh process", "at least three successful transactions and one failing one or a restart", "Blocks of signed transactions run on nodes with different histories (restarts, snapshots of the database, fresh processes); digests of state, results and events must agree.", NET, thorough=400)
c("C34", HIST + "; round-trip and differential test of the whole application's export and import", "records are pending and pools are stored at the export", "Whole-application exports, for zero height and for continuing, are started on a new chain and compared in state and in further blocks.", NET, thorough=400)
c("C35", "stateful rapid test of signed transactions with injected forgeries against an independent model", "forgeries and successful transactions occur", "Forged, replayed, underpaid and failing transactions are mixed with good ones; the complete state must change by exactly the good ones.", NET, thorough=400)
c("C37", "metamorphic rapid test of gas consumption in generated histories", "at least two kinds of messages are measured", "The same message runs on two copies of the chain whose extra gas parameters differ; the gas used must differ by exactly the difference.", WORLD)
c("C36", "rapid round-trip and differential test of generated command lines and REST requests", "a message is built or arguments are refused; an answer with records", "Messages are written as command lines and compared with the transaction built; questions are asked by command and by route, and the requests reaching the node and the answers compared.", ["commands are run in process with a node which answers queries from a generated state", "the output format is JSON"])
c("C38", "stateful rapid test of delegated, joint and sponsored transactions, with injected refusals, against the model of direct ones", "delegated messages succeed and attempts without authority are refused", "Grants, bundles, group votes, multisignatures, allowances, governance proposals and the circuit breaker are mixed with ordinary transactions; the complete state is predicted.", NET, thorough=400)
c("C39", "stateful rapid test of IBC transfers, relay fees and interchain accounts, with forged, late and repeated relays, against an independent model", "a packet is received and one is settled, between trades", "The chain is connected with itself; coins go over two channels and are traded as vouchers, packets are relayed in any order or not at all, and the complete state is predicted after every step.", NET + ["the chain is connected with itself over the localhost connection, light clients are not run"], thorough=400)
json.dump(C, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json"), "w"), indent=1)

import json
S='src/invariant_service.rs'; ST='src/invariant_storage.rs'
PO='src/contracts/storage/pool.rs'; PS='src/contracts/storage/position.rs'; TI='src/contracts/storage/tick.rs'
TM='src/contracts/collections/tickmap.rs'; TK='src/contracts/collections/ticks.rs'; PL='src/contracts/collections/positions.rs'
PK='src/contracts/collections/pool_keys.rs'; PC='src/contracts/collections/pools.rs'; FT='src/contracts/collections/fee_tiers.rs'
CL='calc/math/clamm.rs'; SP='calc/math/types/sqrt_price.rs'; LG='calc/math/log.rs'; FG='calc/math/types/fee_growth.rs'
LR='src/contracts/logic/liquidity_result.rs'; DC='calc/decimal/decimal_core/src'; SPL='calc/math/types/seconds_per_liquidity.rs'
SDK='sdk/src/wasm'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
MSG=["replies, events and outgoing messages of the compiled contract program","the contract's read-only queries after every message"]
p("P01","Solvency: the exchange can always pay everyone in full",
 "For every token, what the exchange has actually received and not yet paid out always covers everything it owes: all user balances, the principal and unclaimed fees of every open position, the undistributed protocol fees and the withdrawals still in flight. From any reachable state everyone can close all positions, collect all fees and withdraw all balances, in any order, and every such operation succeeds.",
 ["histories","inputs"],"all finite histories of operations by any users on any pools, fee tiers and amounts, including token transfers that fail, time out or are answered late; and all exit orders after them",
 "The e2e tests check a few hand-computed swaps and removals; solvency is a sum over all holders after arbitrary histories whose rounding errors accumulate.",
 [S,ST,PO,PS,CL],[("rounding in favour of the pool",CL+": get_delta_x, get_delta_y, compute_swap_step"),("balance ledger",ST+": increase_token_balance, decrease_token_balance"),("fee growth floor",FG+": from_fee, to_fee")],
 [("balances","internal ledger of deposited tokens",ST),("awaiting_transfers","transfers in flight",ST)],MSG)
p("P02","Operations only touch what belongs to their caller",
 "An operation changes only the balances (in the tokens it concerns) and positions of the account that sent it (and of an explicitly named receiver of a transferred position), only the pool it names, and no pool of which it is not part. Nobody can lower another account's balance, or alter, move or lose another account's positions or claimable amounts except by trading through the shared pool.",
 ["histories","inputs"],"all histories of several users and pools interleaving every operation; after each one all other users', pools' and ticks' state is compared",
 "Tests mostly use one or two users and never compare the whole rest of the state after an operation.",
 [S,ST,PL,TK],[("caller is the message source",S+": exec_context.actor_id()"),("keys contain owner and pool",PL+", "+TK+", "+TM)],
 [("positions","(owner,index) -> position",PL),("balances","owner -> token -> amount",ST)],MSG)
p("P03","Swaps pay the curve amount, rounded against the trader",
 "A swap's amounts are those of the concentrated-liquidity curve over every liquidity segment it passes plus the fee, each rounded against the trader: the amount paid in is never below and the amount received never above the exact value. An exact-input swap takes exactly the offered amount and an exact-output swap delivers at most the requested amount and never less than promised; the trader's balances change by exactly the reported amounts.",
 ["inputs","histories"],"all pool states (liquidity, prices, ticks, fees), amounts, directions and swap modes reachable by histories, up to the numeric limits",
 "Unit tests pin a handful of constants; the quantifier is over all prices, liquidities, fees and amounts and over multi-segment paths.",
 [ST,CL,PO,S],[("step computation",CL+": compute_swap_step, get_next_sqrt_price_*"),("swap loop",ST+": calculate_swap"),("leftover on boundary",PO+": update_tick")],None,MSG)
p("P04","Swaps move the price only the right way and never past the limit",
 "A swap moves the pool price only in its own direction, never beyond the caller's price limit and never beyond the supported range; if it cannot be filled completely within the limit it fails as a whole. After every operation the pool's current tick and price agree: the price lies between the price of the current tick and that of the next multiple of the tick spacing (with equality at the upper end only after a downward-stopped crossing), and every tick strictly inside the traversed interval was crossed exactly once.",
 ["inputs","histories"],"all pool states, limits, directions and amounts, including limits equal to or next to tick prices and to the range ends",
 "Limits, tick boundaries and direction changes interact; tests cover a few swaps around tick 0.",
 [ST,PO,TM,LG],[("limit checks",ST+": calculate_swap"),("tick after step",PO+": update_tick"),("limit selection",TM+": get_closer_limit")],[("sqrt_price/current_tick_index","pool price and tick",PO)],MSG)
p("P05","Active liquidity and ticks always equal the sum over open positions",
 "In every pool and at all times the active liquidity equals the total liquidity of the open positions whose range contains the current tick; each tick's gross and net liquidity equal the sums over the positions that start or end there. A tick exists exactly while some open position uses it as a boundary.",
 ["histories"],"all histories of opening, closing, transferring, claiming and swapping across ticks in both directions, by many users on many pools",
 "The accounting is incremental (crossings add and subtract); tests check it at a few points of a few histories.",
 [TI,PO,PS,S,ST],[("crossing",TI+": cross"),("tick update",TI+": update"),("pool update",PO+": update_liquidity"),("tick (de)initialisation",S+": create_position, remove_position")],[("liquidity","active liquidity",PO),("liquidity_change/liquidity_gross","tick liquidity",TI)],MSG)
p("P06","The tick bitmap mirrors initialised ticks and finds the nearest one",
 "A bit in a pool's tick bitmap is set exactly for the ticks that currently exist, for every tick spacing and up to both ends of the range, and pools never share bits. The search used by swaps returns the nearest initialised tick in the trade direction within the search range (the current tick included when going down, excluded when going up), or reports that there is none.",
 ["inputs","histories"],"all ticks, spacings 1..100 and bitmap contents; all histories that initialise and remove ticks",
 "Chunk borders, search-range borders and range ends differ for every spacing; tests fix a few spacings and ticks.",
 [TM,ST],[("bitmap",TM+": tick_to_position, flip"),("search",TM+": next_initialized, prev_initialized, get_search_limit, get_closer_limit")],[("bitmap","chunk -> 64 bits",TM)],["tickmap and tick queries","public functions of the tick bitmap"])
p("P07","Trading fees go pro rata to the liquidity that was in range, and to no one else",
 "Every swap fee, less the protocol's share, is credited to the positions whose range contained the price when the fee was paid, in proportion to their liquidity, and to no other position. A position opened later, outside the range or already closed receives nothing of it, also after the fee counters have wrapped around, and the total credited never exceeds the fees paid.",
 ["histories","inputs"],"all histories of overlapping positions, swaps crossing their borders in either direction, and counters anywhere in their modular range",
 "Attribution depends on the whole crossing history; tests cover single-position and one-crossing cases and no wrap-around through the contract.",
 [PO,TI,FG,PS,ST],[("fee growth",PO+": add_fee; "+FG+": from_fee"),("outside growth flip",TI+": cross, create"),("inside growth",FG+": calculate_fee_growth_inside")],[("fee_growth_global_*","fees per unit of liquidity, modulo 2^128",PO),("fee_growth_outside_*","growth on the other side of the tick",TI)],MSG)
p("P08","Claiming or closing pays each position its accrued fees exactly once",
 "Claiming credits the owner with exactly the fees the position has accrued since it was opened or last claimed, rounded down, and a second claim without trading in between pays nothing. Closing a position pays its principal plus exactly the fees not yet claimed, and neither claiming nor closing changes what other positions are owed.",
 ["histories"],"all histories interleaving claims, removals, transfers, opening of other positions on the same ticks, and swaps",
 "Tests claim once after one swap; repeated claims, shared ticks, transfers and removals in all orders are not explored.",
 [PS,S,FG],[("accrual on touch",PS+": modify, update, claim_fee, remove"),("payout",S+": claim_fee, remove_position")],[("fee_growth_inside_*, tokens_owed_*","fee checkpoint of a position",PS)],MSG)
p("P09","Protocol fee: the configured share of every fee, paid out once to the receiver",
 "Of every swap fee the protocol takes exactly the configured share, rounded up, and never more than the fee. The accumulated amount can be withdrawn only by the pool's fee receiver, is credited to it exactly once and in full, and withdrawing changes nothing else in the pool.",
 ["histories","inputs"],"all protocol-fee settings changed at any time between swaps, all receivers and pools",
 "Tests use one fee setting and one withdrawal.",
 [PO,S],[("protocol share",PO+": add_fee"),("withdrawal",PO+": withdraw_protocol_fee; "+S+": withdraw_protocol_fee")],[("fee_protocol_token_*","accumulated protocol fee",PO)],MSG)
p("P10","Opening and closing positions charges and pays the exact liquidity value",
 "Opening a position charges exactly the token amounts its liquidity represents at the current price, rounded up, and is refused when the price is outside the caller's slippage bounds, the range is invalid or the balances do not suffice. Closing pays the amounts rounded down, so that opening and closing without trading in between never yields a profit in either token; only the sides of the range that can hold a token are charged in it.",
 ["inputs","histories"],"all ranges, spacings, liquidities, prices and slippage bounds, up to the numeric limits",
 "The e2e tests fix a few ranges and liquidities; rounding and boundary placement vary with all of them.",
 [PS,CL,PO,S],[("amounts",CL+": calculate_amount_delta, get_delta_x, get_delta_y"),("slippage",PS+": create")],None,MSG)
p("P11","Positions are never lost, duplicated or owned by two accounts",
 "Each open position is listed exactly once, under its owner, at indexes 0..n-1 without gaps; opening appends, closing or transferring removes it from the owner's list by moving the last entry into its place, and a transfer appends the unchanged position to the receiver's list. Only the owner can close, claim or transfer a position.",
 ["histories"],"all interleavings of open, close, transfer (also to oneself) and claim by several accounts at every index",
 "List edits are order-dependent; tests exercise fixed short sequences.",
 [PL,S],[("list",PL+": add, remove, transfer, update")],[("positions, positions_length","per-owner list",PL)],MSG)
p("P12","A quote predicts the swap exactly and changes nothing",
 "For the same arguments and state a quote fails exactly when the swap would fail on the pool itself, and otherwise reports the very input, output, final price and crossed ticks the swap then produces. Quotes never change any state.",
 ["inputs","histories"],"all states, amounts, directions, modes and limits",
 "Tests compare one quote with one swap.",
 [S,ST],[("shared computation",ST+": calculate_swap"),("quote",S+": quote")],None,MSG)
p("P13","Routed swaps are atomic, chained and respect the minimum output",
 "A routed swap feeds each hop's whole output into the next hop and either executes all hops or none of them; it succeeds only if the final output is at least the expected amount reduced by the slippage tolerance. Its effect equals executing the same exact-input swaps one after the other, and over distinct pools the route quote predicts its output.",
 ["inputs","histories"],"all routes (length, repeated pools, directions), amounts, expectations and tolerances, with any hop failing",
 "Tests use one two-hop route; failures at later hops and boundary tolerances are not explored.",
 [S,CL],[("route",S+": route, swap_route, quote_route"),("minimum",CL+": calculate_min_amount_out")],None,MSG)
p("P14","A failed operation leaves no trace",
 "Whenever an operation is refused or fails (invalid arguments, missing rights or funds, arithmetic limits, unmet price limits, too little gas for a transfer), all balances, positions, pools, ticks, configuration and pending transfers are exactly as before and no event or transfer request is emitted. The same request issued again in the same state fails again.",
 ["inputs","histories"],"all operations with all kinds of invalid or unlucky arguments in all reachable states",
 "Tests assert the error value but hardly ever that nothing else changed.",
 [S,ST],[("panic rolls back",S+": panicking!, panicking_async!"),("early gas check",S+": transfer_single_token, transfer_token_pair")],None,MSG)
p("P15","A token deposit is credited exactly once, if and only if the token confirmed it",
 "Every deposit is credited to the depositor in the requested amount exactly once if the token program confirms the transfer, and not at all if it refuses, fails, answers with an error or something unintelligible, or never answers. This holds for single and paired deposits, whatever the order and delay of the answers, including answers after the caller's request has timed out, and whatever other operations run in between.",
 ["schedules","fault_sequences","histories"],"all interleavings of requests, token answers of every kind and delay (also past the timeout), block advances and other users' operations, with several transfers in flight",
 "Tests answer immediately and in order; late, reordered, duplicated and error answers are schedules and faults.",
 [S,ST],[("reply hook",S+": reply_handler, handle_valid_reply, handle_panic"),("request",S+": send_transfer_token_message, handle_transfer_result, deposit_*")],[("awaiting_transfers","transfers in flight",ST)],MSG)
p("P16","A withdrawal is delivered or refunded, exactly once",
 "A withdrawal request takes the amount from the user's balance before asking the token program to transfer it, so it cannot be spent twice. If the token program refuses the transfer or answers with any kind of error, at any time, the full amount is returned to the balance exactly once; if it confirms, it is never returned; in a paired withdrawal each token is settled on its own.",
 ["schedules","fault_sequences","histories"],"all interleavings as for deposits, incl. several withdrawals by one user in flight, refusals, error answers with arbitrary content and answers after the timeout",
 "Tests cover immediate success and one failing token; delayed and error answers with other content are not explored.",
 [S,ST],[("debit up front",S+": withdraw_single_token, withdraw_token_pair"),("refund",S+": handle_valid_reply, handle_panic")],[("awaiting_transfers","transfers in flight",ST)],MSG)
p("P17","Native coin deposits and withdrawals move exactly the value attached",
 "Depositing the native coin credits exactly the value attached to the message; withdrawing debits exactly the amount asked for (or everything) and returns exactly that value to the caller, never more than its balance. The native coin cannot be deposited or withdrawn through the token-transfer operations.",
 ["histories","inputs"],"all sequences of native deposits, withdrawals, pools using the native coin and attempts to pass its address to token operations",
 "Tests cover one deposit and withdrawal and replace the reply by another code path.",
 [S],[("deposit",S+": deposit_vara"),("withdraw",S+": withdraw_vara"),("guard",S+": transfer_single_token, transfer_token_pair")],[("balances under the zero address","native coin balances",ST)],MSG)
p("P18","Only the administrator configures, only the fee receiver collects",
 "Changing the protocol fee, adding or removing fee tiers and changing a pool's fee receiver succeed only for the administrator fixed at creation; collecting protocol fees succeeds only for the pool's current fee receiver. Rights are decided by the sender of the message alone and a refused attempt changes nothing.",
 ["inputs","histories"],"all senders and arguments of every privileged operation in all states, incl. after the receiver has changed",
 "Tests try one non-admin per operation in one state.",
 [S],[("admin check",S+": is_caller_admin"),("receiver check",S+": withdraw_protocol_fee")],[("config.admin, fee_receiver","rights",S)],MSG)
p("P19","Pools and fee tiers are created once, validly, and never altered by others",
 "A fee tier is accepted only with a spacing from 1 to 100 and a fee below 100%, at most once; removing a tier prevents new pools but leaves existing pools fully usable. A pool is created at most once per unordered token pair and tier, with distinct tokens, an existing tier, a valid initial tick and a price within that tick, starting empty at the tick's price, with the administrator as fee receiver; pools never disappear.",
 ["inputs","histories"],"all tiers, token orders, ticks and prices around the boundaries for every spacing; all orders of adding and removing tiers and creating pools",
 "Boundaries differ per spacing and tick; tests use a few fixed values.",
 [S,PO,FT,PK,PC,SP],[("checks",S+": add_fee_tier, create_pool"),("init price",PO+": create; "+SP+": check_tick_to_sqrt_price_relationship"),("sorted key","src/contracts/storage/pool_key.rs: new")],[("fee_tiers, pools, pool_keys","registries",ST)],MSG)
p("P20","Every query shows the same, complete state",
 "All queries agree with one another and with the effects of past operations: pages of pools and positions partition the full lists for every page size and offset, counts match, positions are shown with their own pool and ticks, all-pools-for-pair lists exactly the existing pools of active tiers in either token order, tick queries list exactly the initialised ticks. Queries change nothing.",
 ["histories","inputs"],"all reachable states; all offsets, sizes, owners, pools and tick lists",
 "Tests check pagination for fixed lists; counts and joins across structures for arbitrary states are not compared.",
 [S,ST,PL,PK],[("queries",S+": get_*"),("slices",PL+": get_slice; "+PK+": get_all"),("tick count",ST+": liquidity_ticks_count, tickmap_slice")],None,MSG)
p("P21","Tick and price conversions are exact, monotone and mutually inverse",
 "Every supported tick has one price, as defined by the protocol's constants, strictly increasing with the tick and within the relative error of the fixed-point constants of 1.0001^(tick/2); out-of-range ticks are refused. For every price in range and every spacing, the tick computed from it is the largest multiple of the spacing whose price does not exceed it.",
 ["inputs"],"all 443,637 ticks; for prices: every tick price, its neighbours and interior points, for every spacing 1..100; all out-of-range inputs",
 "Tests sample a few dozen ticks and prices.",
 [SP,LG],[("tick to price",SP+": calculate_sqrt_price"),("price to tick",LG+": get_tick_at_sqrt_price")],None,["public math functions"])
p("P22","Arithmetic at the extremes is exact or refused, never wrapped",
 "Whatever the sizes of liquidity, price, amount or fee, every operation either yields the exact (rounded) result or is refused; no balance, liquidity or fee amount ever wraps around or is silently truncated. The liquidity referencing one tick stays below the cap that keeps the total over all ticks representable.",
 ["inputs","histories"],"all operations with amounts, liquidities and prices up to the limits of their types and at the ends of the tick range",
 "Overflow conditions are combinations of several extreme inputs; tests try a few corner values per function.",
 [CL,SP,FG,TI,ST,DC],[("checked arithmetic",CL+", "+SP+", "+FG),("cap",CL+": calculate_max_liquidity_per_tick; "+TI+": calculate_new_liquidity_gross")],None,MSG+["public math functions"])
p("P23","The SDK's swap simulation predicts the contract's swap",
 "Given the current fee tier, pool, tick bitmap and ticks, the client SDK's simulation of a swap reports the same input, output, fee, final price and crossed ticks as the contract would produce. When the contract would refuse (insufficient liquidity, limit reached) the simulation says so instead of promising an amount.",
 ["inputs","histories"],"all contract states reachable by histories and all swap arguments within the SDK's step budget",
 "The SDK copies the contract's algorithm; its tests use a few fixed pools and never compare it with the contract.",
 [SDK+"/swap.rs",SDK+"/storage/pool.rs",SDK+"/clamm.rs",SDK+"/collections/tickmap.rs",ST],[("simulation",SDK+": simulate_invariant_swap"),("contract",ST+": calculate_swap")],None,["SDK function results against the compiled contract"])
p("P24","SDK calculators agree with the contract's own accounting",
 "The client SDK's functions for claimable fees, token amounts of a position, tick and price conversion, tick limits, bitmap positions, liquidity and price limits return exactly what the contract's accounting yields for the same inputs. In particular the fee it shows for a position equals what claiming pays.",
 ["inputs","histories"],"all inputs of each function; fee and amount functions on all states reached by histories",
 "SDK and contract are separate copies; SDK tests check constants only.",
 [SDK+"/math.rs",SDK+"/helpers.rs",SDK+"/clamm.rs",SDK+"/log.rs",SDK+"/types/sqrt_price.rs"],[("calculators",SDK+": calculate_fee, calculate_token_amounts, ...")],None,["SDK function results against the specification and the contract"])
p("P25","Events tell exactly what happened",
 "Every successful swap, position opening and position closing emits exactly one event of its kind (plus one tick-crossing event listing the crossed ticks in order when there are any), with the caller, pool, amounts, fee, prices and time of that very operation. No other operation and no failed operation emits events.",
 ["histories","inputs"],"all operations in all states; multi-crossing swaps; routed swaps",
 "Tests compare events of a few operations.",
 [S],[("notifications",S+": notify_on in create_position, remove_position, swap")],None,MSG)
p("P26","Liquidity computed from token amounts never costs more than offered",
 "Computing a position's liquidity from an amount of one token (and, where both are given, of both) yields the largest liquidity, up to rounding, whose cost does not exceed that amount, together with the amount of the other token it needs at the current price. Ranges in which the given token cannot be used are refused.",
 ["inputs"],"all amounts, ranges, prices and rounding modes",
 "Tests pin a few constants.",
 [LR,SDK+"/math.rs"],[("from amounts",LR+": get_liquidity, get_liquidity_by_x, get_liquidity_by_y")],None,["public functions of the liquidity helpers (contract library and SDK)"])
p("P27","Fixed-point arithmetic rounds as declared and rejects overflow",
 "For every decimal type, multiplication, division and rescaling return the exact quotient rounded in the declared direction (down, or up for the up-variants), conversions between scales and widths preserve the value, and results that do not fit the type are rejected rather than truncated.",
 ["inputs"],"all pairs of values of each decimal type, concentrating on boundaries of the 64-bit limbs, of the scale and of the type",
 "Macro-generated code instantiated for many types; tests check a few small values each.",
 [DC+"/ops.rs",DC+"/big_ops.rs",DC+"/checked_ops.rs",DC+"/factories.rs",DC+"/uint_casts.rs",DC+"/others.rs","calc/decimal/src/uint.rs"],[("generated operations",DC)],None,["public operations of the decimal types"])
p("P28","Times recorded in pools, ticks and positions are consistent",
 "A pool keeps its creation time, and its last-change time is the time of the last position change or crossing and never decreases; a position records the block it was opened in. The time a tick has spent on its far side is tracked so that the time spent inside any range can be recovered exactly from its two ticks, whatever crossings happened in between.",
 ["histories"],"all histories with arbitrary clock advances, crossings and tick (re)initialisations",
 "Tests keep the clock nearly constant.",
 [TI,PO,PS,SPL],[("crossing",TI+": cross, create"),("last change",PS+": modify")],[("seconds_outside, start_timestamp, last_timestamp","time bookkeeping",TI)],MSG)
p("P29","Token program: only authorised mints/burns, supply equals sum of balances",
 "The bundled example token program mints, burns and transfers only as its caller is authorised to, and its total supply always equals the sum of balances.",
 ["histories"],"all operation histories of the example token","Tests of the token cover few sequences.",
 ["extended-vft"],[("token service","extended-vft/app")])
p("P30","TypeScript client encodes requests and decodes replies faithfully",
 "The TypeScript client sends exactly the requested operation and arguments to the contract and returns exactly the contract's reply and state.",
 ["inputs"],"all operations and arguments","TypeScript tests need a running node.",
 ["sdk/src/invariant.ts"],[("client class","sdk/src/invariant.ts")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

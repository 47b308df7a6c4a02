#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the JSON stays well formed)."""
import json, os
OB="program/src/state/orderbook.rs"; CB="program/src/state/critbit.rs"; EQ="program/src/state/event_queue.rs"
P="program/src/processor/"; MS="program/src/state/market_state.rs"; ST="program/src/state.rs"; UT="program/src/utils.rs"
INS="program/src/instruction.rs"; ENT="program/src/entrypoint.rs"; DSP="program/src/processor.rs"
R=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    R.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Best price first, then oldest first",
 "An incoming order trades only with the best-priced resting orders of the opposite side, and among equal prices with the one posted earliest. No resting order is ever passed over while a worse-priced or younger one on its side is filled or taken out by that incoming order, and a resting order is used up (or taken out) before the next one is touched. This holds after any history of postings, fills, evictions and cancellations.",
 ["histories","inputs","schedules","configurations"],"every sequence of orders and cancellations from any number of traders, in any arrival order, on any book size and price range",
 "the unit tests place at most three orders with hand-picked prices; priority depends on the tree shape and id sequence left by the whole history",
 [OB,CB,EQ],[("best-offer lookup","OrderBookState::find_bbo / Slab::find_min_max"),("price and sequence packed in the order id, inverted for bids","EventQueue::gen_order_id"),("tree descent","Slab::insert_leaf, InnerNode::walk_down")],
 [("order id","price in the high 64 bits, arrival sequence in the low 64",EQ)],["fill and out events pushed by one order"])
p("C02","No order trades beyond its limit price or its size caps",
 "Every fill of an incoming order happens at a price no worse than that order's limit price. The base and quote amounts filled plus the amounts posted never exceed the order's maximum base and maximum quote quantities.",
 ["inputs","histories","configurations"],"every order (any 64-bit quantities, prices, caps and flags) against every reachable book",
 "the tests use a handful of round numbers; overshoot shows only for particular combinations of caps, rounding and book contents",
 [OB,P+"new_order.rs"],[("crossing test and capped trade size","OrderBookState::new_order"),("capped posting size","OrderBookState::new_order")],None,["fill events and the returned summary"])
p("C03","Every fill is exact, and matching goes on as far as it may",
 "Each fill is at the resting order's own price and for the largest base amount allowed by the resting quantity and by what the incoming order may still take in base and in quote; its quote amount is base times price rounded up when the taker buys and down when the taker sells. Matching stops only when the opposite side is empty or no longer crossed, the match limit is used up, or the next fill would be worth nothing in base or in quote.",
 ["inputs","histories","configurations"],"every order against every reachable book, over the full 64-bit range of prices and quantities",
 "the tests check a few fills with prices that are whole numbers, where all rounding modes agree",
 [OB],[("trade size and quote computation","OrderBookState::new_order")],None,["fill events"])
p("C04","Each unit of a posted order is accounted for exactly once",
 "At every moment the quantity with which an order was posted equals what is still resting plus what fill events reported for it plus what its single out event or its single cancellation returned. An order leaves the book only by an out event or a cancellation, exactly one of them, and no event ever refers to an order that was not resting or reports another amount or side than the order had.",
 ["histories","schedules","fault_sequences"],"every history of orders, cancellations, evictions, event consumption, duplicated, dropped, reordered and aborted transactions",
 "a conservation law over whole histories; tests follow single orders for two or three steps",
 [OB,P+"cancel_order.rs",P+"mass_cancel_orders.rs",CB,EQ],[("fill/out event emission next to every quantity change","OrderBookState::new_order"),("removal by id","Slab::remove_by_key")],
 [("resting base quantity","what is left of the order",CB)],["event queue, book accounts and returned summaries"])
p("C05","The book is never crossed",
 "After every successful operation the best bid price is strictly below the best ask price. An order is posted only if, at that moment, no opposite order is at or better than its limit price.",
 ["histories","inputs","schedules"],"every interleaving of orders, cancellations and evictions, including orders cut short by their match limit or by self-trade rules",
 "tests look at the spread twice; a crossed book needs a particular early exit of matching combined with posting",
 [OB],[("crossed flag gating the posting step","OrderBookState::new_order")],None,["book accounts, spread query"])
p("C06","Order identifiers are unique and say what they are",
 "Every order posted to a market receives an identifier never used before in that market, whatever happened in between (consumption of events, evictions, cancellations, emptying of the book). From the identifier alone one can read the order's limit price and side, and for equal prices the identifiers keep arrival order; the order stays in the book under that identifier until it is used up, taken out or cancelled.",
 ["histories","schedules","configurations"],"every history over the market's lifetime, including very long ones (high sequence numbers) and orders refused because the book is full",
 "uniqueness over a lifetime is not a property of a few samples; tests never look at more than a few identifiers",
 [EQ,ST,CB],[("sequence counter in the queue header","EventQueue::gen_seq_num / gen_order_id"),("side read from the identifier","get_side_from_order_id")],
 [("sequence counter","number of identifiers issued",EQ)],["returned summaries, book accounts"])
p("C07","The order summary tells exactly what was done",
 "The summary returned for a new order reports precisely the base and quote amounts of the fills it caused plus the amount posted (valued at its limit price, rounded up for bids and down for asks), the posted base amount on its own, and the identifier of the posted order if and only if one was posted. The summary of a cancellation reports exactly the quantity that was resting and its value at the order's price rounded down; that of a mass cancellation reports the sums.",
 ["inputs","histories","configurations"],"every order, cancellation and mass cancellation on every reachable market state",
 "callers move money by the summary alone; tests compare it for about ten hand-made cases",
 [OB,P+"new_order.rs",P+"cancel_order.rs",P+"mass_cancel_orders.rs"],[("remaining-quantity bookkeeping","OrderBookState::new_order"),("cancel summaries","cancel_order::process, mass_cancel_orders::process")],None,["returned or serialized summaries against events and book accounts"])
p("C08","Self-trade rules are honoured",
 "When an incoming order reaches a resting order with the same callback identity: in the cancelling mode they never trade, the resting order is taken out whole with an out event and matching continues past it, using one unit of the match limit; in the aborting mode the whole operation is refused. In the decrementing mode, and whenever identities differ, they trade normally, whatever the other callback bytes are.",
 ["inputs","histories","configurations"],"every mix of own and foreign resting orders, modes, match limits and callback types (identity equal to or only part of the callback information)",
 "tests meet one own order at the top of the book, with a callback type whose identity is the whole object",
 [OB],[("identity comparison and the three behaviours","OrderBookState::new_order"),("identity projection","CallbackInfo::as_callback_id")],None,["events, book accounts, error results"])
p("C09","A full book gives up only its worst order, only for a better one",
 "When a side of the book is full, a new order to be posted takes the place of the least aggressive order of that side (the youngest at the worst price) only if its own price is strictly more aggressive; that order then leaves with an out event reporting its whole remaining quantity. Otherwise the new order is simply not posted, and nothing in the book changes beyond its fills.",
 ["histories","inputs","configurations"],"every way of filling a side of any capacity, and every next order",
 "tests fill a book of two orders once per side; ties in price, partially filled victims and orders that trade before they are posted are not reached",
 [OB,CB],[("eviction branch","OrderBookState::new_order"),("allocation failure","Slab::allocate_leaf")],None,["out events, book accounts"])
p("C10","Posting rules are honoured",
 "A post-only order never trades, and rests only if it does not cross; an order not allowed to post never rests; no order uses more resting orders than its match limit. Otherwise what remains is posted, for the remaining base amount but no more than the remaining quote amount buys at the limit price, exactly when the opposite side was seen to be empty or no longer crossed before the match limit ran out and that amount reaches the market's minimum order size.",
 ["inputs","histories","configurations"],"every combination of flags, match limits, caps and book contents",
 "the tests exercise three flag combinations",
 [OB,P+"new_order.rs"],[("flag handling and posting size","OrderBookState::new_order")],None,["book accounts, events, summary"])
p("C11","No resting order is smaller than the market minimum",
 "At every moment every resting order holds at least the market's minimum base size. A resting order that a fill leaves below that size is taken out at once with an out event reporting what was left of it, and one left at or above it keeps resting.",
 ["histories","inputs","configurations"],"every history and every minimum size from 1 to the 64-bit maximum",
 "needs residues on both sides of the boundary after partial fills; tests only fill orders completely or hardly at all",
 [OB,P+"new_order.rs",P+"create_market.rs"],[("residue check after each fill","OrderBookState::new_order"),("minimum on posting","OrderBookState::new_order")],None,["book accounts, out events"])
p("C12","Prices are multiples of the tick",
 "An order whose limit price is not a multiple of the market's tick size is refused with the invalid-limit-price error and changes nothing, and so is an order that may be posted with a price below one tick. Every resting order's price is therefore a positive multiple of the tick size. The published rounding helper gives clients such a price: the nearest multiple of the tick below (bids) or above (asks) the wanted price, leaving multiples alone, whenever that multiple fits 64 bits.",
 ["inputs","histories","configurations"],"every tick size and limit price over the 64-bit range",
 "the integration test uses a tick of 1, where the rule is vacuous; the helper is tried on two samples",
 [P+"new_order.rs",UT],[("tick check before matching","new_order::process"),("rounding helper","utils::round_price")],None,["results, book accounts"])
p("C13","Cancelling removes exactly the named orders",
 "Cancelling a resting order's identifier removes that order and leaves every other order, its quantity and callback data, and the event queue untouched; an identifier that is not resting (never issued, already filled, evicted or cancelled, or delivered twice) is refused as not found and nothing changes. A mass cancellation removes all the named orders or is refused as a whole.",
 ["histories","schedules","inputs","fault_sequences"],"every book shape, every identifier ever issued or invented, duplicated and late cancellations, every mass-cancel list including repeats",
 "tests cancel one order once; a wrong removal depends on the tree shape and on stale data in freed slots",
 [P+"cancel_order.rs",P+"mass_cancel_orders.rs",CB,ST],[("removal by id","Slab::remove_by_key"),("side lookup","get_side_from_order_id")],None,["book accounts, results"])
p("C14","Operations act only on the market's own genuine accounts",
 "Trading, cancelling, consuming and closing are refused, without any effect, when the market account is not a genuine market of this program or when any event queue, bids or asks account passed is not the one the market was created with or is no longer owned by the program. An operation on one market never changes an account of another market, not even when an account of a market is named as the register the entry point writes its result to: such an instruction is refused.",
 ["inputs","histories","configurations"],"every substitution, swap or forgery of accounts at every point of every market's life, with several markets alive",
 "the only integration test always passes the right accounts",
 [P+"new_order.rs",P+"cancel_order.rs",P+"mass_cancel_orders.rs",P+"consume_events.rs",P+"close_market.rs",UT,MS],[("owner checks","perform_checks in each processor"),("key checks","check_accounts in each processor"),("account tags","from_buffer"),("register write","entrypoint::process_instruction")],None,["results, all account bytes"])
p("C15","Market creation is validated and happens once",
 "A market is created only over rent-exempt accounts of the right owner and of workable size whose tags are zero, with a positive minimum order size and tick; anything else is refused with no effect. All-zero accounts are accepted; accounts written to behind their tags (by serving as the register of earlier instructions) are either refused or make a market like any other, never one that takes over what was written. Accounts that already belong to a market, live or closed, can never be initialised again, and a created market starts empty with exactly the given parameters and accounts and is usable until closed.",
 ["inputs","configurations","histories"],"every combination of sizes, owners, balances, parameters and earlier uses of the accounts",
 "one creation with good arguments is tested",
 [P+"create_market.rs",CB,EQ,MS],[("parameter, rent and size checks","create_market::process"),("tags","Slab::initialize, from_buffer(Uninitialized)")],None,["results, account bytes"])
p("C16","A market closes only when empty, once, and returns all its rent",
 "Closing is refused while any order rests on either side or any event is unconsumed, and succeeds otherwise. It moves exactly the sum of the four accounts' balances to the target, leaving them at zero, and from then on no operation on that market or reuse of its accounts is accepted.",
 ["histories","schedules","inputs"],"every point of every history at which a close may be attempted, and every operation attempted afterwards, including in the same transaction",
 "the test closes one empty market once and stops there",
 [P+"close_market.rs"],[("emptiness checks","close_market::process"),("disabling tags and moving balances","close_market::process")],None,["balances, account bytes, results"])
p("C17","Book capacity never leaks",
 "A book side sized for N orders by the published size helper can hold N resting orders at once, no more and no fewer, whatever was posted, filled, evicted or cancelled before. As long as fewer than N orders rest on a side, a postable order is posted without evicting anything.",
 ["histories","configurations","schedules"],"every history of insertions and removals on every capacity",
 "slot recycling faults appear only after particular removal orders followed by filling the book to the brim; tests use 10,000-slot trees that never fill up",
 [CB,OB],[("free lists and bump allocation of leaves and inner nodes","Slab::allocate_leaf/free_leaf/allocate_inner_node/free_inner_node"),("size helper","Slab::compute_allocation_size")],
 [("free lists","recycled slots",CB)],["book accounts, evictions"])
p("C18","Callback information comes back unaltered and with the right party",
 "A resting order keeps, byte for byte, the callback information its owner supplied, for its whole life. Every fill event carries the resting order's information as maker and the incoming order's as taker, and every out event carries that of the order taken out, however slots are recycled and however long the event waits in the queue.",
 ["histories","schedules","configurations"],"every history with recycled book and queue slots, wrapped queues and callback types of any size",
 "tests compare callback data for two events in fresh, unrecycled slots",
 [OB,CB,EQ],[("parallel callback arrays indexed by slot","Slab::callback_infos, EventQueue::callback_infos")],None,["events and book accounts"])
p("C19","Replicas that run the same transactions agree byte for byte",
 "Executing the same transactions in the same order from the same account contents always yields the same results and identical account bytes, on every replica, after any crash, restart from stored accounts, replay or switch between forks, and however executions of different replicas or aborted attempts interleave in the process. Nothing but the account contents and the instruction decides the outcome.",
 ["schedules","crash_points","fault_sequences","histories"],"every schedule of replicas, forks, crashes, aborted executions and restarts",
 "the tests run one copy once and never replay",
 [OB,CB,EQ,DSP,ENT,P+"new_order.rs"],[("all state lives in the accounts","state/*.rs"),("no clock, randomness or process state is read","whole program")],None,["account hashes and results per block on each replica"])
p("C20","The event queue is an exact first-in first-out log",
 "Consumers see events in exactly the order they were produced; waiting events are never altered, lost, duplicated or reordered by later orders, cancellations or other consumers. Consuming n removes exactly the n oldest events (all of them if fewer wait) and nothing else, including when the queue has wrapped around any number of times.",
 ["histories","schedules","configurations","fault_sequences"],"every interleaving of producers and consumers, batch sizes from 0 to the 64-bit maximum, every queue capacity and wrap position",
 "the queue test fills one queue once and never consumes from it; the order book tests pop a queue that never wraps",
 [EQ,P+"consume_events.rs"],[("ring buffer","EventQueue::push_back, pop_n, peek_at, iter")],
 [("head and count","position and number of waiting events",EQ)],["event queue account, queue readers"])
p("C21","A full event queue blocks producers instead of losing events",
 "An order that would need more event slots than are free is refused as a whole with the queue-full error; no waiting event is overwritten and no part of the order takes effect. Every slot of the queue is usable: operations whose events fit, or that produce none, are never refused for lack of space, and consumption gives the space back.",
 ["fault_sequences","schedules","histories","configurations"],"every stall pattern of the consumers, every queue size and every number of events an order needs, including the eviction event of a full book",
 "tests use queues of 1,000 events that never fill",
 [EQ,OB],[("full check and error propagation at every push","EventQueue::push_back, OrderBookState::new_order")],None,["results, event queue account"])
p("C22","Once faults stop, a market drains and closes in bounded steps",
 "From any reachable state, once consumers run again, all waiting events are consumed within ceil(events / batch) consume operations, all resting orders can be cancelled with one operation each, and the market can then be closed. No state exists in which events, orders or rent are stuck.",
 ["fault_sequences","schedules","histories"],"every state left behind by stalled consumers, crashes, aborted, dropped and duplicated transactions",
 "liveness after arbitrary faulty histories; the one integration test has no faults and a single path to closing",
 [EQ,CB,P+"consume_events.rs",P+"cancel_order.rs",P+"close_market.rs"],[("consumption, cancellation and closing paths","processor/*.rs")],None,["number of steps until closed"])
p("C23","Readers show exactly the committed book and queue",
 "At every moment the spread query returns the best bid and best ask actually resting (or none), the price-ordered iterators list every resting order once in the requested direction, lookup finds exactly the resting identifiers, and the queue's iterator, length and positional read show exactly the waiting events from oldest to newest. Reading changes nothing.",
 ["histories","schedules"],"reads taken between any two transactions of any history, including on wrapped queues, full and empty books",
 "tests read fresh structures; the iterators are not tested at all",
 [CB,EQ,UT,OB],[("tree walks","Slab::into_iter, find_min, find_max"),("queue readers","EventQueue::iter, peek_at, len"),("spread query","utils::get_spread")],None,["return values of the reading API against the account bytes"])
p("C24","Settling by summaries and events alone is always solvent",
 "A caller that debits and credits takers from order summaries, makers from fill events, and refunds from out events and cancellations, never sees any user's locked base or quote go negative, and base and quote are conserved over all users at every moment once waiting events are counted. After a full drain every locked base balance is exactly zero and the locked quote left over by rounding is at most one unit per fill, out event and cancellation of that user's bids.",
 ["histories","schedules","fault_sequences"],"every history of many users with racing consumers, duplicated, dropped, reordered and aborted transactions",
 "end-to-end conservation across instructions and over time; no test contains a caller program",
 [OB,EQ,P+"cancel_order.rs",P+"mass_cancel_orders.rs",P+"consume_events.rs"],[("agreement of summaries, events and book quantities, and maker-favouring rounding","OrderBookState::new_order and cancel summaries")],None,["balances of a model caller program"])
p("C25","Client-built instructions do what they are named for",
 "An instruction built with the published Rust client bindings (the instruction module), sent to the program's entry point with the accounts it lists, performs exactly the named operation with exactly the given parameters, and the resulting order summary (or its absence) can be read back from the register account. Writable and read-only markings are sufficient: no read-only account is changed.",
 ["inputs","programs","histories"],"every operation kind and parameter value, in transactions of several instructions, on every market state",
 "the integration test builds five of the six operations once each; mass cancellation is never built",
 [INS,DSP,ENT],[("opcode and account list of each builder","instruction.rs"),("dispatch","processor::process_instruction"),("register write","entrypoint::process_instruction")],None,["effects and register contents compared with the direct call"])
p("C26","The off-chain reader decodes any snapshot faithfully",
 "The TypeScript client, given the bytes of the market, book and event queue accounts at any moment, reports exactly the resting orders with their callback data in price order, the aggregated depth, the parameters, and the waiting events from oldest to newest.",
 ["histories","schedules"],"snapshots taken between any two transactions, including wrapped queues and recycled slots",
 "the TypeScript has no runnable test; its one test imports a missing module and needs a live validator",
 ["js/src/slab.ts","js/src/event_queue.ts","js/src/market_state.ts"],[("account decoders","Slab, EventQueue, MarketState classes")],None,["decoded objects against the account bytes"])
p("C27","Legitimate operations are never refused",
 "An order with a valid price whose events fit in the queue and which does not hit an aborting self-trade, a cancellation of resting orders, a consumption, a close of an empty market and a creation over proper accounts always succeed, in bounded time, whatever history led to the current state (a mass cancellation only as long as its totals fit 64 bits). In particular no reachable state makes an operation crash.",
 ["histories","inputs","schedules","fault_sequences"],"every reachable state and every admissible operation on it",
 "absence of spurious refusals over all reachable states; tests reach a few dozen states",
 [OB,CB,EQ,P+"new_order.rs",P+"cancel_order.rs",P+"mass_cancel_orders.rs",P+"consume_events.rs",P+"close_market.rs",P+"create_market.rs"],[("whole instruction path","processor/*.rs, state/*.rs")],None,["results"])
p("C29","Only a complete encoding of an operation takes effect",
 "Bytes sent to the program's entry point have an effect only if they are the complete encoding of one of the six operations (the operation's number, then its parameters in little-endian form, nothing missing and nothing left over, booleans and choices within their range; closing has no parameters and what follows its number is ignored) and enough accounts are listed. The effect and result are then those of exactly that operation with exactly those parameters. Everything else is refused without effect.",
 ["inputs","histories","fault_sequences"],"every damage, truncation, extension or alteration of every operation's bytes and every shortened account list, on every market state",
 "no test sends bytes other than those of the builders",
 [DSP,ENT,INS,P+"new_order.rs",P+"mass_cancel_orders.rs"],[("opcode and parameter decoding","processor::process_instruction"),("account lists","Accounts::parse")],None,["results, all account bytes"])
p("C30","Operations stay within an on-chain program's memory",
 "No operation asks for more than the 32 KiB of heap an on-chain program has per instruction (none of it ever given back), however many orders rest, however many events wait and however many orders are matched, evicted or cancelled. A deep book is traded, swept, cancelled and drained like a shallow one.",
 ["histories","configurations","fault_sequences"],"every book depth, queue length and number of orders matched by one instruction",
 "host tests have unlimited memory",
 [OB,CB,EQ,P+"new_order.rs",P+"mass_cancel_orders.rs",P+"consume_events.rs",P+"close_market.rs"],[("in-place slabs and ring buffer without heap copies","state/*.rs")],None,["bytes requested from the allocator during each instruction"])
p("C31","The TypeScript client makes the market it was asked for",
 "The transaction built by the TypeScript client's market creation is accepted by the program and makes a market with exactly the requested minimum order size and tick, an event queue for the requested number of events and book sides for the requested number of orders, identical to one made with the published Rust bindings and size helpers.",
 ["inputs","configurations","histories"],"every capacity, callback length, minimum size and tick, on every ledger state",
 "the TypeScript has no runnable test",
 ["js/src/bindings.ts","js/src/raw_instructions.ts","js/src/slab.ts","js/src/event_queue.ts",P+"create_market.rs"],[("account list, sizes and instruction bytes","createMarket, computeAllocationSize, createMarketInstruction")],None,["accounts made on the ledger"])
os.makedirs("/verif",exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for r in R: f.write(json.dumps(r)+"\n")
print(len(R))

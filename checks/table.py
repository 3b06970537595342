"""The properties: their statements and the obligation groups that decide them.

properties.jsonl and MANIFEST.json are generated from this table (tools/gen.py)."""
from . import Prop, PROPS, ledger, state, ops, mathspec, trade
from .ledger import *
from .state import *
from .ops import *
from .mathspec import *
from .trade import spec_trade_start, Step, spec_swap_store, spec_swap_complete, spec_quote, spec_route_quote, spec_route_swap, spec_events
from .transfer import *
from .search import spec_search, spec_closer
from .boxes import m_tick_of_price
from .sdk import sdk_search, sdk_closer, sdk_trade, on_sdk, sdk_fee, sdk_positions, sdk_liquidity, sdk_by_ticks, sdk_keys, sdk_limits
from .bindings import spec_bindings, spec_listener, spec_event_bindings, spec_deploy_binding, spec_codec, spec_client, spec_helpers, spec_answers, spec_prices
from .queries import spec_items, spec_lists, spec_position_ticks, spec_positions, spec_counts

SVC = "src/invariant_service.rs"
STO = "src/invariant_storage.rs"
SDKW = "sdk/src/wasm"
TABLE = []
NA = []


def P(pid, title, statement, over, quant, why, files, mech, groups, floor, rule, note="", state=()):
    TABLE.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      groups=groups, floor=floor, rule=rule, note=note, state=state))


def C(*comps, **kw):
    """obligation group: these state components change only in the operations entitled to change them"""
    def go(ctx):
        for c in comps:
            confine(ctx, c, **kw)
    return go


H = ["histories", "inputs"]
I = ["inputs"]
TEST = "The node tests replay a few dozen hand-written call sequences; "


# ---------------------------------------------------------------- A: authority
P("A01", "Only the administrator changes the exchange's configuration",
  "The administrator set at deployment never changes, and no call by anyone else ever changes the protocol fee share, the set of registered fee tiers or a pool's fee receiver. "
  "A call by the administrator changes exactly the item it names, to exactly the requested value; a fee tier is accepted only with a fee below 100% and a tick spacing between 1 and 100, and only if it is not registered yet.",
  H, "every caller, every argument, every state, every entry point of the program including suspended calls and reply handlers",
  TEST + "each authorisation test tries one stranger on one call, and nothing checks that the other thirty entry points leave the configuration alone.",
  [SVC, STO, "src/contracts/collections/fee_tiers.rs", "src/contracts/storage/pool.rs"],
  [("administrator check in each configuration call", SVC), ("fee tier registry", "src/contracts/collections/fee_tiers.rs")],
  [spec_change_protocol_fee, spec_add_fee_tier, spec_remove_fee_tier, spec_change_fee_receiver, C("administrator", "protocol fee", "fee tiers")], 100,
  "guard, completeness and post-state equation of the four configuration calls, and a frame obligation for administrator, protocol fee and fee tiers at every commit point of every other entry")

P("A02", "Protocol fees go only to the pool's fee receiver, exactly once",
  "Only the fee receiver of a pool can collect its protocol fees. Collecting credits that caller with exactly the two amounts accrued, resets both accrued amounts to zero and changes nothing else about this or any other pool or any other balance.",
  H, "every caller, pool, state; both tokens", TEST + "they collect once after one swap and never compare every other field, pool and account.",
  [SVC, STO, "src/contracts/storage/pool.rs"], [("fee receiver check and withdrawal of accrued fees", "src/contracts/storage/pool.rs"), ("balance credit", STO)],
  [spec_withdraw_protocol_fee, spec_a02, C("position", "tick", "tick bitmap", "pool list", names=("withdraw_protocol_fee",))], 8,
  "guard and post-state equations of the collection call over a generic user, token and pool")

P("A03", "A position is changed, moved or emptied only by its owner",
  "Closing, transferring or collecting the fees of a position is possible only for the account that owns it, and no call by one account changes another account's positions, except that a transfer adds one position at the end of the receiver's list. "
  "A transferred position keeps every attribute, the giver's last position takes the freed slot, and both counts change by one.",
  H, "every pair of accounts, every list length and index, self-transfers included", TEST + "they use two accounts and lists of at most three positions.",
  [SVC, STO, "src/contracts/collections/positions.rs"], [("positions kept per owner, swap-removal", "src/contracts/collections/positions.rs")],
  [spec_transfer_position, spec_owner_only, C("position", "position count")], 60,
  "guards on the caller's own list, whole-list post-state equation of the transfer for a generic account and index, frame obligations for all other accounts")

P("A04", "The exchange is configured once, when it is deployed, and starts empty",
  "Deployment stores exactly the administrator and the protocol fee share it was given; there are no pools, fee tiers, positions, ticks, balances or pending transfers at that point, and no message is sent. "
  "An exchange that is configured can never be configured again, no call drops the configuration, and no call that changes anything succeeds before there is one.",
  H, "every configuration, every state before deployment, every later call and every point at which a call's effects become permanent",
  TEST + "they deploy once and read two values back.",
  ["src/lib.rs", SVC, STO, "src/contracts/storage/utils.rs"], [("the program's constructor", "src/lib.rs"), ("set-once storage cell", "src/contracts/storage/utils.rs"), ("initial state", STO)],
  [spec_once], 80,
  "post-state equations of the constructor over an arbitrary earlier content of the storage cell, and the set-once invariant of the cell at every commit point of every entry")

# ---------------------------------------------------------------- B: money
P("B01", "No operation touches another account's balance",
  "A call changes the recorded balances of its caller only; operations that move no funds change no balance at all. When the outcome of an outgoing token transfer arrives later, only the balance of the account recorded for that transfer can change.",
  ["histories", "inputs", "schedules"], "every entry point, every suspension point and every reply handler, for a generic account and token", TEST + "they inspect the balances of the one or two accounts they use.",
  [SVC, STO], [("balance table", STO), ("pending transfer table", STO)], [spec_b01], 60,
  "frame obligation on a generic account at each commit point (return, suspension, early exit, reply handler) of every entry", state=[("balances", "per account and token", STO)])

P("B02", "A swap moves exactly the reported amounts of exactly two tokens",
  "A successful swap debits its caller by exactly the reported input amount of the sold token and credits exactly the reported output amount of the bought token; no other balance changes, and a caller whose balance does not cover the input has the whole call rejected.",
  I, "every state, direction, amount, limit", TEST + "they check the balances of a few amounts.", [SVC, STO],
  [("balance debit and credit after a swap", SVC)], [spec_b02, spec_b01_swap], 2, "equation on a generic account and token at the exit of swap, for every number of price steps (loop by induction)")

P("B03", "Opening a position debits exactly its two token amounts",
  "Opening a position debits its owner by exactly the two token amounts that its liquidity and range require at the pool's price, and credits or debits nothing else; without enough balance the whole call is rejected.",
  I, "every state, range, liquidity, slippage bound", TEST + "they cover a few ranges.", [SVC, STO], [("balance debit of a new position", SVC)],
  [spec_b03], 1, "equation on a generic account and token at the exit of create_position")

P("B04", "Closing a position pays out exactly the reported amounts",
  "Closing a position credits its owner with exactly the two amounts the call reports and changes no other balance.",
  I, "every state and position", TEST + "they cover a few ranges.", [SVC, STO], [("balance credit of a closed position", SVC)],
  [spec_b04], 1, "equation on a generic account and token at the exit of remove_position")

P("B05", "Claiming fees pays the accrued fee exactly once",
  "Claiming a position's fees credits its owner with exactly the amounts accrued since the last claim plus those already owed, reports the same amounts, and resets the position's reference so that they cannot be claimed again; the position's other attributes, all ticks and all other positions stay as they were.",
  H, "every state and position", TEST + "they claim once after one or two swaps.", [SVC, STO, "src/contracts/storage/position.rs"],
  [("claim of a position's fees", "src/contracts/storage/position.rs")], [spec_b05, spec_claim_fee], 7, "post-state equations of the claim for a generic position, account and token")

AS = ["schedules", "histories", "inputs"]
DEP, WDR = ("deposit_single_token", "deposit_token_pair"), ("withdraw_single_token", "withdraw_token_pair")


def R_(names):
    return [spec_requests(n) for n in names]


def O_(names):
    return [spec_outcome(n) for n in names]


P("B06", "Deposits are credited only once the token confirmed them, and then once",
  "A deposit credits nothing when it is requested. When the token's reply to the request arrives, the depositor is credited with exactly the requested amount of exactly that token if the reply confirms the transfer, and with nothing if it refuses, crashes or cannot be understood; the pending transfer is settled in the same step, so that no later event can credit it again.",
  AS, "every caller, amount, token, pending transfer table and every reply, in whatever order replies arrive", "The node tests answer every request at once, with the real token; no test delivers a foreign, late, malformed or repeated reply.",
  [SVC, STO], [("reply hook of token transfers", SVC), ("pending transfer table", STO)], R_(DEP) + [spec_hook], 40,
  "value equations at every waiting point of the deposit calls and at the exit of each registered reply hook, the state at the start of a hook being arbitrary", state=[("pending transfers", "per request and token", STO)])
P("B07", "Withdrawals are debited before the request and returned only on failure",
  "A withdrawal takes the amount from its caller's balance before the request is sent, so that it cannot be spent while the request is under way; without enough balance nothing is sent. When the reply arrives the amount is given back if the token refused or crashed, and not otherwise, and the pending transfer is settled in the same step.",
  AS, "every caller, amount, token, pending transfer table and every reply, in whatever order replies arrive", "The node tests answer every request at once; the moment between request and reply is never observed.",
  [SVC, STO], [("balance debit before a withdrawal", SVC), ("reply hook of token transfers", SVC)], R_(WDR) + [spec_hook], 40,
  "value equations at every waiting point of the withdrawal calls and at the exit of each registered reply hook", state=[("pending transfers", "per request and token", STO)])
P("B08", "Only the stated transfers are requested from tokens",
  "While a deposit or withdrawal is under way exactly one message per stated token has been sent, to that token, asking for a transfer of the stated amount between the caller and the exchange in the right direction, carrying no coins, with gas for the request and for handling its reply. Nothing is requested for the native coin, for a zero amount, or when the gas does not cover the reply, and no other call of the exchange sends messages to tokens.",
  I, "every caller, token, amount, balance and amount of gas", "The node tests check the resulting token balances of single cases; the messages themselves are not inspected.",
  [SVC], [("transfer requests", SVC)], R_(DEP + WDR) + [spec_silent], 60, "the messages sent on every path to a waiting point, their destination, payload, value and gas, compared with the stated ones; call-site census of sending functions for the other entries")
P("B09", "A token call reports what happened",
  "A deposit or withdrawal that reports success reports the moved amounts, every request of it was confirmed by its token and every reply was handled; it reports success without a request only when nothing is to be moved. Nothing changes between the last reply and the report, except that a transfer whose reply could not be handled is dropped from the pending transfers together with a report of failure.",
  AS, "every caller, amount, token and reply, and any activity of other callers while waiting", "The node tests see a confirmed or a refused transfer, never a partly confirmed pair with other calls in between.",
  [SVC], [("outcome of token calls", SVC)], O_(DEP + WDR), 40, "value equations at the exits after the last waiting point, the state there being arbitrary")
P("B10", "Native coins are credited as sent and paid out as debited",
  "Depositing native coins credits the caller with exactly the value sent along, under the native token's identifier. Withdrawing pays the caller, with the answer itself, exactly what is taken from that balance, the whole balance if no amount is given, never more than the balance; nothing else changes, and coins leave the exchange in no other way.",
  I, "every caller, value, amount, balance", "The node tests deposit and withdraw one amount.",
  [SVC, STO], [("native coin deposit and withdrawal", SVC)], [spec_native, spec_silent], 14, "value equations at the exits of the two calls, the payment being the value attached to the reply")

# ---------------------------------------------------------------- C: interface
P("C02", "Queries change nothing and send nothing",
  "Every read-only call leaves the complete state of the exchange as it was and sends no message and no event.",
  H, "every query, state and argument", TEST + "they never compare the whole state around a query.", [SVC, STO], [("query methods", SVC)], [spec_c02], 200,
  "frame obligation for each of eleven state components and absence of outgoing effects, for every query")

P("C03", "A quotation is the outcome of the swap",
  "A quotation succeeds exactly when the trade of a swap with the same arguments in the same state succeeds (the caller's balance aside), and it reports that trade's input, output, final price and crossed ticks.",
  I, "every pool state, amount, direction, limit and number of price steps", "The node tests compare three quotations with swaps.", [SVC, STO], [("quotation", SVC), ("shared trade computation", STO)],
  [spec_quote], 15, "simulation: the quotation's price loop starts, steps and ends exactly as the swap's does, value by value, decided for one arbitrary iteration")
P("C04", "A routed swap is its hops in sequence, at or above the minimum output",
  "A routed swap executes the swaps of its hops in the given order, each an exact-input swap without price limit of the pool named, the first of the given amount and each next of exactly the previous output; every hop stores its pool and ticks, moves its two tokens of the caller and is announced like a single swap. The route succeeds only if the last output is at least the expected amount less the tolerance, rounded up, and fails otherwise as a whole.",
  I, "every number of hops, pools (repeated ones included), amounts and tolerances", "The node tests route one amount over two pools.", [SVC, STO, "src/contracts/storage/pool.rs"], [("route execution", SVC)],
  [spec_route_swap, m_min_out], 40, "simulation of each hop's trade by the swap's on substituted arguments, post-state equations of one arbitrary hop, induction over hops")
P("C05", "Every trade and position change is announced exactly as it happened",
  "A successful opening, closing or swap sends exactly one event with the caller, time, pool, range, liquidity, amounts and prices of what was stored; a swap that crossed ticks also announces exactly the crossed tick indexes in order, and one that crossed none does not. No other operation announces anything.",
  I, "every successful call", "The node tests compare a few events.", [SVC, "io/src/lib.rs"], [("event notifications", SVC)], [spec_events], 40,
  "field-by-field value equations at each notification site and equivalence of its path condition with the stated occasion")
P("C06", "A route quotation trades each hop like a swap",
  "Quoting a route trades each hop in the given order as an exact-input swap without price limit on the stored pools, starting with the given amount and passing each output on, reports the last output, and succeeds exactly when every hop's trade does.",
  I, "every number of hops, pools, amounts", "The node tests quote two routes.", [SVC, STO], [("route quotation", SVC)], [spec_route_quote], 15,
  "simulation of each hop's trade by the swap's on substituted arguments, induction over hops")

P("C07", "A query of one item reports exactly what is stored",
  "Reading the protocol fee, the fee tiers, a pool by its two tokens in either order, a position, a tick, a tick's mark, an account's number of positions or a position together with its pool and both bounds reports the stored values unchanged and fails exactly when one of them does not exist.",
  H, "every state and argument", "The node tests query values they have just written.", [SVC, STO], [("queries", SVC)], [spec_items], 14,
  "equality of each reported value with the stored one, and of success with existence, in both directions")
P("C08", "A listing query leaves nothing out and repeats nothing",
  "Listing pools, an account's positions (plain or grouped by pool), ticks by index, the ticks of an account's positions, balances or the bitmap's chunks reports every item of the requested range, in order, with its stored value, once, and up to the documented answer limits; grouping keeps each position with its own pool and index.",
  H, "every state, offset, size and number of items", "The node tests list at most a handful of items.", [SVC, STO, "src/contracts/collections"], [("listing queries", SVC), ("position slices", "src/contracts/collections/positions.rs"), ("chunk ranges", "src/contracts/collections/tickmap.rs")],
  [spec_lists, spec_position_ticks, spec_positions], 55, "induction over one arbitrary round of each building loop: what is appended, what stays, which items are visited and when the loop ends")

# ---------------------------------------------------------------- D: trading
TRADE = ("every pool state, amount, direction, limit and number of price steps (the loop is decided by induction over one arbitrary iteration)")
P("D01", "A trade starts from the stored pool and ends within its price limit",
  "A trade needs an amount, an existing pool and a price limit on the far side of the pool's price. It starts from the stored pool, goes through price steps until its amount is used up, is refused when it would reach the limit before that, leave the supported range, yield nothing or meet an amount that cannot be represented, but not because a tick's liquidity cannot take the whole rest; it reports the stored price as its start and the pool's final price as its end.",
  I, TRADE, TEST + "they trade a handful of amounts over at most three ranges.", [SVC, STO, "src/contracts/storage/pool.rs"], [("price loop of a trade", SVC)],
  [spec_trade_start, Step("needs"), spec_closer], 200, "guards of the trade and of one arbitrary iteration of its loop; value of every loop variable on entry; completeness of each way an iteration can end")
P("D02", "Every price step adds exactly its amounts to the trade",
  "Each price step moves the pool to the step's price and adds exactly the step's input plus fee to the total input, its output to the total output and its fee to the total fee, and reduces the amount left by exactly what the step used. Only an input amount too small to pass a tick is added to the total input in full and ends the trade. The pool's fee receiver and start time stay as they are.",
  I, TRADE, TEST + "they trade a handful of amounts over at most three ranges.", [SVC, STO, "src/contracts/storage/pool.rs"], [("price loop of a trade", SVC)],
  [spec_trade_start, Step("totals", "price", "rest"), m_swap_step, m_delta_x, m_delta_y], 150, "transfer equation of every total and pool field over one arbitrary iteration, per direction, kind of amount and way of ending")
P("D03", "Trade fees accrue to liquidity and protocol in the stated shares",
  "The fee of each price step is split into the protocol's share, rounded up and added to the accrued protocol fee of the sold token, and the rest, added to the pool's fee growth of the sold token per unit of liquidity active in that step, rounded down. The counters of the other token never change, and a step without active liquidity accrues nothing.",
  I, TRADE, TEST + "they check the fee totals of one or two trades.", [SVC, "src/contracts/storage/pool.rs"], [("fee accrual of a price step", "src/contracts/storage/pool.rs")],
  [Step("fees"), m_fee_growth], 80, "transfer equation of the four fee counters over one arbitrary iteration, per direction, kind of amount and way of ending")
P("D04", "Crossing a tick adds or removes exactly that tick's liquidity",
  "A trade that passes an initialised tick changes the active liquidity by exactly the tick's net change in the direction of travel, flips the tick's outside fee growths and time to the other side exactly once, and records the tick as crossed. A trade that stops at a tick or between ticks changes no liquidity, and the pool's current tick is always the one that contains its price.",
  I, TRADE, TEST + "they cross at most two ticks.", [SVC, "src/contracts/storage/pool.rs", "src/contracts/storage/tick.rs"], [("tick crossing", "src/contracts/storage/tick.rs")],
  [Step("ticks", "price"), spec_closer], 100, "transfer equation of liquidity, tick index, timestamp and crossed ticks over one arbitrary iteration, per direction, kind of amount and way of ending")
P("D05", "Opening a position adds exactly its liquidity to its range",
  "A position is opened only with some liquidity, on an existing pool, between two different valid ticks that have room for it, while the price lies within the caller's slippage bounds. It is appended to the owner's list with its range's current fee growth, so it earns nothing from the past. The lower tick's net change grows and the upper's shrinks by its liquidity, both ticks' gross liquidity grows by it, new ticks start with the correct outside counters, and the pool's active liquidity grows by it exactly when the price is inside the range.",
  H, "every pool state, range, liquidity and slippage bound", TEST + "they open a handful of positions.", [SVC, STO, "src/contracts/storage/position.rs", "src/contracts/storage/tick.rs", "src/contracts/storage/pool.rs"],
  [("position creation", "src/contracts/storage/position.rs"), ("tick update", "src/contracts/storage/tick.rs")], [spec_create_position, m_amount_delta, m_delta_x, m_delta_y, m_fee_growth, m_inside, m_tick_bounds], 30,
  "guards and post-state equations of the call over a generic account, index, pool and tick")

P("D06", "A finished swap is stored completely and fails only for lack of balance",
  "A swap stores the pool its trade ended with and every crossed tick, each under its own index, and changes no other pool or tick; once its trade is over the swap succeeds whenever the caller's balance covers the input and the output can be credited.",
  H, "every number of crossed ticks, every pool and tick store", TEST + "they read back one pool after a swap.", [SVC, STO, "src/contracts/collections/ticks.rs", "src/contracts/collections/pools.rs"], [("storing of a trade's outcome", SVC)],
  [spec_swap_store, spec_swap_complete], 8, "post-state equations for a generic pool and tick, the storing loop by induction over the crossed ticks; completeness of each part")
P("D07", "Closing a position takes back exactly its liquidity and always works",
  "Closing is possible only for the owner and always succeeds when the paid amounts can be represented. It pays the amounts of the position's liquidity, rounded down, plus the fees accrued and owed, takes the position's liquidity out of its two ticks and, if its range contains the current tick, out of the pool's active liquidity; a tick left without liquidity is removed. The owner's last position takes the freed slot; every other position, pool and tick stays as it was.",
  H, "every state, position, range and list length", TEST + "they close positions over a few ranges, mostly of one owner.",
  [SVC, STO, "src/contracts/storage/position.rs", "src/contracts/storage/tick.rs", "src/contracts/storage/pool.rs", "src/contracts/collections/positions.rs"],
  [("position removal", "src/contracts/storage/position.rs"), ("tick update", "src/contracts/storage/tick.rs"), ("list removal", "src/contracts/collections/positions.rs")],
  [spec_remove_position, m_amount_delta, m_delta_x, m_delta_y, m_fee_growth, m_inside], 15, "guards, completeness and post-state equations of the call over a generic account, index, pool and tick")
P("D08", "A trade always finds the nearest initialised tick in its way",
  "The search for the next target of a trade returns the nearest marked tick in the trade's direction within 256 tick spacings (the current tick included when going down, excluded when going up), and none only if no tick of that range and of the supported ticks is marked; "
  "the trade then heads for that tick, or for the end of the search range if there is none, unless its own price limit comes first, and it is refused exactly when it already stands at the last supported tick.",
  I, "every bitmap, every tick spacing from 1 to 100, every aligned tick, both directions", "The unit tests search bitmaps with one or two marks.",
  ["src/contracts/collections/tickmap.rs"], [("search in the bitmap", "src/contracts/collections/tickmap.rs"), ("choice of the next target", "src/contracts/collections/tickmap.rs")],
  [spec_search, spec_closer], 400, "induction over the chunks and over the bits of a chunk for a generic bitmap and start position, for each of the 100 spacings: where the walk begins, that a chunk is passed only without marks, "
  "that the first mark of a chunk is the one reported, and that nothing is reported only beyond the limit; value of the chosen target")

# ---------------------------------------------------------------- E: arithmetic
P("E01", "Token amounts of a price move are exact and rounded against the trader",
  "The amount of each token for moving a liquidity between two prices is the exact product formula, rounded down when paid out and rounded up when taken in, for every price pair and liquidity; an amount is reported whenever it is representable, and never truncated.",
  I, "all prices, liquidities and rounding directions", "Unit tests sample a handful of values per function.",
  ["calc/math/clamm.rs"], [("amount of a price difference", "calc/math/clamm.rs")], [m_delta_x, m_delta_y, m_delta_total], 6,
  "closed form of each function derived from the MIR equals the definition (integer division and rounding terms compared after normalisation)")
P("E02", "The next price of a trade is the exact formula, rounded in the pool's favour",
  "Given a liquidity and an amount, the resulting price is the exact constant-product formula with the rounding that favours the pool on each side (up when the first token moves, down when the second does), and removing more than the reserves hold is refused.",
  I, "all prices, liquidities, amounts and directions", "Unit tests sample a handful of values per function.",
  ["calc/math/clamm.rs"], [("next price formulas", "calc/math/clamm.rs")], [m_next_price_x, m_next_price_y, m_next_price_dir], 6,
  "closed form equality as in E01")
P("E03", "One step of a trade charges the right input, output and fee",
  "Within one liquidity range a trade either reaches the target price or uses up its amount: the input is rounded up, the output down and never above a requested output, and the fee is the stated share of the input rounded up, or everything that is left when the amount runs out. Without liquidity the price jumps to the target free of charge.",
  I, "all prices, liquidities, amounts, fees and directions", "Unit tests sample a handful of values.",
  ["calc/math/clamm.rs"], [("computation of one trade step", "calc/math/clamm.rs")], [m_swap_step, m_next_price_dir, m_next_price_x, m_next_price_y, m_delta_x, m_delta_y], 20, "closed form equality as in E01")
P("E04", "Fee growth counters convert and wrap exactly",
  "The fee of a growth is growth times liquidity rounded down and the growth of a fee is fee per liquidity rounded down, reported as an error when it does not fit; counters add and subtract modulo their width, and the growth inside a range is what remains of the global growth after the parts below and above, each chosen by the side of the price.",
  I, "all growths, liquidities, ticks and counter values, wrapped ones included", "Unit tests sample a handful of values.",
  ["calc/math", "calc/math/clamm.rs"], [("fee growth type", "calc/math/types/fee_growth.rs"), ("growth inside a range", "calc/math/clamm.rs")], [m_fee_growth, m_inside], 10, "closed form equality as in E01")
P("E05", "The token amounts of a range follow the price's position",
  "The amounts backing a liquidity range are first token only below the range, second token only above it and both inside, with the bounds' own prices; the range counts as active exactly when the current tick lies inside it, and inverted ranges are refused.",
  I, "all ticks, prices, liquidities", "Unit tests sample one case per side.", ["calc/math/clamm.rs"], [("amounts of a liquidity change", "calc/math/clamm.rs")], [m_amount_delta, m_delta_x, m_delta_y], 8, "closed form equality as in E01")
P("E06", "Tick limits, tick validity and per-tick liquidity limits are exact",
  "A tick is valid exactly when it is a multiple of the spacing within the supported range, whose ends are the outermost multiples of the spacing; the liquidity limit of a tick is the largest liquidity divided by the number of ticks, and the slippage minimum is the expected output less the tolerance, rounded up.",
  I, "all ticks and spacings", "Unit tests sample a few spacings.", ["calc/math"], [("tick bounds", "calc/math/clamm.rs")], [m_tick_bounds, m_min_out, m_enough], 7, "closed form equality as in E01")
P("E07", "Every supported tick has its price, and no other tick has one",
  "The price of a tick is the product of the square-rooted base's binary powers in the order of the bits, exactly as tabulated by repeated squaring, inverted for negative ticks; every tick in the supported range has a price and every other tick is refused.",
  I, "all 443,637 ticks", "Unit tests sample about ten ticks.", ["calc/math/types/sqrt_price.rs"], [("price of a tick", "calc/math/types/sqrt_price.rs")], [m_sqrt_price], 8, "closed form equality; the table's constants recomputed")

P("E08", "The tick of a price is exactly the one the price lies in",
  "For every supported price and every tick spacing up to 100 the tick computed from the price is the largest multiple of the spacing whose price is not above it, although it is found through a logarithm approximated by bits; prices outside the supported range have no tick. The SDK computes the same ticks.",
  I, "every price of each of the 443,637 ticks; all 100 spacings", "Unit tests try the prices next to tick boundaries, for a few spacings; an error of the logarithm on a range of prices between them goes unseen.", ["calc/math/log.rs", "sdk/src/wasm/log.rs"], [("tick of a price", "calc/math/log.rs")], [m_tick_of_price], 100,
  "interval abstract interpretation with trace partitioning over the prices of every tick; value of the tick for every spacing as a function of the tick for spacing 1")

P("E09", "A pool's first price lies in the step of its first tick",
  "A price is accepted for a tick exactly if it is at or above the price of that tick and below the price of the next multiple of the spacing; where that next multiple is beyond the supported range, exactly the price of the outermost tick is accepted. A price or tick outside the supported range is refused with an error.",
  I, "every tick, spacing and price", "Unit tests try a handful of ticks next to the end of the range.", ["calc/math/types/sqrt_price.rs", SDKW + "/custom.rs"], [("fit of a price and a tick", "calc/math/types/sqrt_price.rs")], [m_relationship] + on_sdk(m_relationship), 2,
  "value of the answer as a boolean function of the three inputs, and completeness; prices of ticks opaque (E07)")

# ---------------------------------------------------------------- F: bookkeeping
P("F01", "A tick is marked in the bitmap exactly while it exists",
  "Creating a tick sets its mark in the pool's tick bitmap and removing it clears the mark; a tick being created was unmarked before and one being removed was marked. No other operation and no other mark of any pool ever changes, so trades see exactly the ticks that exist.",
  H, "every pool, tick, spacing and bitmap; every sequence of openings and closings", "Unit tests flip single bits of a bitmap; the node tests never compare ticks with the bitmap.",
  [STO, SVC, "src/contracts/collections/tickmap.rs", "src/contracts/collections/ticks.rs"], [("tick bitmap", "src/contracts/collections/tickmap.rs"), ("creation and removal of ticks", SVC)],
  [spec_marks, C("tick bitmap")], 20, "post-state equation of a generic mark after the two calls that create or remove ticks, frame of the bitmap elsewhere", state=[("tick bitmap", "per pool and chunk", "src/contracts/collections/tickmap.rs")])
P("F02", "Every tick is stored under its own index",
  "The index recorded inside a tick is the index under which it is stored, in every pool, after every operation; trades write crossed ticks back under their own index.",
  H, "every pool, tick and sequence of operations", TEST + "they read back the few ticks they create.",
  [STO, SVC, "src/contracts/collections/ticks.rs"], [("tick store", "src/contracts/collections/ticks.rs")], [spec_tick_index, C("tick")], 20,
  "frame obligation on the recorded index of a generic tick at every commit point of every operation that may write ticks")
P("F03", "Positions of an account are numbered without gaps",
  "An account's positions are exactly those with an index below its position count, after every sequence of openings, closings and transfers, so that listing by index reaches each of them exactly once.",
  H, "every account, list length and index; every sequence of openings, closings and transfers, self-transfers included", TEST + "they use lists of at most three positions.",
  [STO, "src/contracts/collections/positions.rs"], [("position list", "src/contracts/collections/positions.rs")], [spec_dense, C("position", "position count")], 20,
  "induction: the three operations that write positions preserve the equivalence for a generic account and index, frame elsewhere")

P("F04", "Pools are created once, ordered, valid and enumerable",
  "A pool is created only for two different tokens, a registered fee tier, a valid tick and a price belonging to it, and only if that pair and tier has no pool yet in either order; it starts empty with the creation time and the administrator as fee receiver, and no other pool changes. Every pool is listed exactly once in creation order and the number of pools is what the list says.",
  H, "every sequence of creations", TEST + "they create up to three pools.", [SVC, STO, "src/contracts/collections/pools.rs", "src/contracts/collections/pool_keys.rs"],
  [("pool creation", SVC), ("pool list", "src/contracts/collections/pool_keys.rs")], [spec_create_pool, spec_pool_list, C("pool list")], 30, "guards, completeness and post-state equations of pool creation; frame of the pool list elsewhere")
P("F06", "The number of ticks of a pool is the number of marks in its bitmap",
  "The reported number of ticks of a pool is the number of bits set over all chunks of its bitmap, the last one included.",
  H, "every bitmap and tick spacing", "The node tests count at most a few ticks near the middle of the range.", [SVC, "src/contracts/collections/tickmap.rs"], [("count of ticks", SVC)], [spec_counts], 4,
  "induction over one arbitrary chunk of the counting loop; the visited chunks are those up to the largest one")

# ---------------------------------------------------------------- G: the SDK's copy of the exchange's calculations
NOTEST = "The SDK's TypeScript tests need a browser build and a running node and compare a few sample values; "
P("G01", "The SDK's formulas are the exchange's",
  "Every price, amount, fee, growth and limit formula of the SDK gives exactly the exchange's value: amounts of a price move, next prices (the price limit where the exchange refuses an unrepresentable price), trade steps, fee growths, growth inside a range, amounts of a liquidity change, tick limits, slippage minimum and tick prices.",
  I, "all inputs of each formula", NOTEST + "no test compares the two copies.", [SDKW + "/clamm.rs", SDKW + "/types"], [("formulas of trades and positions", SDKW + "/clamm.rs"), ("price of a tick", SDKW + "/types/sqrt_price.rs")],
  on_sdk(m_delta_x, m_delta_y, m_delta_total, m_next_price_x, m_next_price_y, m_next_price_dir, m_swap_step, m_fee_growth, m_inside, m_amount_delta, m_tick_bounds, m_min_out, m_enough, m_sqrt_price), 60,
  "closed form of each function derived from the MIR of the SDK's crate equals the definition the exchange's function is held to")
P("G02", "A simulated swap goes through the exchange's steps",
  "The SDK's simulation starts from the given pool and goes through the exchange's price steps: the same next target, step amounts, totals, tick crossing, liquidity and current tick. A result without a mark is a trade whose amount is used up; otherwise exactly one mark says why it is incomplete: liquidity is missing only at the end of the ticks, of the supported range or at the price limit, the steps ran out only after the allowed number, and the given ticks are outdated only if the limiting tick is not among them or does not fit the pool. An incomplete result reports the totals, price and crossed ticks of exactly the steps made until then.",
  I, "every pool, bitmap, list of ticks, amount, direction, kind of amount and limit; any number of steps", NOTEST + "they simulate a handful of swaps.", [SDKW + "/swap.rs", SDKW + "/storage/pool.rs", SDKW + "/storage/tick.rs"],
  [("simulation of a swap", SDKW + "/swap.rs"), ("tick update", SDKW + "/storage/pool.rs")], [sdk_trade], 500,
  "transfer equation of every running value over one arbitrary iteration per direction, kind of amount and way of ending; guards, completeness, and the conditions of each mark")
P("G03", "The SDK's tick search finds the tick the exchange finds",
  "In the bitmap of a pool as the SDK holds it, the search for the next target of a trade returns the nearest marked tick within the search range, none only if there is none, and the trade's target is chosen as on the exchange.",
  I, "every bitmap, every tick spacing from 1 to 100, every aligned tick, both directions", NOTEST + "they search bitmaps with a few marks.",
  [SDKW + "/collections/tickmap.rs"], [("search in the bitmap", SDKW + "/collections/tickmap.rs")], [sdk_search, sdk_closer], 400, "as D08, on the SDK's code")
P("G04", "What the SDK computes for a transaction is what the exchange will do",
  "The claimable fees of a position are those the exchange pays; the liquidity an amount of one token pays for is the exact quotient rounded down, with the other token's amount from the formula for that liquidity, and a range that takes none of the token is refused with an error; ticks and their places in the bitmap convert both ways. Fee tiers and pool keys are made by the exchange's rules and published limits are ones the exchange accepts.",
  I, "every position, amount, range, price, tick and spacing", NOTEST + "the scripts compute a few amounts on one pool.", [SDKW + "/custom.rs", SDKW + "/math.rs", SDKW + "/consts.rs", SDKW + "/collections/tickmap.rs", SDKW + "/storage/fee_tier.rs", SDKW + "/storage/pool_key.rs"],
  [("claimable fees", SDKW + "/custom.rs"), ("liquidity for an amount", SDKW + "/math.rs"), ("places of ticks", SDKW + "/collections/tickmap.rs"), ("keys", SDKW + "/storage/pool_key.rs")],
  [sdk_fee, sdk_liquidity, sdk_by_ticks, sdk_positions, sdk_keys, sdk_limits], 600, "closed form equality per case; conversions of ticks for each of the 100 spacings with a symbolic tick")

P("H01", "The SDK's bindings speak the exchange's wire format",
  "The TypeScript package's binding of every call of the exchange names that call, sends the call's parameters in the exchange's order and encodes each as the exchange decodes it, and decodes the reply as the exchange encodes it: the same layout down to every field and variant. No call lacks a binding. Each event is recognised by its name and decoded with the exchange's layout, by the bindings and by the client's listener, and the deployment encodes the configuration as the constructor decodes it.",
  I, "every call, event and value", "The SDK's tests need a running node and are not among those that run; the contract's tests encode and decode with the contract's own types, so they agree with themselves whatever the order of fields.",
  ["sdk/src/invariant-contract.ts", SVC, "io/src/lib.rs", "src/contracts/errors.rs"],
  [("bindings", "sdk/src/invariant-contract.ts"), ("messages", SVC), ("events and results", "io/src/lib.rs")],
  [spec_codec, spec_deploy_binding, spec_bindings, spec_event_bindings, spec_listener], 160, "layout of every message type of the type-checked program equals the layout the package's registry gives the type the binding names")
P("H02", "The SDK's client and helpers pass every argument in its place",
  "Every method of the TypeScript client hands the values it is given to the exchange's call of that name, each as the parameter it stands for: a pool is created at the tick of its opening price, a position is opened within the tolerated prices below and above the given one, a trade with a tolerance is limited on the side the price moves to, and a deposit of the native coin carries the amount. The package's mathematical helpers hand the compiled mathematics each value as the parameter it stands for, and its published constants are those of the compiled mathematics.",
  I, "every method and argument", "The SDK's tests need a running node and are not among those that run; most parameters share a type, so the compiler accepts any order.",
  ["sdk/src/invariant.ts", "sdk/src/utils.ts", "sdk/src/wasm-serializer.ts", "sdk/src/wasm"],
  [("client", "sdk/src/invariant.ts"), ("helpers", "sdk/src/utils.ts")],
  [spec_client, spec_helpers], 85, "value flow of each TypeScript method over symbolic parameters: argument i of the call is the parameter (or the named field of it) the callee declares at i")

P("H03", "The SDK's client hands back what the exchange answered",
  "Every query and call of the TypeScript client hands back the exchange's answer with nothing left out, exchanged or altered: each amount, price, index and time as the integer it is, each account and flag as it came, lists and tuples in their order, positions sorted by their index. A query the exchange refuses raises the exchange's error. A registered listener gets every event of its kind with its values, and none after it is taken off.",
  I, "every method, event and value of its type", "The SDK's tests need a running node and are not among those that run; they use values small enough to arrive as plain numbers.",
  ["sdk/src/invariant.ts", "sdk/src/utils.ts"],
  [("client", "sdk/src/invariant.ts"), ("conversions", "sdk/src/utils.ts")],
  [spec_answers], 65, "abstract interpretation of each method over the shape of its reply: every scalar comes back at its place, converted exactly when it is an integer")
P("H04", "The SDK's price and depth helpers compute what they name",
  "Price and root price are converted by squaring and by the root at the fixed point's scale. A root price with a tolerance is the root of the price raised or lowered by exactly that share. The price impact of a trade is the distance of the two prices over the larger one. The liquidity at each breakpoint is the sum of the signed changes up to it.",
  I, "every price, tolerance and list of ticks", "The SDK's tests need a running node and are not among those that run; they sample a few prices.",
  ["sdk/src/utils.ts"],
  [("prices and depth", "sdk/src/utils.ts")],
  [spec_prices], 6, "the polynomial (over integer quotients and roots) each helper computes on each path equals the stated one")


def N(pid, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, state=(), reason=reason))


N("N01", "The exchange can always pay everything it owes",
  "For every token the exchange's holdings are at least the sum of all recorded balances, all amounts and fees owed to open positions and all protocol fees not yet collected.",
  H, "every sequence of calls, every interleaving of replies", TEST + "they compare totals after a few of them.", [SVC, STO], [("all money movements", SVC)],
  "A sum over an unbounded set of positions whose terms are rounded products of run-time prices, liquidity and fee growth: no static argument in reach bounds it. Every step of it is claimed separately: what each call debits and credits (B01-B10), the direction of every rounding (E01-E05), the fee growth a position is paid for (B05, D03, D04).")
N("N02", "A pool's active liquidity is the sum of the positions in range",
  "After every call a pool's active liquidity equals the total liquidity of its positions whose range contains the current tick, and each tick's net liquidity equals the difference of the positions starting and ending at it.",
  H, "every sequence of openings, closings and trades", TEST + "unit tests check one tick at a time.", [SVC, "src/contracts/storage/pool.rs", "src/contracts/storage/tick.rs"], [("liquidity of a pool", "src/contracts/storage/pool.rs")],
  "A sum over an unbounded set maintained by calls that each touch two ticks: the inductive step needs the sum as a ghost quantity, which is deductive proof, not dataflow. The transfer equations the induction would use are claimed: openings and closings change the pool and exactly two ticks by exactly the position's liquidity (D05, D07), a crossing applies exactly the tick's net amount (D04), marks and ticks agree (F01).")
N("N03", "Splitting a trade never pays",
  "A trade carried out in several parts never gives the trader more than the same trade carried out at once.",
  I, "every pool, amount and way of splitting it", "Unit tests compare a few splits.", ["calc/math/clamm.rs"], [("steps of a trade", "calc/math/clamm.rs")],
  "A relation between two executions with different numbers of loop iterations over nested rounded divisions; term rewriting does not prove such inequalities and an interval analysis loses the correlation they rest on. The rounding of each step in the pool's favour is claimed (E01, E03).")
N("N04", "Every call finishes within a message's gas",
  "No trade, opening or query the exchange accepts runs out of the gas a message may carry.",
  I, "every pool, however many ticks are crossed", "The node tests fix one gas amount.", [SVC], [("loop over price steps", SVC)],
  "Gas is a run-time quantity of the compiled wasm; the number of steps of a trade is bounded only by the state. No static bound on the source decides it.")
N("N05", "A withdrawal that was started is answered in the end",
  "Every transfer the exchange starts on a token contract is followed by a reply or by an expiry that puts the money back.",
  ["schedules", "fault_sequences"], "every behaviour of the token contract and of the network", TEST + "with well-behaved tokens.", [SVC], [("transfers", SVC)],
  "A liveness property of the network and the called contract, outside the program analysed. What the exchange does on each answer, or on none, is claimed (B06-B08).")


def register():
    for p in TABLE:
        def go(ctx, p=p):
            for g in p["groups"]:
                g(ctx)
        PROPS[p["id"]] = Prop(p["id"], go, p["floor"], TS_TECH if p["id"][0] == "H" else TECH, p["rule"])


TS_TECH = "value-flow analysis over the TypeScript syntax tree, compared with the layouts and parameters of the type-checked Rust program"
TECH = "gated value-flow analysis over MIR (abstract interpretation to closed-form summaries, compared by term rewriting)"
register()

"""Which harnesses decide which property, and within which bounds."""
ASSUME_COMMON = [
    "rustc 1.72.1 release semantics (wrapping arithmetic, opt-level 1, 64-bit little-endian) stand for the deployed BPF build",
    "SPL-token Transfer, Clock and Rent follow the models in harness/*/src/world.rs",
    "the executor, its term simplifier and z3/cvc5 are trusted; sampled paths are replayed natively on every run",
]


def H(names, **kw):
    return [dict(name=n, **kw) for n in names.split()]


# name -> expected seconds on all cores (scheduling weight), bounds
PRIO = H("order_priority_bid", weight=36, bounds="<=3 resting orders at prices {3,5}, 24-bit quantities, 26-bit taker quantity, 38-bit budget, 3 order types, 5 limit prices") \
    + H("order_priority_ask", weight=2, bounds="as order_priority_bid, selling")
PRIO_HI = H("order_priority_bid_hi", weight=23, bounds="<=2 resting orders at 2^32-1 and 2^33+1, 16-bit quantities") + H("order_priority_ask_hi", bounds="as bid")
TYPES = H("order_types_bid", weight=13, bounds="<=2 foreign orders, <=1 own-side order, limit 0..3, all types, both market versions, 24-bit quantities") + H("order_types_ask", bounds="as bid")
SELF = H("order_self_trade_bid", weight=31, bounds="2 resting orders, own or foreign each, 3 self-trade rules, limit/IOC, 24-bit quantities") + H("order_self_trade_ask", bounds="as bid")
BOOT = H("order_boot_bid order_boot_ask", weight=2, bounds="book capacity 3, 0..3 own-side orders, <=1 crossing order, 24-bit quantities")
FUND = H("order_funding_bid", weight=25, bounds="60-bit balances and payer, 36-bit quantity, 58-bit budget, <=1 crossing order; slots, expiry, queue occupancy varied") \
    + H("order_funding_ask", weight=3, bounds="as bid")
TIERS = H("order_fee_tiers_bid order_fee_tiers_ask", weight=2, bounds="64-bit discount balance, 30-bit quantities, 58-bit budget, all tiers")
XPRICE = H("order_extreme_price_bid", weight=10, bounds="8x8 prices from 1 to 2^52, quantities 1..8") + H("order_extreme_price_ask", bounds="as bid")
ANYPRICE = H("order_any_price_ask", bounds="any 64-bit limit price vs any 56-bit resting price") \
    + H("order_any_price_bid", weight=300, tier="thorough", bounds="any 16-bit limit price vs any 16-bit resting price")
SETTLE = H("settle_pays_exact settle_always_possible", bounds="all balances, totals, rebates 64-bit")
CONSUME = H("consume_one", weight=2, bounds="one event of any kind, 64-bit amounts") + H("consume_fifo", weight=3, bounds="<=3 events, any head, any supplied subset") + H("consume_many", weight=3, bounds="12 events of 7 accounts, any amounts")
CANCEL = H("cancel_by_id cancel_by_client_id cancel_prune cancel_replace_one", bounds="4 resting orders, 4 slots, 128-bit ids, 64-bit client ids, 24-bit quantities") \
    + H("cancel_by_client_ids cancel_replace_batch cancel_replace_full", weight=5, bounds="3 client ids, also at the end of a full batch; 2 replacements, or 1 at the end of a full batch")
TAKE = H("take_ask", weight=9, bounds="<=2 resting orders, 24-bit quantities, 64-bit minimums") + H("take_bid", weight=24, bounds="as ask")
BIG = H("order_big_bid order_big_ask", weight=4, bounds="lots of about 2^34 with 12-bit quantities, and 42-bit quantities with small lots, one order on the other side or a full own side")
TBIG = H("take_big_bid take_big_ask", weight=1, bounds="as order_big_*, one resting order")
TTAKE = H("take_tiers_ask take_tiers_bid", weight=2, bounds="64-bit discount balance, 30-bit quantities")
HIST = H("history_bid_maker_trade history_bid_maker_self history_bid_maker_take history_bid_maker_rest", weight=2, bounds="maker order, second order/swap, consume, settle all; 20-bit quantities") \
    + H("history_ask_maker_trade history_ask_maker_take history_ask_maker_self history_ask_maker_rest", weight=20, bounds="as bid")
DEEP = H("history_deep_bid_maker_trade history_deep_bid_maker_self history_deep_bid_maker_take history_deep_bid_maker_rest history_deep_ask_maker_trade history_deep_ask_maker_self history_deep_ask_maker_take history_deep_ask_maker_rest", weight=60, tier="thorough", bounds="longer histories")

SLAB = H("slab_ops3 slab_ops4_small", weight=9, bounds="3 or 4 operations, any 128-bit keys, up to 4 orders") \
    + H("slab_ops5_bits slab_churn_long", weight=25, bounds="5..10 operations, keys differing in up to 6 bits") \
    + H("slab_even slab_churn slab_chain slab_bush", weight=3, bounds="7 orders in deep and bushy trees, then any 128-bit keys") \
    + H("slab_ops4 slab_mixed slab_ops6_bits", weight=170, tier="thorough", bounds="4 operations with any keys; 6 with 6-bit keys; 10 on a mixed tree")
QUEUE = H("queue_requests queue_events3 queue_events4 queue_long", bounds="queues of 2..4 entries in any position, 3..4 operations, any contents; a queue of 600 entries at 88 fill states")
WIRE = H("wire_decode wire_round_trip wire_builders", bounds="31 payload lengths, any bytes in the first 72, any discriminant; every instruction with any field values")
OOLIFE = H("oo_init oo_init_by_order oo_reinit oo_close oo_closed_is_dead", bounds="any keys, lamports, balances, slot bits, flags; both market versions")
CREATE = H("market_create_params market_create_used market_create_rent market_create_vaults market_create_sizes market_create_signer market_create_mints market_create_count",
           bounds="any parameters and keys, each account in turn with any owner, header, padding, lamports, vault fields; sizes around the minimum; 5 nonces")
A_ORDER = H("auth_new_order auth_replace", bounds="one account of the list replaced in any way (any key, owner program, padding, flags, recorded owner or market); any balances and order parameters")
A_TAKE = H("auth_send_take", bounds="as auth_new_order")
A_CANCEL = H("auth_cancel", bounds="as auth_new_order")
A_PRUNE = H("auth_prune", bounds="as auth_new_order")
A_SETTLE = H("auth_settle", bounds="as auth_new_order")
A_CONSUME = H("auth_consume", bounds="as auth_new_order")
A_REST = H("auth_disable_sweep auth_close_init", bounds="as auth_new_order")
POWER = H("power_disable power_sweep power_crank power_prune", bounds="any signer key, any market balances, three market kinds")
P_CRANK = [h for h in POWER if h["name"] == "power_crank"]
P_PRUNE = [h for h in POWER if h["name"] == "power_prune"]
D_ENTRY = H("disabled_entry", bounds="every entering instruction, any balances and order parameters")
D_EXIT = H("disabled_exit", bounds="every exiting instruction on one populated market, compared with the same on an open market")

P_PRICE = H("pool_create_any_request0 pool_create_any_request1 pool_create_any_request2", weight=30, crate="pool", bounds="any 64-bit request, 2 fee rates, fixed holdings and supplies up to 2^63") \
    + H("pool_redeem_any_request0 pool_redeem_any_request1 pool_redeem_any_request2", weight=7, crate="pool", bounds="any 64-bit request, 2 fee rates, fixed holdings and supplies") \
    + H("pool_create_any_request3 pool_redeem_any_request3", weight=42, tier="thorough", crate="pool", bounds="as above, fourth state") \
    + H("pool_create_any_holdings pool_redeem_any_holdings", crate="pool", bounds="any 64-bit holdings, fixed requests and supplies") \
    + H("pool_create_small pool_redeem_small", weight=20, crate="pool", bounds="request, supply and both holdings all symbolic up to 6 bits")
P_QUOTE = H("pool_quote pool_refuses", crate="pool", bounds="8-bit requests; three-asset pool")
P_FEE = H("pool_fee_split", weight=17, crate="pool", bounds="any 64-bit amount at 6 rates; any 32-bit rate at 7 amounts") + H("pool_fee_exempt", weight=30, crate="pool", bounds="40-bit amounts, fee vault owners in every combination")
P_AUTH = H("pool_auth_create pool_auth_redeem pool_auth_quote", weight=3, crate="pool", bounds="each account in turn with any other key, owner program, mint, owner or signature; two-asset pool")
P_INIT = H("pool_init_state pool_init_accounts pool_init_tokens pool_init_rent", weight=3, crate="pool", bounds="any fee rate, names and states within 2 assets, each account in turn not genuine")
P_CUST = H("pool_custom", crate="pool", bounds="a pool that records what its rules were asked; every request kind, any 64-bit size, 2 assets") + H("pool_custom_init", crate="pool", bounds="any fee rate set by the pool's own initialization")
ADMIN = H("admin_settings admin_unpause admin_approve admin_assets admin_paused admin_init", crate="admin", bounds="two-asset pool (one for trading and creation), each account in turn not genuine, any keys, amounts, fee rates and token account contents")
P_OWN = H("assert_owner_exact", crate="pool", bounds="any 256-bit owner and expected key, payload lengths 0..40")
X_RELAY = H("proxy_new_order proxy_new_order_old proxy_cancel proxy_cancel_client proxy_settle proxy_close", weight=2, crate="proxy", bounds="any instruction payload, 2 users, 4 open-orders addresses, 3 lot sizes, signatures in every combination")
X_REST = H("proxy_unsupported proxy_crank proxy_init proxy_referral proxy_middleware_order proxy_middleware_all", weight=2, crate="proxy", bounds="any discriminant and payload bytes, any target program and referrer key, any limit, any prior lamports")

K_CLIENT = H("client_keys client_settle client_place_order client_cancel client_cancel_batch client_close client_init client_list_market client_tokens", weight=1, crate="crank", bounds="any amounts, ids, limits and rent; failing simulation or submission; fixed keys")
K_EVENTS = H("crank_consume_instruction", weight=20, crate="crank", bounds="event queue of 4 entries at any position and fill, any owners")
K_EVENTS += H("crank_many_owners", weight=2, crate="crank", bounds="event queue of 35 entries at any position, 31 to 35 distinct owners")
K_EVENTS += H("crank_send_events", weight=3, crate="crank", bounds="event queue of 2 entries at any position and fill, any owners; submission failing")

PROPS = {
    "C01": dict(bounds="all balances, flags and slot bits are full 64/128-bit symbolic values; one instruction", harnesses=SETTLE + A_SETTLE + D_EXIT),
    "C02": dict(bounds="histories of up to 3 trading steps followed by a full drain, 2 traders, 20-bit quantities; single steps of every instruction on larger states",
                outside="longer histories with more than two live orders per side; quantities beyond the stated widths",
                harnesses=CONSUME + SETTLE + CANCEL + BOOT + H("power_sweep") + HIST + PRIO[1:] + FUND[1:] + DEEP),
    "C03": dict(bounds="books of up to 3 resting orders, 24-bit quantities; any two prices against each other", outside="books with more than 3 orders; quantity times price beyond 2^61",
                harnesses=TYPES + BIG + PRIO + PRIO_HI + XPRICE + ANYPRICE),
    "C04": dict(bounds="books of up to 3 resting orders, 24-bit quantities, 44-bit budgets, lot sizes 2..100", outside="larger books; symbolic lot sizes; fee arithmetic beyond 2^60 quote units",
                harnesses=CONSUME + TIERS + BIG + TBIG + BOOT + PRIO + TYPES + XPRICE + SELF),
    "C05": dict(bounds="books of up to 3+1 resting orders, all types, self-trade rules, match limits 0..10, 24-bit quantities", outside="larger books and match limits",
                harnesses=BIG + BOOT + TYPES + SELF + FUND),
    "C06": dict(bounds="60-bit balances, one incoming order, at most one crossing order", outside="quantity times lot size beyond 2^60", harnesses=A_ORDER + OOLIFE[1:2] + BIG + BOOT + FUND + TYPES),
    "C07": dict(bounds="one event with any 64-bit content; up to 3 events in any queue position; 12 events of 7 accounts", outside="more events or accounts per call", harnesses=CONSUME + A_CONSUME + P_CRANK + QUEUE),
    "C08": dict(bounds="4 resting orders, 4 occupied slots, any ids, up to 3 ids per batch, alone or ending a full batch", outside="batches of 4 to 8 matching ids; larger books",
                harnesses=CANCEL + A_CANCEL + A_PRUNE + A_ORDER[1:] + P_PRUNE + D_EXIT),
    "C09": dict(bounds="up to 10 operations on up to 8 orders; fully symbolic 128-bit keys for up to 4 operations", outside="books beyond 8 orders", harnesses=SLAB),
    "C10": dict(bounds="all 64-bit discount balances; 30-bit quantities at one price", outside="other prices (see C04)", harnesses=TIERS + TTAKE + A_ORDER[:1] + A_TAKE + PRIO[1:]),
    "C11": dict(bounds="books of up to 2 resting orders, 24-bit quantities, 44-bit budget, 64-bit minimums", outside="larger books", harnesses=TTAKE + TBIG + A_TAKE + TAKE),
    "C12": dict(bounds="all fields of the account, keys, lamports and balances symbolic; one instruction", harnesses=OOLIFE + A_REST[1:] + D_EXIT),
    "C13": dict(bounds="one account or any two substituted, in every way that makes it not genuine, with any balances and parameters", outside="three simultaneous substitutions; other book contents",
                harnesses=A_ORDER + A_TAKE + A_CANCEL + A_PRUNE + A_SETTLE + A_CONSUME + A_REST + OOLIFE[:3]),
    "C14": dict(bounds="any parameters; accounts of minimum size; one requirement violated at a time", outside="vault signer nonces beyond 5 values; larger accounts", harnesses=CREATE),
    "C15": dict(bounds="any signer key and signature, any market balances, plain, permissioned and crank-restricted markets", harnesses=POWER + A_PRUNE + A_CONSUME + A_REST + OOLIFE[:2]),
    "C16": dict(bounds="payload lengths 0..494 (31 values), any bytes in the first 72; every instruction with any field values, batches of 0..8", outside="other lengths", harnesses=WIRE),
    "C17": dict(bounds="queues of up to 4 entries in any position, up to 4 operations, any contents; a queue of 600 entries at its ends; 3 events through the program", outside="queues of more than 600 entries", harnesses=QUEUE + CONSUME + FUND[1:] + H("cancel_by_id")),
    "C18": dict(bounds="every instruction on one populated market, any balances and order parameters for those refused", outside="other book contents", harnesses=D_ENTRY + D_EXIT + POWER[:2] + SETTLE + OOLIFE[3:4]),
    "C19": dict(bounds="pools of 2 assets; any request at fixed holdings, any holdings at fixed requests, everything symbolic up to 6 bits", outside="products of two large symbolic amounts; pools of more than 3 assets", harnesses=P_PRICE + P_QUOTE),
    "C20": dict(bounds="any amount at 6 fee rates and any fee rate at 7 amounts; 40-bit amounts for exemption", outside="both amount and rate large and symbolic at once", harnesses=P_FEE + P_PRICE[:6]),
    "C21": dict(bounds="one account or any two substituted, in every way that makes it not genuine", outside="three simultaneous substitutions; pool addresses other than the fixture's (program-derived addresses are computed concretely)", harnesses=P_AUTH),
    "C22": dict(bounds="any fee rate and parameters; one requirement violated at a time; 2 assets", outside="more assets; other vault signer nonces", harnesses=P_INIT + P_CUST[1:]),
    "C23": dict(bounds="any owner and expected key; payload lengths 0..40", harnesses=P_OWN),
    "C24": dict(bounds="any instruction payload; 2 users, 4 open-orders addresses, signatures in every combination", outside="user and market keys other than the fixture's (program-derived addresses are computed concretely)", harnesses=X_RELAY + X_REST[:3]),
    "C25": dict(bounds="any prior lamports, referrer key and limit; 2 users and accounts, right and wrong bumps; up to 3 middlewares, a failure at each of 5 steps and of any callback", outside="other keys; more middlewares", harnesses=X_REST[2:]),
    "C26": dict(bounds="any amounts, ids, limits, rent price and event owners; 4-entry event queue; simulation or submission failing", outside="keys other than the fixture's; accounts that do not exist; longer event queues", harnesses=K_CLIENT + K_EVENTS),
    "C28": dict(bounds="every request kind with any 64-bit size, one custom pool of 2 assets that accepts or refuses, both extra accounts", outside="rules that themselves move tokens (see C19, C29); bigger pools", harnesses=P_CUST),
    "C29": dict(bounds="two-asset pools, paused or not; any caller, keys, amounts, fee rates and token account contents, one requirement violated at a time", outside="pools of more than 3 assets; sequences (each instruction is checked from an arbitrary paused or running state)", harnesses=ADMIN),
}
NOT_APPLICABLE = {
    "C27": "liveness of the crank's loop: it depends on threads, sleeps, wall-clock time, a random number generator and an unbounded number of RPC answers; within any bound on steps the statement 'eventually' has no counterexample, and scheduler, sockets and clock cannot be encoded",
}

import json
R=[]
def p(id,title,stmt,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    R.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
S="dex/src/state.rs"; M="dex/src/matching.rs"; L="dex/src/critbit.rs"; I="dex/src/instruction.rs"; F="dex/src/fees.rs"
p("C01","Settling pays an account exactly its free balances",
 "A successful settlement, signed by the owner, moves exactly the account's free base and quote balances from the market's vaults to the given wallets and exactly its accrued referral rebate to the referrer (or to the market's fees if none is given). The account's and the market's recorded totals fall by exactly what was paid and nothing else changes. The owner of a consistent account can always settle, also on a disabled market.",
 ["inputs","configurations"],"every 64-bit balance, total, fee and rebate value, every slot state, both market versions, enabled or disabled, with or without referrer, signed or not",
 "the tests settle a handful of fixed balances; a wrong amount, a skipped decrement or an overflow shows only for particular balance combinations",
 [S],[("process_settle_funds",S),("SettleFundsArgs account checks",S)])
p("C02","The vaults always cover every claim, and every claim can be withdrawn",
 "After any sequence of orders, swaps, cancels, event processing and settlements, each vault holds at least what the market records as deposits, fees and rebates, and those records equal what all accounts own plus what pending events still owe. Nothing is created or lost, so once the book and the event queue are drained every trader can withdraw everything they own.",
 ["histories","inputs"],"histories of a maker order, a second order or swap of either side (same or another trader), optional cancels, event processing, and settlement by everyone, with symbolic quantities, funds and budgets",
 "an accounting leak is a property of a history: it may need a partial fill, a self-trade or a rounding remainder in one step and shows only steps later, for some amounts",
 [S,M],[("send_order / take_book / fee accounting",M),("process_new_order_v3, process_consume_events, process_settle_funds",S)])
p("C03","Matching follows price-time priority and never trades through a limit",
 "An incoming order trades against the best-priced resting orders first and, among equal prices, the oldest first; every trade happens at the resting order's price. No order ever trades at a price worse than its limit, and trading stops only when the order is exhausted, the book no longer crosses, or the caller's match limit is reached.",
 ["inputs"],"books of up to three resting orders at two price levels (including prices around 2^32), any quantities and budgets, every limit price of interest, every order type and both sides; any two 64-bit prices against each other",
 "the tests match a few fixed books; the order of fills and the crossing comparison can go wrong only for particular price, sequence and quantity combinations",
 [M,L],[("match_unmatched_sell / match_unmatched_buy, send_order",M),("OrderBookState find_bbo and order keys",M),("Slab ordering",L)])
p("C04","Each trade moves exactly quantity times price plus the stated fee",
 "For every trade the buyer pays and the seller receives quantity times price in exact lot units, the taker is charged the taker fee of its tier rounded against the taker, the maker receives its rebate, and the remainder is split between exchange fees and referral rebates. Locked funds not used by a trade are released to their owner, a buyer never pays more than its stated maximum, and base and quote amounts balance to zero over trader, counterparty events, fees and rebates.",
 ["inputs"],"books of up to three resting orders, any quantities and any quote budget within the stated widths, lot sizes above one, both sides, all order types",
 "rounding and remainder handling go wrong only for particular quantity, budget and price residues that a few sampled trades do not hit",
 [M,F,S],[("send_order fill accounting",M),("taker_fee, maker_rebate, referrer_rebate",F),("process_new_order_v3 credit/debit",S)])
p("C05","Order types, self-trade rules and expiry do exactly what they promise",
 "A post-only order never takes liquidity and an immediate-or-cancel order never rests; a limit order rests exactly its unfilled part. The chosen self-trade rule is honoured (both sides reduced without a trade or fee, own resting order withdrawn, or the whole instruction refused), an order past its expiry time is refused, and a full book side makes room by returning its least aggressive order with its funds.",
 ["inputs"],"every order type, self-trade rule, match limit and expiry against books with own and foreign resting orders, symbolic quantities and budgets, both sides, full and non-full books",
 "each rule interacts with partial fills, the match limit and book capacity; the interactions are not enumerated by tests",
 [M,S],[("send_order order-type and self-trade handling",M),("new_bid / new_ask posting and booting",M),("max_ts check in process_new_order_v3",S)])
p("C06","Placing an order reserves exactly the funds it needs and records it once",
 "An accepted order takes its funds first from the account's free balance and only the shortfall from the payer, moves that shortfall into the right vault, and raises the recorded totals by the same amount. It occupies one free slot with a fresh order id, the right side and the client's id; the order is refused if funds, slots, event space or an empty request queue are missing.",
 ["inputs"],"every free/locked balance, payer balance, slot bitmap pattern of interest, event-queue fill and request-queue state, symbolic quantity and budget, both sides, empty or crossing book",
 "funding mixes free balance and deposit; errors appear only at particular combinations and are invisible to tests that always deposit in full",
 [S],[("process_new_order_v3",S),("OpenOrders lock/unlock/add_order",S)])
p("C07","Processing events credits each party exactly once, in order",
 "Consuming events credits each fill to the maker's account and releases exactly the funds named by an out event, freeing the order's slot when the order is finished. Events are taken strictly from the front in order, each is applied exactly once to the account it names, at most the requested number is taken, and processing stops at the first event whose account was not supplied.",
 ["inputs","schedules"],"every event kind, side and amount, one to three queued events over any subset and order of supplied accounts, any queue head position, any limit",
 "double or skipped crediting depends on the queue's position, the supplied accounts and the mix of event kinds; the tests consume whole queues in one way",
 [S],[("process_consume_events",S),("QueueHeader pop_front",S),("OpenOrders credit / remove_order",S)])
p("C08","Only its owner can cancel an order, and gets back exactly what it locked",
 "Cancelling by order id or client id, singly or in batches, removes exactly the named orders of the calling account, makes exactly their locked funds free and emits one out event each; nobody else's order can be removed. Replacing orders is exactly such a cancel followed by placing the new ones, and pruning removes only orders of the account named by the prune authority, and no more than the given limit.",
 ["inputs"],"any order id (128-bit), any client ids (including duplicates and zero), any quantities, books with orders of the caller and of others, an order that already left the book, full and empty event queue, signed or not",
 "identity matching over ids and slots must hold for every id value; tests cancel orders they just placed",
 [S,M],[("process_cancel_order_v2 / by_client_id(s)_v2",S),("process_replace_orders, process_prune",S),("cancel_order_v2, cancel_orders",M)])
p("C09","The order book is a faithful sorted map",
 "After any sequence of insertions and removals each side of the book holds exactly the orders inserted and not removed, with their contents intact, and always finds the lowest and highest order correctly. Removing by id removes exactly that order or reports it absent, an insertion fails only when the book is full and then changes nothing, and storage freed by a removal can be used again.",
 ["histories","inputs"],"operation sequences with arbitrary 128-bit order ids, in trees of every shape up to the bound, including full books",
 "which nodes are split, moved and recycled depends on the bit patterns of all ids involved and on the history; sampled ids rarely produce the shapes where a mistake shows",
 [L],[("Slab insert_leaf, remove_by_key, find_min/find_max, free list",L)])
p("C10","Fees follow the trader's own token holdings and the published tiers",
 "The fee tier of an order is the best one earned by the supplied discount-token account, which must belong to the signer and hold one of the two discount tokens; stable markets use the stable tier. Fees and rebates charged on a trade are those of that tier at the published rates, a maker's rebate never exceeds the taker's fee, and resting orders keep the tier they were placed with.",
 ["inputs","configurations"],"every 64-bit discount-token balance, right and wrong mints and owners, every listed stable market and near misses, symbolic traded amounts",
 "tier boundaries and rounding are a handful of exact values among 2^64; tests do not use discount tokens",
 [F,S,M],[("FeeTier::from_srm_and_msrm_balances and rates",F),("load_fee_tier",S)])
p("C11","A swap settles immediately within the trader's limits or not at all",
 "A swap trades only immediately available liquidity at or better than the limit price, takes from the signer's wallet exactly what the trades cost and delivers exactly what they yield. It never spends more than the stated maximum nor delivers less than the stated minimum, never rests on the book, and otherwise fails leaving no effect.",
 ["inputs"],"books of up to two resting orders, any quantity, budget and 64-bit minimum, wallet and vault balances symbolic, every match limit of interest, signed or not, both market versions, with and without fee discount",
 "minimum and maximum checks interact with partial fills and fees; only some amounts expose a wrong comparison",
 [S,M],[("process_send_take",S),("SendTakeArgs account checks",S)])
p("C12","Trading accounts are born owned and empty, and die only when empty",
 "A new open-orders account is opened only with its owner's signature, when it is rent exempt and, on a permissioned market, with the market's authority; it then belongs to exactly that owner and market and holds nothing. It can be closed only by its owner and only without open orders or funds, on which its whole rent goes to the named destination; a closed account is accepted by no instruction and an existing one is never reset.",
 ["inputs","configurations"],"any keys, signatures, lamports, flags, balances and slot bits; plain and permissioned markets, enabled or disabled",
 "a missing condition shows only for the particular combination of signer, authority, balance and flag that it should have refused",
 [S],[("load_orders_mut, OpenOrders::init",S),("InitOpenOrders, CloseOpenOrders",S)])
p("C13","Every instruction refuses accounts that are not the genuine ones",
 "An instruction succeeds only if every account it uses is the genuine one: the market, its queues, books and vaults are those recorded and owned by the program, the trading account belongs to this market and to the signer, wallets and mints match, and whoever must sign has signed. Replacing any single account by any other one makes the instruction fail.",
 ["inputs"],"every account position of every instruction, replaced by an account with any other key, owner program, padding, flags, recorded market, owner or mint, or lacking a signature, with any balances and parameters",
 "the tests pass genuine accounts; a check that is missing or too weak is only visible to the one forged account it lets through",
 [S],[("account_parser",S),("Market::load, load_*_mut, check_flags",S)])
p("C14","A market is created only from fresh accounts and vaults it alone controls",
 "Creating a market succeeds only if its five accounts are unused, owned by the program, large enough and rent exempt, and both vaults hold the right mint and are controlled by nobody but the market (right owner, no delegate, no close authority). The market then records exactly the given accounts, lot sizes, parameters and authorities, with empty books and queues and nothing owed.",
 ["inputs","configurations"],"any parameters and authority keys; each account in turn with any owner, header, padding, lamports, mint, delegate, close authority and state; sizes around the minimum; 10 to 13 accounts",
 "the tests create one well-formed market; a vault someone else can empty or an account already in use is exactly what they do not try",
 [S],[("InitializeMarketArgs::new",S),("process_initialize_market",S)])
p("C15","Privileged keys can do exactly their job and nobody else can do it",
 "Only the disable authority can disable a market, only the sweep authority can collect fees, and it receives exactly the accrued fees and never traders' funds. Only a market's prune authority can remove other people's orders, only its open-orders authority can admit traders, and where a crank authority is set only it can process events, while elsewhere anyone can; each of these needs that key's signature.",
 ["inputs","configurations"],"any signer key, signed or not, any market balances, plain, permissioned and crank-restricted markets, enabled or disabled",
 "the tests call these instructions, if at all, with the right key; a wrong comparison or a missing signature check shows only with another one",
 [S,I],[("SigningDisableAuthority, SigningFeeSweeper, PruneAuthority",S),("process_sweep_fees, process_disable_market, process_prune",S),("ConsumeEventsArgs",S)])
p("C16","Clients and program agree on every instruction's bytes",
 "Every byte string is either rejected or decoded to exactly the instruction its format says, without ever panicking. Whatever a client packs is decoded to the same instruction with the same field values, and the instruction builders name the accounts the program expects, in order and with the signatures it requires.",
 ["inputs"],"any bytes of any listed length and any discriminant; every instruction with any field values, batches of up to eight orders; every builder",
 "a swapped or truncated field, a wrong length or an accepted malformed value shows only for particular bytes",
 [I],[("MarketInstruction::unpack / pack",I),("instruction builders",I)])
p("C17","The event queue loses, repeats and reorders nothing",
 "The queues deliver every pushed entry exactly once and in order, at any position of the ring; a full queue refuses the push and overwrites nothing, and taking back recent pushes leaves the older entries intact. Event sequence numbers count every pushed event without gaps.",
 ["histories","inputs"],"any ring position and fill level, any contents, any sequence of pushes, deliveries, edits and reverts within the bound",
 "wrap-around and full-queue mistakes need a particular head, count and operation sequence",
 [S],[("Queue push_back, pop_front, revert_pushes, iter",S),("EventQueueHeader",S)])
p("C18","On a disabled market traders can leave but nobody can enter",
 "Once disabled, a market accepts no new order, swap, replacement, trading account, prune or fee sweep. Cancelling, event processing, settling and closing accounts keep working and have exactly the effect they have on an open market, so all funds can be withdrawn.",
 ["inputs","configurations"],"every instruction on plain, permissioned and crank-restricted markets, any balances and order parameters",
 "the tests never disable a market and then exercise the whole instruction set on it",
 [S],[("Market::load / check_flags allow_disabled",S)])
PL="pool/src/lib.rs"; PX="pool/src/context.rs"; PP="pool/src/pool.rs"; PS="pool/schema/src/schema.rs"; AO="assert-owner/src/lib.rs"; XP="dex/permissioned/src/proxy.rs"; XM="dex/permissioned/src/middleware.rs"
p("C19","Pool shares are issued and redeemed at the pro-rata price, never cheaper",
 "Creating pool tokens moves from the user to the pool, for every asset, the pro-rata share of the pool's holding rounded up, and issues exactly the requested number of tokens, fees included; redeeming takes exactly the redeemed tokens, burns all but the fee and pays out the pro-rata share of the net amount rounded down. So no request ever dilutes the other holders by more than it pays for. A quote changes nothing and states the same pro-rata amounts, and a pool without tokens refuses.",
 ["inputs"],"any requested amount, any holdings and supplies within the stated widths, two fee rates, any user and fee-account balances, signed or not",
 "rounding in the wrong direction or an overflow shows only for particular residues of holding times request by supply",
 [PX,PP,PL],[("get_simple_basket, mint_tokens, burn_tokens_and_collect_fees, transfer_basket_*",PX),("Pool::process_creation / process_redemption",PP)])
p("C20","Pool fees are charged at the pool's rate and split as specified",
 "Every creation and redemption is charged the pool's rate in pool tokens, rounded up, of which the protocol receives two fifths but at least 0.01%, the referrer up to half of that and the initializer the rest; the parts always add up to the total and never exceed the amount. Each fee account receives exactly its part, a holder of a fee account does not pay that part to himself, and rates outside the legal range are refused.",
 ["inputs","configurations"],"any 64-bit amount at several rates including the extremes, any 32-bit rate at several amounts, each fee account as the user's own",
 "the parts are rounded separately; a lost or doubled unit and an underflow appear only for particular amounts and rates",
 [PX],[("Fees::from_fee_rate_and_tokens, get_fees",PX),("mint_tokens, burn_tokens_and_collect_fees",PX)])
p("C21","A pool request accepts only the pool's own and the signer's own accounts",
 "Creating, redeeming and quoting succeed only if the pool account, pool-token mint, vaults, vault authority, fee accounts and declared parameter accounts are the ones the pool records, with the recorded mints and owners, the token program is the real one, and the user signed and owns what is spent. Replacing any single account by any other one makes the request fail.",
 ["inputs"],"every account position replaced by an account with any other key, owner program, mint, token owner, uninitialized or wrongly tagged contents, or lacking a signature, with any balances",
 "the pool has no tests of its account checks; a missing one is visible only to the forged account it lets through",
 [PX,PL],[("PoolContext::new, UserAccounts::new, FeeAccounts::new, check_account_address, check_token_account",PX),("get_state",PL)])
p("C22","A pool is created once, from accounts it controls, and records them exactly",
 "Initialization succeeds exactly if the pool account is unused and owned by the program, all accounts are rent exempt, the mint and vaults are controlled by the signer derived from the pool and nonce (a vault may be delegated to it), the protocol fee account belongs to the protocol with no delegate or foreign close authority, and the fee rate is legal. The pool then records exactly the given accounts, mints, nonce, name and rate; an existing pool is never reinitialized and a refusal writes nothing.",
 ["inputs","configurations"],"any fee rate and lamports, each account in turn with any other owner, authority, mint, delegate, close authority or state, used and unused pool accounts, right and wrong nonces",
 "nothing tests pool initialization; each missing requirement needs its own malformed account to show",
 [PL,PX],[("initialize_pool, check_lqd_fee_account, save_state",PL),("check_rent_exemption, derive_vault_authority",PX)])
p("C23","Assert-owner accepts exactly accounts owned by the named program",
 "The assert-owner program succeeds exactly if its first account is owned by the program whose 32-byte key is the instruction data. It fails for any other owner, for data of any other length and without accounts.",
 ["inputs"],"any two 256-bit keys, data lengths around 32, zero to two accounts",
 "the program has no tests; a comparison that ignores some bytes shows only for keys differing there",
 [AO],[("entry",AO)])
p("C24","The permissioned proxy acts only for the user who signed, and only as asked",
 "The proxy forwards an order, cancel, settlement or close to the DEX unchanged, and only if the user signed and the open-orders account is the one derived from the DEX, the market and that user; it signs for no other account. For an order the user's account is allowed exactly what the order can spend, and the allowance is revoked afterwards. Instructions the proxy does not support, or another program in place of the DEX, reach nothing.",
 ["inputs","configurations"],"any instruction bytes, both users, own, foreign and other-market open-orders accounts, signatures in every combination, any target program",
 "the proxy's checks are exercised by no Rust test; a missing signature check or a wrong account index shows only when someone else's account is passed",
 [XP,XM],[("MarketProxy::run",XP),("OpenOrdersPda",XM)])
p("C25","The proxy opens accounts for their users and runs its middleware faithfully",
 "Opening an account through the proxy succeeds exactly for the signing user's own derived address, creates it at full size, rent exempt and owned by the DEX, and registers it under the market's init authority. Settlements are forwarded only if the referral account belongs to the configured referrer. Middleware runs in the configured order, its instructions run before and after the forwarded one in order and callbacks last, and any failure fails the whole request.",
 ["inputs","configurations"],"any bumps and prior balances, own, foreign and already opened accounts, any referrer key, any limit and first byte, a failure at every step",
 "no Rust test runs the proxy; order and failure handling show only with several middlewares or a failing step",
 [XP,XM],[("MarketProxy::run",XP),("InitAccount, ReferralFees",XM)])
CK="dex/crank/src/lib.rs"; CR="common/src/client/rpc.rs"
p("C26","The client library and crank send exactly the transactions asked for",
 "Placing, cancelling (one or a batch), opening, closing, settling, listing a market and the token helpers send one transaction (a listing three: two vaults, then the market) whose instructions, accounts, amounts, fee payer and signatures are exactly those the caller asked for, with new accounts created rent exempt at a size the DEX accepts and vaults owned by the market's derived signer. After a failed simulation a cancel, close or listing is not sent, and a node that refuses is reported as an error. The crank's event-processing instruction names the owner of every pending event once, in ascending order (at most 32 owners), then the market and its event queue; it is sent as it is, and an empty queue needs none. A market account, plain or permissioned, disabled or not, is read as naming exactly the vaults, queues and books it records and its derived signer, and any other account is refused.",
 ["inputs","configurations"],"any prices, quantities, ids, limits, expiry times, token amounts and rent prices, any event owners, queue position and fill level, failing simulations and submissions",
 "the client side has no tests; a wrong account, a swapped field or a transaction sent after a failed simulation shows only against a node",
 [CK,CR],[("place_order, cancel_order_by_client_order_id, cancel_orders_by_client_order_ids, close_open_orders, init_open_orders, list_market",CK),("consume_events_instruction, consume_events",CK),("get_keys_for_market, settle_funds",CK),("transfer, create_token_account, new_mint, mint_to_new_account, create_account_rent_exempt",CR)])
p("C27","The crank keeps every market's event queue drained",
 "As long as the node answers, the crank's event loop eventually has every pending event of its market processed, whatever delays, failures and concurrent activity occur.",
 ["schedules"],"any chain state and any RPC answers, delays and failures",
 "the crank has no tests at all and depends on a live network",
 [CK],[("consume_events_loop, consume_events_once",CK)])
EX="pool/examples/admin-controlled/src/lib.rs"
p("C28","A pool's own rules decide its requests, and their effect on its state is kept",
 "Every creation, redemption, swap and quote reaches the rule of the pool program it is for, with the size and quantities the user sent, after the pool's accounts were checked; instructions that are no pool requests reach the program's own handler with their accounts and data. A request the rules accept stores exactly the pool state they leave, one they refuse (and any quote) changes nothing, and a quote returns the basket the rules gave. Rules run at creation may set the pool's state but not escape the fee limits.",
 ["inputs","configurations"],"every request kind and action with any size, accepting and refusing rules, right and wrong extra accounts, any foreign tag and truncated data, any fee rate set at creation",
 "no test runs a pool program; a state that is not saved or a request sent to the wrong rule shows only for rules that differ from the default ones",
 [PL,PX],[("process_instruction, save_state, initialize_pool",PL),("Pool (trait defaults)","pool/src/pool.rs"),("PoolContext::new",PX)])
p("C29","An admin-controlled pool obeys only its admin and trades only while not paused",
 "Pausing, resuming, lending, adding and removing assets and changing the fee or the admin succeed only when the recorded admin signs, and change exactly what they are for. A paused pool neither issues, redeems nor quotes. Lending approves exactly the given amount of one of the pool's vaults to the given account and pauses the pool; it resumes only when all its vaults are shown and none is lent out. An asset is added only with a new vault of the pool's own and a new mint, and removed only when its vault is empty; fees stay within the protocol's limits, and a new admin must sign.",
 ["inputs","configurations"],"any caller, keys, fee rate and amounts, any token account contents and delegates, forged pools and vaults, paused and running pools",
 "the example pool has no tests; each missing requirement needs its own forged account or a lent vault to show",
 [EX],[("process_foreign_instruction, process_admin_request, parse_token_account",EX),("get_creation_basket, get_redemption_basket, initialize_pool",EX)])
open('/verif/properties.jsonl','w').write("".join(json.dumps(r,separators=(",",":"))+"\n" for r in R))

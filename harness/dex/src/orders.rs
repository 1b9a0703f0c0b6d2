//! NewOrderV3 against symbolic order books, compared effect by effect with the reference model.
use crate::book::*;
use crate::rt::*;
use crate::world::*;

pub const QN: usize = 16;

pub struct W<const CAP: usize> {
    pub m: MAcc, pub oo: Acc<Oo>, pub rq: Acc<ReqQ>, pub eq: Acc<EvQ<QN>>, pub bids: Acc<Book<CAP>>, pub asks: Acc<Book<CAP>>,
    pub payer: Tok, pub cv: Tok, pub pv: Tok,
    pub srm: Option<Tok>,
}
pub fn new_order_data(t: &Taker, max_ts: i64) -> [u8; 59] {
    let mut d = [0u8; 59];
    d[1] = 10;
    d[5] = t.side;
    d[9..17].copy_from_slice(&t.price.to_le_bytes());
    d[17..25].copy_from_slice(&t.qty.to_le_bytes());
    d[25..33].copy_from_slice(&t.pc.to_le_bytes());
    d[33] = t.stb;
    d[37] = t.otype;
    d[41..49].copy_from_slice(&t.client.to_le_bytes());
    d[49..51].copy_from_slice(&t.limit.to_le_bytes());
    d[51..59].copy_from_slice(&max_ts.to_le_bytes());
    d
}
impl<const CAP: usize> W<CAP> {
    /// `opp` and `own` as seen from the taker
    pub fn new(m: Mkt, v2: bool, side: u8, opp: &Orders, own: &Orders) -> W<CAP> {
        let mut w = W { m: if v2 { MAcc::v2(m) } else { MAcc::v1(m) }, oo: Acc::new(open_orders(OWNER)), rq: reqq(), eq: evq(), bids: book(F_BIDS), asks: book(F_ASKS),
            payer: tok(if side == BID { PC_MINT } else { COIN_MINT }, [OWNER; 32], 0),
            cv: tok(COIN_MINT, VSIGNER_BYTES, 0), pv: tok(PC_MINT, VSIGNER_BYTES, 0), srm: None };
        if side == BID { opp.write(&mut w.asks); own.write(&mut w.bids); } else { opp.write(&mut w.bids); own.write(&mut w.asks); }
        w
    }
    pub fn new_order(&mut self, t: &Taker, max_ts: i64) -> bool {
        let d = new_order_data(t, max_ts);
        let mut r = solana_rent();
        let mut a = vec![self.m.acc(), A::dex(OO, self.oo.bytes()), A::dex(REQ_Q, self.rq.bytes()), A::dex(EVENT_Q, self.eq.bytes()),
            A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()), A::tok(PC_WALLET, &mut self.payer),
            A::bare(pk(OWNER)).sign(true), A::tok(COIN_VAULT, &mut self.cv), A::tok(PC_VAULT, &mut self.pv), A::bare(spl_token::ID), rent_acc(&mut r)];
        if let Some(s) = &mut self.srm { a.push(A::tok(SRM_WALLET, s)); }
        call(&mut a, &d)
    }
}
/// the rent sysvar account with its default content
pub fn solana_rent() -> [u8; 17] {
    let mut d = [0u8; 17];
    d[..8].copy_from_slice(&3480u64.to_le_bytes());
    d[8..16].copy_from_slice(&2f64.to_le_bytes());
    d[16] = 50;
    d
}
pub fn rent_acc(d: &mut [u8; 17]) -> A { A::new(solana_program::sysvar::rent::ID, d, SYS) }

/// One incoming order and the state it meets.
#[derive(Clone, Copy)]
pub struct Case {
    pub m: Mkt, pub v2: bool, pub t: Taker, pub opp: Orders, pub own: Orders, pub oo: Oo, pub payer: u64,
    /// events waiting in the queue, and where they start
    pub ev_count: u64, pub ev_head: u64, pub req_count: u64, pub now: i64, pub max_ts: i64, pub srm: Option<Tok>,
    /// no account can hold what the order needs
    pub unpayable: bool,
}
impl Case {
    pub fn new(m: Mkt, t: Taker, opp: Orders, own: Orders) -> Case {
        Case { m, v2: false, t, opp, own, oo: open_orders(OWNER), payer: 1 << 62, ev_count: 0, ev_head: QN as u64 - 3, req_count: 0,
            now: 0, max_ts: i64::MAX, srm: None, unpayable: false }
    }
}

/// Runs the order through the program and the reference model and compares every observable effect,
/// including whether the order is accepted at all.
pub fn differential<const CAP: usize>(c: &Case) -> (bool, Outcome) {
    let (m0, oo0) = (c.m, c.oo);
    let mut t = c.t;
    let mut w = W::<CAP>::new(m0, c.v2, t.side, &c.opp, &c.own);
    w.oo.v = oo0;
    w.payer.amount = c.payer;
    let (cv0, pv0) = (bits(61), bits(61));
    w.cv.amount = cv0;
    w.pv.amount = pv0;
    w.srm = c.srm;
    t.seq = SEQ;
    w.rq.v.h.seq = t.seq;
    w.rq.v.h.count = c.req_count;
    let seq0 = u64_();
    w.eq.v.h.seq = seq0;
    w.eq.v.h.count = c.ev_count;
    w.eq.v.h.head = c.ev_head;
    unsafe { NOW = c.now; }
    let (mut opp, mut own) = (c.opp, c.own);
    let slot_free = { oo0.free_slot_bits } != 0;
    t.slot = if slot_free { { oo0.free_slot_bits }.trailing_zeros() as u8 } else { 0 };

    let (cl, pl) = (m0.coin_lot_size, m0.pc_lot_size);
    let r = reference(&t, &mut opp, &mut own, cl, pl, (CAP + 1) / 2);
    let (need, free) = if t.side == BID { (t.pc, oo0.native_pc_free) } else { (t.qty * cl, oo0.native_coin_free) };
    let used = if need < free { need } else { free };
    let dep = need - used;
    let accept = r.ok && slot_free && c.req_count == 0 && c.payer >= dep && (c.max_ts == i64::MAX || c.now <= c.max_ts)
        && c.ev_count + r.nev as u64 <= QN as u64;

    let accept = accept && !c.unpayable;
    if accept { forbid_panic(true); }
    let ok = w.new_order(&t, c.max_ts);
    forbid_panic(false);
    observe(ok as u64);
    obs_oo(&w.oo.v);
    obs_mkt(&w.m.get());
    observe(w.eq.v.h.count);
    prop!(ok == accept, "an order is accepted exactly when the rules allow it");
    if !ok { return (false, r); }

    let mut eo = oo0;
    let mut em = m0;
    if t.side == BID {
        eo.native_pc_free -= used;
        eo.native_pc_total += dep;
        em.pc_deposits_total += dep;
    } else {
        eo.native_coin_free -= used;
        eo.native_coin_total += dep;
        em.coin_deposits_total += dep;
    }
    eo.native_coin_free += (r.coin_credit + r.coin_unlocked) * cl;
    eo.native_coin_total = { eo.native_coin_total } + r.coin_credit * cl - r.coin_debit * cl;
    eo.native_pc_free += r.pc_credit + r.pc_unlocked;
    eo.native_pc_total = { eo.native_pc_total } + r.pc_credit - r.pc_debit;
    eo.free_slot_bits &= !(1u128 << t.slot);
    if t.side == BID { eo.is_bid_bits |= 1u128 << t.slot; } else { eo.is_bid_bits &= !(1u128 << t.slot); }
    eo.orders[t.slot as usize] = order_id(t.side, t.price, t.seq);
    eo.client_order_ids[t.slot as usize] = t.client;
    em.pc_fees_accrued += r.fees;
    em.referrer_rebates_accrued += r.rebates;
    em.pc_deposits_total -= r.from_deposits;

    let (b, a) = if t.side == BID { (own, opp) } else { (opp, own) };
    prop!(events_are(&w.eq.v, c.ev_head, c.ev_count, seq0, &r), "the events record exactly the trades and releases of price-time matching");
    prop!(book_is(&w.bids, &b), "the bids left are exactly those of price-time matching");
    prop!(book_is(&w.asks, &a), "the asks left are exactly those of price-time matching");
    prop!(same(&w.oo.v, &eo), "the taker's account is charged and credited exactly");
    prop!(same(&w.m.get(), &mkt_flags(em, c.v2)), "market totals, fees and rebates move exactly");
    prop!({ w.payer.amount } == c.payer - dep, "the payer is charged exactly the shortfall");
    prop!({ w.cv.amount } == cv0 + if t.side == ASK { dep } else { 0 }, "coin vault receives the deposit");
    prop!({ w.pv.amount } == pv0 + if t.side == BID { dep } else { 0 }, "pc vault receives the deposit");
    prop!({ w.rq.v.h.seq } == t.seq + 1 && { w.rq.v.h.count } == 0, "every order consumes a sequence number");
    prop!({ eo.native_coin_free } <= { eo.native_coin_total } && { eo.native_pc_free } <= { eo.native_pc_total }, "free never exceeds total");
    (true, r)
}
fn mkt_flags(mut m: Mkt, v2: bool) -> Mkt { if v2 { m.account_flags |= F_PERM; } m }

/// market with totals large enough for any book in bounds
pub fn funded_market(coin_lot: u64, pc_lot: u64) -> Mkt {
    let mut m = market();
    m.coin_lot_size = coin_lot;
    m.pc_lot_size = pc_lot;
    m.coin_deposits_total = (1 << 61) + bits(60);
    m.pc_deposits_total = (1 << 61) + bits(60);
    m.pc_fees_accrued = bits(60);
    m.referrer_rebates_accrued = bits(60);
    m
}
pub fn pick(xs: &[u64]) -> u64 { xs[choose(xs.len() as u8) as usize] }
pub fn taker(side: u8, otype: u8, price: u64, qty: u64, pc: u64) -> Taker {
    Taker { side, otype, stb: 0, limit: 10, price, seq: 0, qty, pc, tier: 0, owner: OO, slot: 0, client: 0x0908_0706_0504_0302, send_take: false }
}
pub fn rest(price: u64, i: usize, owner: u8, qty: u64) -> Rest {
    Rest { price, seq: (10 + i as u64) << 40 | (90 - i as u64), owner, slot: 1 + i as u8, qty, client: (100 + i as u64) << 50 | 100 - i as u64, tier: 0 }
}

/// price-time priority: up to `max` resting orders at two prices, any quantities
fn priority(side: u8, max: u8, lo: u64, hi: u64, b: u32) {
    let mut opp = Orders::new(1 - side);
    let n = choose(max + 1) as usize;
    let mut i = 0;
    while i < n {
        opp.add(rest(pick(&[lo, hi]), i, OO2, 1 + bits(b)));
        i += 1;
    }
    // the three-order books are explored for limit orders at the interesting prices
    let t = if n == 3 { taker(side, LIMIT, pick(&[lo, hi]), 1 + bits(b + 2), 1 + bits(b + 12 + 64 - lo.leading_zeros())) }
        else { taker(side, choose(3), pick(&[lo - 1, lo, lo + 1, hi, hi + 1]), 1 + bits(b + 2), 1 + bits(b + 12 + 64 - lo.leading_zeros())) };
    let (ok, r) = differential::<11>(&Case::new(funded_market(10, 100), t, opp, Orders::new(side)));
    witness!(ok && r.fills == max as u32, "fills of every resting order");
    witness!(ok && r.fills == 1 && r.posted > 0, "fill and post");
}
/// order types, iteration limits and the taker's own side of the book
fn types(side: u8) {
    let mut opp = Orders::new(1 - side);
    let mut own = Orders::new(side);
    let n = choose(3) as usize;
    let mut i = 0;
    while i < n {
        opp.add(rest(50, i, OO2, 1 + bits(24)));
        i += 1;
    }
    if choose(2) == 1 { own.add(rest(if side == BID { 20 } else { 80 }, 5, OO3, 1 + bits(24))); }
    let mut t = taker(side, choose(3), pick(&[20, 50, 80]), 1 + bits(26), 1 + bits(44));
    t.limit = choose(4) as u16;
    let mut c = Case::new(funded_market(3, 7), t, opp, own);
    c.v2 = choose(2) == 1;
    let (ok, r) = differential::<11>(&c);
    witness!(ok && t.otype == POST && r.posted > 0, "post-only order posts");
    witness!(ok && t.otype == POST && r.posted == 0 && r.nev > 0, "post-only order that would cross comes back");
    witness!(ok && t.otype == IOC && r.fills > 0, "immediate-or-cancel fills");
    witness!(ok && t.otype == LIMIT && r.fills == 1 && t.limit == 1 && r.posted == 0, "limit reached");
}
fn self_trade(side: u8) {
    let mut opp = Orders::new(1 - side);
    let mut i = 0;
    while i < 2 {
        opp.add(rest(50, i, if choose(2) == 0 { OO } else { OO2 }, 1 + bits(24)));
        i += 1;
    }
    let mut t = taker(side, choose(2), pick(&[50, 80]), 1 + bits(26), 1 + bits(44));
    if side == ASK { t.price = 130 - t.price; }
    t.stb = choose(3);
    let (ok, r) = differential::<11>(&Case::new(funded_market(3, 7), t, opp, Orders::new(side)));
    witness!(ok && t.stb == DECREMENT && r.self_trades > 0, "decrement and take");
    witness!(ok && t.stb == CANCEL_PROVIDE && r.self_trades == 2, "cancel provide");
    witness!(!ok && t.stb == ABORT && r.self_trades > 0, "abort");
    witness!(ok && t.stb == ABORT && r.fills == 2, "abort mode trades with others");
}
/// a full book makes room by dropping its least aggressive order
fn boot(side: u8) {
    let mut opp = Orders::new(1 - side);
    let mut own = Orders::new(side);
    let n = choose(4) as usize;
    let mut i = 0;
    while i < n {
        own.add(rest([30, 40, 30][i], i, if i == 0 { OO } else { OO2 }, 1 + bits(24)));
        i += 1;
    }
    if choose(2) == 1 { opp.add(rest(if side == BID { 45 } else { 25 }, 6, OO3, 1 + bits(24))); }
    let t = taker(side, if choose(2) == 0 { LIMIT } else { POST }, pick(&[20, 30, 35, 40, 50]), 1 + bits(26), 1 + bits(54));
    let (cl, pl) = if choose(2) == 0 { (3, 7) } else { ((1 << 26) + 3, (1 << 21) + 7) };
    let (ok, r) = differential::<5>(&Case::new(funded_market(cl, pl), t, opp, own));
    witness!(ok && r.booted == 1, "least aggressive order dropped");
    witness!(ok && r.posted > 0 && r.booted == 0, "room left");
}
/// where the funds for an order come from, and every reason to refuse one
fn funding(side: u8) {
    let mut opp = Orders::new(1 - side);
    if choose(2) == 1 { opp.add(rest(50, 0, OO2, 1 + bits(30))); }
    let mut t = taker(side, choose(2), 50, 1 + bits(36), 1 + bits(58));
    let k = choose(8);
    if k == 6 { t.client = u64_(); }
    // more base than anybody has: a buyer means `as much as possible', a seller cannot have it
    if k == 7 { t.qty = u64_(); assume(t.qty > u64::MAX / 10); }
    let mut c = Case::new(funded_market(10, 100), t, opp, Orders::new(side));
    c.payer = bits(60);
    c.oo.native_coin_free = bits(59);
    c.oo.native_pc_free = bits(59);
    c.oo.native_coin_total = { c.oo.native_coin_free } + bits(59);
    c.oo.native_pc_total = { c.oo.native_pc_free } + bits(59);
    c.oo.referrer_rebates_accrued = u64_();
    match k {
        0 => {}
        1 => { c.now = u64_max(1 << 62) as i64; c.max_ts = i64_(); }
        2 => { c.req_count = choose(2) as u64; }
        3 => { c.oo.free_slot_bits = [0, 1u128 << 127, 1u128 << 64, 6][choose(4) as usize]; c.oo.is_bid_bits = if choose(2) == 1 { u128::MAX } else { 0 }; }
        4 => { c.ev_count = 10 + choose(7) as u64; c.ev_head = choose(16) as u64; }
        5 => { c.ev_count = choose(3) as u64 * 3; }
        _ => {}
    }
    c.unpayable = k == 7 && side == ASK;
    let (ok, r) = differential::<11>(&c);
    let f = if side == BID { c.oo.native_pc_free } else { c.oo.native_coin_free };
    let need = if side == BID { t.pc } else { t.qty * 10 };
    witness!(ok && f > need, "paid from free balance");
    witness!(ok && f < need && f > 0, "paid from both");
    witness!(!ok && k == 0, "insufficient funds");
    witness!(!ok && k == 1 && c.payer >= need, "expired");
    witness!(!ok && k == 4 && c.payer >= need && r.fills == 1, "event queue full");
}
// base58 constants decoded independently of the code under test
pub const SRM_MINT: [u8; 32] = include!("srm.in");
pub const MSRM_MINT: [u8; 32] = include!("msrm.in");
pub const STABLE: [[u8; 32]; 6] = include!("stable.in");
/// which fee tier a balance buys
pub fn tier_of(srm: u64, msrm: u64) -> u8 {
    if msrm >= 1 { 6 } else if srm >= 1_000_000_000_000 { 5 } else if srm >= 100_000_000_000 { 4 } else if srm >= 10_000_000_000 { 3 }
    else if srm >= 1_000_000_000 { 2 } else if srm >= 100_000_000 { 1 } else { 0 }
}
fn fee_tiers(side: u8) {
    let mut opp = Orders::new(1 - side);
    // the resting order was placed at some tier of its own
    let mut r0 = rest(50, 0, OO2, 1 + bits(30));
    r0.tier = [0, 6, 2, 7][choose(4) as usize];
    opp.add(r0);
    let mut m = funded_market(10, 100);
    let stable = choose(3);
    if stable > 0 {
        let k = STABLE[if stable == 1 { choose(6) as usize } else { 0 }];
        let mut k = k;
        if stable == 2 { k[31] ^= 1; }
        unsafe { MKEY = solana_program::pubkey::Pubkey::new_from_array(k); }
        m.own_address = to4(&mkey());
    }
    let mut t = taker(side, choose(2), 50, 1 + bits(30), 1 + bits(58));
    let bal = u64_();
    let kind = if stable == 1 { choose(2) } else { choose(5) };
    let mut c = Case::new(m, t, opp, Orders::new(side));
    let mut s = tok(1, [OWNER; 32], bal);
    let mut tier = 0;
    match kind {
        0 => {}
        1 => { s.mint = SRM_MINT; tier = tier_of(bal, 0); c.srm = Some(s); }
        2 => { s.mint = MSRM_MINT; tier = tier_of(0, bal); c.srm = Some(s); }
        3 => { s.mint = SRM_MINT; s.mint[31] ^= 1; c.srm = Some(s); }
        _ => { s.mint = SRM_MINT; s.owner[0] ^= 1; c.srm = Some(s); }
    }
    if stable == 1 { tier = 7; }
    t.tier = tier;
    c.t = t;
    if kind == 4 {
        // someone else's tokens
        let mut w = W::<3>::new(m, false, side, &c.opp, &c.own);
        w.payer.amount = 1 << 62;
        w.srm = c.srm;
        let ok = w.new_order(&t, i64::MAX);
        observe(ok as u64);
        prop!(!ok, "a discount needs the trader's own tokens");
        return;
    }
    let (ok, r) = differential::<3>(&c);
    witness!(ok && tier == 3 && r.fills == 1, "discounted tier");
    witness!(ok && tier == 6 && r.fills == 1, "best tier");
    witness!(ok && tier == 7 && r.fills == 1, "stable market");
    witness!(ok && tier == 4 && r.fills == 1 && r.posted > 0, "the rest is posted at the order's tier");
}
/// price extremes against each other
fn extreme_prices(side: u8) {
    const P: [u64; 8] = [1, 255, 256, 65535, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, 1 << 52];
    let mut opp = Orders::new(1 - side);
    let q = bits(3) + 1;
    opp.add(rest(pick(&P), 0, OO2, q));
    let t = taker(side, if choose(2) == 0 { LIMIT } else { IOC }, pick(&P), 1 + bits(3), 1 + bits(60));
    let (ok, r) = differential::<3>(&Case::new(funded_market(2, 2), t, opp, Orders::new(side)));
    witness!(ok && r.fills == 1, "fills");
    witness!(ok && r.posted > 0, "posts");
}
/// large lots or large quantities
fn big(side: u8) {
    let (lots, q, pc) = if choose(2) == 0 { (((1 << 34) + 3, (1 << 33) + 7), 12, 52) } else { ((3, 7), 42, 52) };
    let mut opp = Orders::new(1 - side);
    let mut own = Orders::new(side);
    let n = choose(2);
    if n == 1 { opp.add(rest(5, 0, if choose(2) == 0 { OO } else { OO2 }, 1 + bits(q))); }
    if n == 0 { let mut i = 0; while i < 2 { own.add(rest(3 + i as u64, 1 + i, OO3, 1 + bits(q))); i += 1; } }
    let mut t = taker(side, choose(2), 5, 1 + bits(q), 1 + bits(pc));
    t.stb = choose(2);
    let (ok, r) = differential::<3>(&Case::new(funded_market(lots.0, lots.1), t, opp, own));
    witness!(ok && q == 12 && r.fills == 1, "fills of large lots");
    witness!(ok && q == 42 && r.fills == 1 && t.qty > 1 << 40, "fills of large quantities");
    witness!(ok && r.booted == 1, "drops a large order");
    witness!(ok && r.self_trades == 1, "large self trade");
}
/// any 64-bit limit price against any 64-bit resting price
fn any_price(side: u8) {
    let mut opp = Orders::new(1 - side);
    let own = Orders::new(side);
    let (qty, pc) = (pick(&[1, 1 << 33]), pick(&[1 << 20, 1 << 62]));
    let p = 1 + bits(if side == ASK { 56 } else { 16 });
    let q = pick(&[1, 3, (1 << 33) + 5]);
    if side == ASK { assume((p as u128) * q as u128 * 2 <= 1 << 60); }
    if choose(2) == 1 { opp.add(rest(p, 0, OO2, q)); }
    let mut t = taker(side, choose(3), 1, qty, pc);
    t.price = u64_();
    assume(t.price > 0);
    if side == BID { assume(t.price < 1 << 16); }
    let (ok, r) = differential::<3>(&Case::new(funded_market(2, 2), t, opp, own));
    witness!(ok && r.fills == 1, "fills");
    witness!(ok && r.posted > 0, "posts");
}
harnesses! {
    fn order_priority_bid() { priority(BID, 3, 3, 5, 24) }
    fn order_priority_ask() { priority(ASK, 3, 3, 5, 24) }
    fn order_priority_bid_hi() { priority(BID, 2, (1 << 32) - 1, (1 << 33) + 1, 16) }
    fn order_priority_ask_hi() { priority(ASK, 2, (1 << 32) - 1, (1 << 33) + 1, 16) }
    fn order_types_bid() { types(BID) }
    fn order_types_ask() { types(ASK) }
    fn order_self_trade_bid() { self_trade(BID) }
    fn order_self_trade_ask() { self_trade(ASK) }
    fn order_boot_bid() { boot(BID) }
    fn order_boot_ask() { boot(ASK) }
    fn order_funding_bid() { funding(BID) }
    fn order_funding_ask() { funding(ASK) }
    fn order_fee_tiers_bid() { fee_tiers(BID) }
    fn order_fee_tiers_ask() { fee_tiers(ASK) }
    fn order_extreme_price_bid() { extreme_prices(BID) }
    fn order_extreme_price_ask() { extreme_prices(ASK) }
    fn order_big_bid() { big(BID) }
    fn order_big_ask() { big(ASK) }
    fn order_any_price_bid() { any_price(BID) }
    fn order_any_price_ask() { any_price(ASK) }
}

//! SendTake: immediate swaps that settle straight from and to wallets.
use crate::book::*;
use crate::orders::*;
use crate::rt::*;
use crate::world::*;

pub struct T { pub w: W<5>, pub cw: Tok, pub pw: Tok, pub signer: bool }
pub fn take_data(t: &Taker, min_coin: u64, min_pc: u64) -> [u8; 51] {
    let mut d = [0u8; 51];
    d[1] = 13;
    d[5] = t.side;
    d[9..17].copy_from_slice(&t.price.to_le_bytes());
    d[17..25].copy_from_slice(&t.qty.to_le_bytes());
    d[25..33].copy_from_slice(&t.pc.to_le_bytes());
    d[33..41].copy_from_slice(&min_coin.to_le_bytes());
    d[41..49].copy_from_slice(&min_pc.to_le_bytes());
    d[49..51].copy_from_slice(&t.limit.to_le_bytes());
    d
}
impl T {
    pub fn run(&mut self, d: &[u8]) -> bool {
        let w = &mut self.w;
        let mut a = vec![w.m.acc(), A::dex(REQ_Q, w.rq.bytes()), A::dex(EVENT_Q, w.eq.bytes()), A::dex(BIDS, w.bids.bytes()), A::dex(ASKS, w.asks.bytes()),
            A::tok(COIN_WALLET, &mut self.cw), A::tok(PC_WALLET, &mut self.pw), A::bare(pk(OWNER)).sign(self.signer), A::tok(COIN_VAULT, &mut w.cv),
            A::tok(PC_VAULT, &mut w.pv), A::bare(spl_token::ID), A::bare(VSIGNER)];
        if let Some(s) = &mut w.srm { a.push(A::tok(SRM_WALLET, s)); }
        call(&mut a, d)
    }
}
/// One swap compared effect by effect with the reference model.
fn swap(m0: Mkt, mut t: Taker, opp0: Orders, own0: Orders, v2: bool, signer: bool, ev_count: u64, srm: Option<Tok>) -> (bool, Outcome, u64) {
    let mut x = T { w: W::new(m0, v2, t.side, &opp0, &own0), cw: tok(COIN_MINT, [OWNER; 32], bits(61)), pw: tok(PC_MINT, [OWNER; 32], bits(61)), signer };
    // the vaults cover what the books promise
    let (cv0, pv0) = ((1u64 << 61) + bits(60), (1u64 << 61) + bits(60));
    x.w.cv.amount = cv0;
    x.w.pv.amount = pv0;
    x.w.srm = srm;
    t.seq = SEQ;
    x.w.rq.v.h.seq = t.seq;
    let head = 14;
    x.w.eq.v.h.head = head;
    x.w.eq.v.h.count = ev_count;
    let (cw0, pw0) = ({ x.cw.amount }, { x.pw.amount });
    let (mut opp, mut own) = (opp0, own0);
    let (cl, pl) = (m0.coin_lot_size, m0.pc_lot_size);
    let r = reference(&t, &mut opp, &mut own, cl, pl, 6);
    let (min_coin, min_pc) = (u64_(), u64_());
    let got = if t.side == BID { r.coin_credit } else { r.pc_credit };
    let min = if t.side == BID { min_coin } else { min_pc };
    let (pays, has) = if t.side == BID { (r.pc_debit, pw0) } else { (r.coin_debit * cl, cw0) };
    let accept = signer && got >= min && has >= pays && ev_count + r.nev as u64 <= QN as u64;
    if accept { forbid_panic(true); }
    let ok = x.run(&take_data(&t, min_coin, min_pc));
    forbid_panic(false);
    observe(ok as u64);
    obs_mkt(&x.w.m.get());
    observe(x.cw.amount);
    observe(x.pw.amount);
    prop!(ok == accept, "a swap succeeds exactly when signed, affordable and at least the requested minimum");
    if ok {
        let mut em = m0;
        if v2 { em.account_flags |= F_PERM; }
        if t.side == BID {
            em.pc_deposits_total = { m0.pc_deposits_total } + r.pc_debit - r.from_deposits;
            em.coin_deposits_total -= r.coin_credit * cl;
            prop!({ x.pw.amount } == pw0 - r.pc_debit && { x.cw.amount } == cw0 + r.coin_credit * cl, "the trader pays exactly cost plus fee and receives exactly what was bought");
            prop!({ x.w.pv.amount } == pv0 + r.pc_debit && { x.w.cv.amount } == cv0 - r.coin_credit * cl, "the vaults move by exactly the same amounts");
            prop!(r.pc_debit <= t.pc, "a swap never spends more than its maximum");
        } else {
            em.coin_deposits_total += r.coin_debit * cl;
            em.pc_deposits_total = { m0.pc_deposits_total } - r.pc_credit - r.from_deposits;
            prop!({ x.cw.amount } == cw0 - r.coin_debit * cl && { x.pw.amount } == pw0 + r.pc_credit, "the trader delivers exactly what was sold and receives proceeds net of fee");
            prop!({ x.w.cv.amount } == cv0 + r.coin_debit * cl && { x.w.pv.amount } == pv0 - r.pc_credit, "the vaults move by exactly the same amounts");
        }
        em.pc_fees_accrued += r.fees;
        em.referrer_rebates_accrued += r.rebates;
        let (b, a) = if t.side == BID { (own, opp) } else { (opp, own) };
        prop!(events_are(&x.w.eq.v, head, ev_count, 0, &r), "the events credit exactly the resting orders that traded");
        prop!(book_is(&x.w.bids, &b) && book_is(&x.w.asks, &a), "the book left is that of price-time matching and nothing is posted");
        prop!(same(&x.w.m.get(), &em), "market totals, fees and rebates move exactly");
        prop!({ x.w.rq.v.h.seq } == t.seq + 1, "every swap consumes a sequence number");
    }
    (ok, r, min)
}
fn take(side: u8) {
    let mut opp = Orders::new(1 - side);
    let mut own = Orders::new(side);
    let n = choose(3) as usize;
    let mut i = 0;
    while i < n { opp.add(rest(pick(&[40, 50]), i, OO2, 1 + bits(24))); i += 1; }
    // the two-order books are explored at the crossing prices with everything else nominal
    if n < 2 && choose(2) == 1 { own.add(rest(if side == BID { 20 } else { 80 }, 5, OO3, 1 + bits(24))); }
    let mut t = taker(side, IOC, if n == 2 { pick(&[40, 50]) } else { pick(&[20, 40, 50, 80]) }, 1 + bits(26), 1 + bits(44));
    t.stb = ABORT;
    t.client = 0;
    t.send_take = true;
    t.limit = [0, 1, 2, 10][choose(4) as usize];
    let k = if n == 2 { 0 } else { choose(4) };
    let signer = k != 1;
    let ev = if k == 2 { [QN as u64, QN as u64 - 1, QN as u64 - 2][choose(3) as usize] } else { 0 };
    let (ok, r, min) = swap(funded_market(3, 7), t, opp, own, k == 3, signer, ev, None);
    witness!(ok && r.fills == 2, "two fills");
    witness!(ok && r.fills == 0, "nothing to trade");
    witness!(!ok && r.fills == 1 && signer && ev == 0, "minimum not met or unaffordable");
    witness!(ok && r.fills == 1 && min > 0, "minimum met");
}
/// large lots or large quantities
fn big(side: u8) {
    let (lots, q) = if choose(2) == 0 { (((1 << 34) + 3, (1 << 33) + 7), 12) } else { ((3, 7), 42) };
    let mut opp = Orders::new(1 - side);
    opp.add(rest(5, 0, OO2, 1 + bits(q)));
    let mut t = taker(side, IOC, 5, 1 + bits(q), 1 + bits(52));
    t.stb = ABORT;
    t.client = 0;
    t.send_take = true;
    let (ok, r, _) = swap(funded_market(lots.0, lots.1), t, opp, Orders::new(side), false, true, 0, None);
    witness!(ok && q == 12 && r.fills == 1, "fills of large lots");
    witness!(ok && q == 42 && r.fills == 1 && t.qty > 1 << 40, "fills of large quantities");
}
fn tiers(side: u8) {
    let mut opp = Orders::new(1 - side);
    opp.add(rest(50, 0, OO2, 1 + bits(30)));
    let mut t = taker(side, IOC, 50, 1 + bits(30), 1 + bits(58));
    t.stb = ABORT;
    t.client = 0;
    t.send_take = true;
    let bal = u64_();
    let mut s = tok(1, [OWNER; 32], bal);
    if choose(2) == 0 { s.mint = SRM_MINT; t.tier = tier_of(bal, 0); } else { s.mint = MSRM_MINT; t.tier = tier_of(0, bal); }
    let (ok, r, _) = swap(funded_market(10, 100), t, opp, Orders::new(side), false, true, 0, Some(s));
    witness!(ok && t.tier == 5 && r.fills == 1, "discounted swap");
}
harnesses! {
    fn take_bid() { take(BID) }
    fn take_ask() { take(ASK) }
    fn take_big_bid() { big(BID) }
    fn take_big_ask() { big(ASK) }
    fn take_tiers_bid() { tiers(BID) }
    fn take_tiers_ask() { tiers(ASK) }
}

//! Histories: several instructions in a row against one market, checking the ledger after each.
use crate::book::*;
use crate::orders::*;
use crate::rt::*;
use crate::take::take_data;
use crate::world::*;

const QH: usize = 24;
const CL: u64 = 3;
const PL: u64 = 7;
const CAP: usize = 7;
#[derive(Clone)]
pub struct L {
    pub m: MAcc, pub oo: [Acc<Oo>; 2], pub rq: Acc<ReqQ>, pub eq: Acc<EvQ<QH>>, pub bids: Acc<Book<CAP>>, pub asks: Acc<Book<CAP>>,
    pub cw: [Tok; 2], pub pw: [Tok; 2], pub cv: Tok, pub pv: Tok,
}
const OOK: [u8; 2] = [OO, OO2];
const OWN: [u8; 2] = [OWNER, OWNER2];
const START: u64 = 1 << 55;
impl L {
    pub fn new() -> L {
        let mut m = market();
        m.coin_lot_size = CL;
        m.pc_lot_size = PL;
        let w = |mint: u8, i: usize| tok(mint, key(OWN[i]), START);
        L { m: MAcc::v1(m), oo: [Acc::new(open_orders(OWNER)), Acc::new(open_orders(OWNER2))], rq: reqq(), eq: evq(), bids: book(F_BIDS), asks: book(F_ASKS),
            cw: [w(COIN_MINT, 0), w(COIN_MINT, 1)], pw: [w(PC_MINT, 0), w(PC_MINT, 1)],
            cv: tok(COIN_MINT, VSIGNER_BYTES, 0), pv: tok(PC_MINT, VSIGNER_BYTES, 0) }
    }
    pub fn order(&mut self, who: usize, t: &Taker) -> bool {
        let d = new_order_data(t, i64::MAX);
        let mut r = solana_rent();
        let mut a = [self.m.acc(), A::dex(OOK[who], self.oo[who].bytes()), A::dex(REQ_Q, self.rq.bytes()), A::dex(EVENT_Q, self.eq.bytes()),
            A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()),
            if t.side == BID { A::tok(PC_WALLET, &mut self.pw[who]) } else { A::tok(COIN_WALLET, &mut self.cw[who]) },
            A::bare(pk(OWN[who])).sign(true), A::tok(COIN_VAULT, &mut self.cv), A::tok(PC_VAULT, &mut self.pv), A::bare(spl_token::ID), rent_acc(&mut r)];
        call(&mut a, &d)
    }
    pub fn take(&mut self, who: usize, t: &Taker) -> bool {
        let d = take_data(t, 0, 0);
        let mut a = [self.m.acc(), A::dex(REQ_Q, self.rq.bytes()), A::dex(EVENT_Q, self.eq.bytes()), A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()),
            A::tok(COIN_WALLET, &mut self.cw[who]), A::tok(PC_WALLET, &mut self.pw[who]), A::bare(pk(OWN[who])).sign(true), A::tok(COIN_VAULT, &mut self.cv),
            A::tok(PC_VAULT, &mut self.pv), A::bare(spl_token::ID), A::bare(VSIGNER)];
        call(&mut a, &d)
    }
    pub fn cancel(&mut self, who: usize, side: u8, id: u128) -> bool {
        let mut d = vec![0, 11, 0, 0, 0, side, 0, 0, 0];
        d.extend_from_slice(&id.to_le_bytes());
        let mut a = [self.m.acc(), A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()), A::dex(OOK[who], self.oo[who].bytes()),
            A::bare(pk(OWN[who])).sign(true), A::dex(EVENT_Q, self.eq.bytes())];
        call(&mut a, &d)
    }
    pub fn consume(&mut self, limit: u8) -> bool {
        let [x, y] = &mut self.oo;
        let mut a = [A::dex(OO, x.bytes()), A::dex(OO2, y.bytes()), self.m.acc(), A::dex(EVENT_Q, self.eq.bytes()), A::bare(pk(STRANGER)), A::bare(pk(STRANGER))];
        call(&mut a, &[0, 3, 0, 0, 0, limit, 0])
    }
    pub fn settle(&mut self, who: usize) -> bool {
        let mut a = [self.m.acc(), A::dex(OOK[who], self.oo[who].bytes()), A::bare(pk(OWN[who])).sign(true), A::tok(COIN_VAULT, &mut self.cv),
            A::tok(PC_VAULT, &mut self.pv), A::tok(COIN_WALLET, &mut self.cw[who]), A::tok(PC_WALLET, &mut self.pw[who]), A::bare(VSIGNER), A::bare(spl_token::ID)];
        call(&mut a, &[0, 5, 0, 0, 0])
    }
    /// The ledger: every unit in the vaults belongs to exactly one trader's account, a pending event, or the accrued
    /// fees and rebates; and everything locked is explained by a resting order or a pending event.
    pub fn ledger(&self) {
        let m = self.m.get();
        let h = self.eq.v.h;
        let (mut coin, mut pc, mut reb) = (0u64, 0u64, 0u64);
        let mut i = 0;
        while i < 2 {
            let o = self.oo[i].v;
            prop!({ o.native_coin_free } <= { o.native_coin_total } && { o.native_pc_free } <= { o.native_pc_total }, "no account has more free than it owns");
            coin = coin.wrapping_add(o.native_coin_total);
            pc = pc.wrapping_add(o.native_pc_total);
            reb = reb.wrapping_add(o.referrer_rebates_accrued);
            // what is locked for this account
            let (mut lc, mut lp) = (0u64, 0u64);
            if let Some((n, l)) = read_leaves(&self.bids) {
                let mut k = 0;
                while k < n { if { l[k].owner } == k4(OOK[i]) { lp = lp.wrapping_add({ l[k].qty } * ({ l[k].key } >> 64) as u64 * PL); } k += 1; }
            } else { prop!(false, "the bids are well formed"); }
            if let Some((n, l)) = read_leaves(&self.asks) {
                let mut k = 0;
                while k < n { if { l[k].owner } == k4(OOK[i]) { lc = lc.wrapping_add({ l[k].qty } * CL); } k += 1; }
            } else { prop!(false, "the asks are well formed"); }
            let mut k = 0;
            while k < h.count {
                let e = self.eq.v.e[((h.head + k) % QH as u64) as usize];
                if { e.owner } == k4(OOK[i]) {
                    let bid = e.flags & EF_BID != 0;
                    let amt = if e.flags & EF_FILL != 0 && e.flags & EF_MAKER != 0 { e.paid } else if e.flags & EF_OUT != 0 && e.flags & EF_RELEASE != 0 { e.released } else { 0 };
                    if bid { lp = lp.wrapping_add(amt); } else { lc = lc.wrapping_add(amt); }
                }
                k += 1;
            }
            prop!({ o.native_coin_total }.wrapping_sub(o.native_coin_free) == lc, "locked base funds are exactly those of resting orders and pending events");
            prop!({ o.native_pc_total }.wrapping_sub(o.native_pc_free) == lp, "locked quote funds are exactly those of resting orders and pending events");
            i += 1;
        }
        // events still to be applied
        let mut k = 0;
        while k < h.count {
            let e = self.eq.v.e[((h.head + k) % QH as u64) as usize];
            if e.flags & EF_FILL != 0 {
                if e.flags & EF_MAKER != 0 {
                    if e.flags & EF_BID != 0 { coin = coin.wrapping_add(e.released); pc = pc.wrapping_sub(e.paid); }
                    else { pc = pc.wrapping_add(e.released); coin = coin.wrapping_sub(e.paid); }
                } else { reb = reb.wrapping_add({ e.fee } / 5); }
            }
            k += 1;
        }
        prop!({ m.coin_deposits_total } == coin, "recorded base deposits equal what the accounts own");
        prop!({ m.pc_deposits_total } == pc, "recorded quote deposits equal what the accounts own");
        prop!({ self.cv.amount } == { m.coin_deposits_total }, "the base vault holds exactly the recorded deposits");
        prop!({ self.pv.amount } == { m.pc_deposits_total }.wrapping_add(m.pc_fees_accrued).wrapping_add(m.referrer_rebates_accrued), "the quote vault holds exactly deposits, fees and rebates");
        prop!({ m.referrer_rebates_accrued } >= reb, "recorded rebates cover the accounts' rebates");
        let tot = { self.cw[0].amount }.wrapping_add(self.cw[1].amount).wrapping_add(self.cv.amount);
        let totp = { self.pw[0].amount }.wrapping_add(self.pw[1].amount).wrapping_add(self.pv.amount);
        prop!(tot == 2 * START && totp == 2 * START, "tokens only move between the traders and the vaults");
    }
    /// everybody cancels, cranks and settles: all deposits must come back
    pub fn drain(&mut self) {
        forbid_panic(true);
        prop!(self.consume(100), "all events can be consumed");
        prop!({ self.eq.v.h.count } == 0, "the queue empties");
        let mut side = 0;
        while side < 2 {
            let l = if side == BID { read_leaves(&self.bids) } else { read_leaves(&self.asks) };
            if let Some((n, l)) = l {
                let mut i = 0;
                while i < n {
                    let who = if { l[i].owner } == k4(OO) { 0 } else { 1 };
                    prop!(self.cancel(who, side, l[i].key), "every resting order can be cancelled by its owner");
                    i += 1;
                }
            }
            side += 1;
        }
        self.ledger();
        prop!(self.consume(100), "all events can be consumed");
        prop!(self.settle(0) && self.settle(1), "both traders can settle");
        forbid_panic(false);
        self.ledger();
        let m = self.m.get();
        prop!({ self.cv.amount } == 0 && { m.coin_deposits_total } == 0 && { m.pc_deposits_total } == 0, "all deposits can be withdrawn");
        prop!({ self.pv.amount } == { m.pc_fees_accrued } + { m.referrer_rebates_accrued }, "only fees and rebates stay behind");
        let mut i = 0;
        while i < 2 {
            let o = self.oo[i].v;
            prop!({ o.free_slot_bits } == u128::MAX && { o.is_bid_bits } == 0 && { o.native_coin_total } == 0 && { o.native_pc_total } == 0, "every order slot is free again");
            i += 1;
        }
        obs_mkt(&m);
        observe(self.cw[0].amount);
        observe(self.pw[0].amount);
    }
}
fn any_order(side: u8, price: u64, otype: u8, client: u64) -> Taker {
    let mut t = taker(side, otype, price, 1 + bits(20), 1 + bits(36));
    t.client = client;
    t
}
/// maker order, then one or two further steps, then everything is unwound
fn story(maker: u8, second: u8, ops: &[u64], more: u8) {
    let mut l = L::new();
    let t = any_order(maker, 50, LIMIT, 1);
    assume(l.order(0, &t));
    l.ledger();
    let mut fills = 0;
    let n = 1 + choose(more + 1);
    let mut k = 0;
    while k < n {
        let op = if k == 0 { second } else { pick(ops) as u8 };
        let ok = match op {
            0 => { let mut t = any_order(1 - maker, 50, LIMIT, 2); t.stb = DECREMENT; l.order(1, &t) }
            1 => { let mut t = any_order(1 - maker, 50, choose(2), 3); t.stb = choose(2); l.order(0, &t) }
            2 => { let mut t = any_order(1 - maker, 50, IOC, 0); t.send_take = true; l.take(1, &t) }
            3 => { let t = any_order(maker, if maker == BID { 49 } else { 51 }, LIMIT, 4); l.order(1, &t) }
            4 => { let x = l.consume(1); let y = l.settle(0); x && y }
            _ => { let id = l.oo[0].v.orders[0]; l.cancel(0, maker, id) }
        };
        if !ok { assume(false); }
        fills |= op;
        l.ledger();
        k += 1;
    }
    let pend = { l.eq.v.h.count };
    l.drain();
    witness!(pend > 2, "unwinds pending trades");
    let m = l.m.get();
    witness!({ m.pc_fees_accrued } > 0 || second > 2 || second == 1, "fees were charged");
}
harnesses! {
    fn history_bid_maker_trade() { story(BID, 0, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_bid_maker_self() { story(BID, 1, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_bid_maker_take() { story(BID, 2, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_bid_maker_rest() { story(BID, 3, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_ask_maker_trade() { story(ASK, 0, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_ask_maker_self() { story(ASK, 1, &[4, 5], 1) }
    fn history_ask_maker_take() { story(ASK, 2, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_ask_maker_rest() { story(ASK, 3, &[0, 1, 2, 3, 4, 5], 1) }
    fn history_deep_bid_maker_trade() { story(BID, 0, &[0, 1, 2, 3, 4, 5], 2) }
    fn history_deep_bid_maker_self() { story(BID, 1, &[0, 1, 2, 3, 4, 5], 2) }
    fn history_deep_bid_maker_take() { story(BID, 2, &[0, 1, 2, 3, 4, 5], 2) }
    fn history_deep_bid_maker_rest() { story(BID, 3, &[0, 1, 2, 3, 4, 5], 2) }
    fn history_deep_ask_maker_trade() { story(ASK, 0, &[0, 2, 4, 5], 2) }
    fn history_deep_ask_maker_self() { story(ASK, 1, &[0, 1, 3, 4, 5], 1) }
    fn history_deep_ask_maker_take() { story(ASK, 2, &[0, 2, 4, 5], 2) }
    fn history_deep_ask_maker_rest() { story(ASK, 3, &[0, 2, 4, 5], 2) }
}

//! A market with three traders, driven through the program's own instruction processor.
use crate::world::*;
pub const BID: u8 = 0;
pub const ASK: u8 = 1;
pub const LIMIT: u8 = 0;
pub const IOC: u8 = 1;
pub const POST: u8 = 2;
pub const OOK: [u8; 3] = [OO, OO2, OO3];
pub const OWN: [u8; 3] = [30, 31, 32];
pub const WEALTH: u64 = 1 << 50;
#[derive(Clone, Copy)]
pub struct Ord { pub side: u8, pub price: u64, pub qty: u64, pub pc: u64, pub otype: u8, pub stb: u8, pub limit: u16, pub client: u64, pub max_ts: i64 }
pub fn ord(side: u8, price: u64, qty: u64) -> Ord { Ord { side, price, qty, pc: 1 << 40, otype: LIMIT, stb: 0, limit: 20, client: 0, max_ts: i64::MAX } }
pub struct Dex {
    pub m: MAcc, pub oo: [Acc<Oo>; 3], pub rq: Acc<ReqQ>, pub eq: Acc<EvQ<32>>, pub bids: Acc<Book<15>>, pub asks: Acc<Book<15>>,
    pub cw: [Tok; 3], pub pw: [Tok; 3], pub cv: Tok, pub pv: Tok, pub srm: Option<Tok>,
}
pub fn order_data(t: &Ord) -> Vec<u8> {
    let mut d = vec![0, 10, 0, 0, 0];
    order_body(&mut d, t);
    d
}
pub fn order_body(d: &mut Vec<u8>, t: &Ord) {
    d.extend_from_slice(&[t.side, 0, 0, 0]);
    d.extend_from_slice(&t.price.to_le_bytes());
    d.extend_from_slice(&t.qty.to_le_bytes());
    d.extend_from_slice(&t.pc.to_le_bytes());
    d.extend_from_slice(&[t.stb, 0, 0, 0, t.otype, 0, 0, 0]);
    d.extend_from_slice(&t.client.to_le_bytes());
    d.extend_from_slice(&t.limit.to_le_bytes());
    d.extend_from_slice(&t.max_ts.to_le_bytes());
}
impl Dex {
    pub fn new(coin_lot: u64, pc_lot: u64) -> Dex {
        install();
        let mut m = market();
        m.coin_lot_size = coin_lot;
        m.pc_lot_size = pc_lot;
        let w = |mint: u8, i: usize| tok(mint, [OWN[i]; 32], WEALTH);
        Dex { m: MAcc::v1(m), oo: [Acc::new(open_orders(OWN[0])), Acc::new(open_orders(OWN[1])), Acc::new(open_orders(OWN[2]))], rq: reqq(), eq: evq(),
            bids: book(F_BIDS), asks: book(F_ASKS), cw: [w(COIN_MINT, 0), w(COIN_MINT, 1), w(COIN_MINT, 2)], pw: [w(PC_MINT, 0), w(PC_MINT, 1), w(PC_MINT, 2)],
            cv: tok(COIN_MINT, VSIGNER_BYTES, 0), pv: tok(PC_MINT, VSIGNER_BYTES, 0), srm: None }
    }
    pub fn order_accounts(&mut self, who: usize, side: u8, rent: &mut [u8; 17]) -> Vec<A> {
        rent[..8].copy_from_slice(&3480u64.to_le_bytes());
        rent[8..16].copy_from_slice(&2f64.to_le_bytes());
        rent[16] = 50;
        let mut a = vec![self.m.acc(), A::dex(OOK[who], self.oo[who].bytes()), A::dex(REQ_Q, self.rq.bytes()), A::dex(EVENT_Q, self.eq.bytes()),
            A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()),
            if side == BID { A::tok(PC_WALLET, &mut self.pw[who]) } else { A::tok(COIN_WALLET, &mut self.cw[who]) },
            A::bare(pk(OWN[who])).sign(true), A::tok(COIN_VAULT, &mut self.cv), A::tok(PC_VAULT, &mut self.pv), A::bare(spl_token::ID),
            A::new(solana_program::sysvar::rent::ID, rent, SYS)];
        if let Some(s) = &mut self.srm { a.push(A::tok(SRM_WALLET, s)); }
        a
    }
    pub fn order(&mut self, who: usize, t: Ord) -> bool {
        let mut r = [0; 17];
        let mut a = self.order_accounts(who, t.side, &mut r);
        call(&mut a, &order_data(&t))
    }
    pub fn replace(&mut self, who: usize, ts: &[Ord]) -> bool {
        let mut d = vec![0, 20, 0, 0, 0];
        d.extend_from_slice(&(ts.len() as u64).to_le_bytes());
        for t in ts { order_body(&mut d, t); }
        let mut r = [0; 17];
        let mut a = self.order_accounts(who, ts[0].side, &mut r);
        call(&mut a, &d)
    }
    pub fn take(&mut self, who: usize, side: u8, price: u64, qty: u64, pc: u64, min_coin: u64, min_pc: u64, limit: u16) -> bool {
        let mut d = vec![0, 13, 0, 0, 0, side, 0, 0, 0];
        for v in [price, qty, pc, min_coin, min_pc] { d.extend_from_slice(&v.to_le_bytes()); }
        d.extend_from_slice(&limit.to_le_bytes());
        let mut a = [self.m.acc(), A::dex(REQ_Q, self.rq.bytes()), A::dex(EVENT_Q, self.eq.bytes()), A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()),
            A::tok(COIN_WALLET, &mut self.cw[who]), A::tok(PC_WALLET, &mut self.pw[who]), A::bare(pk(OWN[who])).sign(true), A::tok(COIN_VAULT, &mut self.cv),
            A::tok(PC_VAULT, &mut self.pv), A::bare(spl_token::ID), A::bare(VSIGNER)];
        call(&mut a, &d)
    }
    fn on_orders(&mut self, who: usize, d: &[u8]) -> bool {
        let mut a = [self.m.acc(), A::dex(BIDS, self.bids.bytes()), A::dex(ASKS, self.asks.bytes()), A::dex(OOK[who], self.oo[who].bytes()),
            A::bare(pk(OWN[who])).sign(true), A::dex(EVENT_Q, self.eq.bytes())];
        call(&mut a, d)
    }
    pub fn cancel(&mut self, who: usize, side: u8, id: u128) -> bool {
        let mut d = vec![0, 11, 0, 0, 0, side, 0, 0, 0];
        d.extend_from_slice(&id.to_le_bytes());
        self.on_orders(who, &d)
    }
    pub fn cancel_client(&mut self, who: usize, client: u64) -> bool {
        let mut d = vec![0, 12, 0, 0, 0];
        d.extend_from_slice(&client.to_le_bytes());
        self.on_orders(who, &d)
    }
    pub fn cancel_clients(&mut self, who: usize, ids: &[u64]) -> bool {
        let mut d = vec![0, 18, 0, 0, 0];
        for i in ids { d.extend_from_slice(&i.to_le_bytes()); }
        self.on_orders(who, &d)
    }
    pub fn consume(&mut self, limit: u16) -> bool {
        let l = limit.to_le_bytes();
        let [x, y, z] = &mut self.oo;
        let mut a = [A::dex(OO, x.bytes()), A::dex(OO2, y.bytes()), A::dex(OO3, z.bytes()), self.m.acc(), A::dex(EVENT_Q, self.eq.bytes()), A::bare(pk(STRANGER)), A::bare(pk(STRANGER))];
        call(&mut a, &[0, 3, 0, 0, 0, l[0], l[1]])
    }
    pub fn settle(&mut self, who: usize) -> bool {
        let mut a = [self.m.acc(), A::dex(OOK[who], self.oo[who].bytes()), A::bare(pk(OWN[who])).sign(true), A::tok(COIN_VAULT, &mut self.cv),
            A::tok(PC_VAULT, &mut self.pv), A::tok(COIN_WALLET, &mut self.cw[who]), A::tok(PC_WALLET, &mut self.pw[who]), A::bare(VSIGNER), A::bare(spl_token::ID)];
        call(&mut a, &[0, 5, 0, 0, 0])
    }
    /// (price, quantity, owner, order id) of the resting orders of a side
    pub fn book(&self, side: u8) -> Vec<(u64, u64, u8, u128)> {
        let b = if side == BID { &self.bids } else { &self.asks };
        let mut v = vec![];
        if { b.v.h.leaves } > 0 { walk(b, { b.v.h.root }, &mut v); }
        v
    }
    pub fn event(&self, i: u64) -> Ev { let h = self.eq.v.h; self.eq.v.e[((h.head + i) % 32) as usize] }
    pub fn events(&self) -> u64 { self.eq.v.h.count }
    pub fn oo(&self, who: usize) -> Oo { self.oo[who].v }
}
fn walk(b: &Acc<Book<15>>, i: u32, v: &mut Vec<(u64, u64, u8, u128)>) {
    let n = b.v.n[i as usize];
    if n[0] == 1 { let x = inner_of_node(n); let c = x.children; walk(b, c[0], v); walk(b, c[1], v); }
    else { let l = leaf_of_node(n); v.push((({ l.key } >> 64) as u64, l.qty, { l.owner }[0] as u8, l.key)); }
}
pub fn check(c: bool, what: &str) { if !c { println!("FAILED: {}", what); std::process::exit(1); } }

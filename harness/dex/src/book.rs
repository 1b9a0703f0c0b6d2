//! Order-book fixture and the reference model of matching, written from the exchange rules and
//! independent of the code under test.
use crate::world::*;

pub const BID: u8 = 0;
pub const ASK: u8 = 1;
pub const LIMIT: u8 = 0;
pub const IOC: u8 = 1;
pub const POST: u8 = 2;
pub const DECREMENT: u8 = 0;
pub const CANCEL_PROVIDE: u8 = 1;
pub const ABORT: u8 = 2;

#[derive(Clone, Copy)]
pub struct Rest { pub price: u64, pub seq: u64, pub owner: u8, pub slot: u8, pub qty: u64, pub client: u64, pub tier: u8 }
pub const REST0: Rest = Rest { price: 0, seq: 0, owner: 0, slot: 0, qty: 0, client: 0, tier: 0 };
pub fn order_id(side: u8, price: u64, seq: u64) -> u128 {
    ((price as u128) << 64) | (if side == BID { !seq } else { seq }) as u128
}
pub const MAXO: usize = 6;
/// one side of the book, best order first
#[derive(Clone, Copy)]
pub struct Orders { pub side: u8, pub n: usize, pub o: [Rest; MAXO] }
impl Orders {
    pub fn new(side: u8) -> Orders { Orders { side, n: 0, o: [REST0; MAXO] } }
    pub fn id(&self, i: usize) -> u128 { order_id(self.side, self.o[i].price, self.o[i].seq) }
    fn better(&self, a: u128, b: u128) -> bool { if self.side == BID { a > b } else { a < b } }
    /// insert keeping priority order
    pub fn add(&mut self, r: Rest) {
        let id = order_id(self.side, r.price, r.seq);
        let mut i = self.n;
        while i > 0 && self.better(id, self.id(i - 1)) { self.o[i] = self.o[i - 1]; i -= 1; }
        self.o[i] = r;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) {
        let mut j = i;
        while j + 1 < self.n { self.o[j] = self.o[j + 1]; j += 1; }
        self.n -= 1;
    }
    fn leaf(&self, i: usize) -> Leaf {
        let r = self.o[i];
        Leaf { tag: 2, owner_slot: r.slot, fee_tier: r.tier, pad: [0; 2], key: self.id(i), owner: k4(r.owner), qty: r.qty, client: r.client }
    }
    /// writes this side as a well-formed slab (concrete keys)
    pub fn write<const N: usize>(&self, b: &mut Acc<Book<N>>) {
        let mut ks = [(0u128, 0usize); MAXO];
        let mut i = 0;
        while i < self.n {
            // ascending by key
            let k = self.id(i);
            let mut j = i;
            while j > 0 && ks[j - 1].0 > k { ks[j] = ks[j - 1]; j -= 1; }
            ks[j] = (k, i);
            i += 1;
        }
        let mut next = 0u32;
        if self.n > 0 { b.v.h.root = self.emit(b, &ks[..self.n], &mut next); }
        b.v.h.bump = next as u64;
        b.v.h.leaves = self.n as u64;
    }
    fn emit<const N: usize>(&self, b: &mut Acc<Book<N>>, ks: &[(u128, usize)], next: &mut u32) -> u32 {
        let me = *next;
        *next += 1;
        if ks.len() == 1 {
            b.v.n[me as usize] = node_of_leaf(self.leaf(ks[0].1));
            return me;
        }
        let pl = (ks[0].0 ^ ks[ks.len() - 1].0).leading_zeros();
        let bit = (1u128 << 127) >> pl;
        let mut s = 0;
        while ks[s].0 & bit == 0 { s += 1; }
        let l = self.emit(b, &ks[..s], next);
        let r = self.emit(b, &ks[s..], next);
        b.v.n[me as usize] = node_of_inner(Inner { tag: 1, prefix_len: pl, key: ks[0].0, children: [l, r], pad: [0; 5] });
        me
    }
}

/// In-order leaves of a slab; None if the tree is malformed (wrong tags, counts, prefixes or ordering).
pub fn read_leaves<const N: usize>(b: &Acc<Book<N>>) -> Option<(usize, [Leaf; MAXO + 2])> {
    let mut out = [leaf_of_node([0; 18]); MAXO + 2];
    let mut n = 0;
    let mut live = 0u64;
    let h = b.v.h;
    if h.leaves > 0 {
        let mut stack = [0u32; 24];
        let mut sp = 1;
        stack[0] = h.root;
        while sp > 0 {
            sp -= 1;
            let i = stack[sp];
            if i as u64 >= h.bump || i as usize >= N { return None; }
            live += 1;
            let nd = b.v.n[i as usize];
            if nd[0] == 1 {
                let inner = inner_of_node(nd);
                if sp + 2 > 24 { return None; }
                let c = inner.children;
                stack[sp] = c[1];
                stack[sp + 1] = c[0];
                sp += 2;
            } else if nd[0] == 2 {
                if n == MAXO + 2 { return None; }
                out[n] = leaf_of_node(nd);
                if n > 0 && { out[n - 1].key } >= { out[n].key } { return None; }
                n += 1;
            } else { return None; }
        }
    }
    if n as u64 != { h.leaves } { return None; }
    // the free list accounts for every other allocated node
    if { h.bump } - { h.free_len } != live { return None; }
    let mut f = h.free_head;
    let mut k = 0;
    while k < h.free_len {
        if f as usize >= N || f as u64 >= h.bump { return None; }
        let nd = b.v.n[f as usize];
        if nd[0] != (if k + 1 == { h.free_len } { 4 } else { 3 }) { return None; }
        f = nd[1];
        k += 1;
    }
    Some((n, out))
}

/// the slab holds exactly these orders
pub fn book_is<const N: usize>(b: &Acc<Book<N>>, o: &Orders) -> bool {
    let (n, l) = match read_leaves(b) { Some(x) => x, None => return false };
    if n != o.n { return false; }
    let mut ok = true;
    let mut i = 0;
    while i < n {
        let j = if o.side == BID { n - 1 - i } else { i };
        ok &= same(&l[i], &o.leaf(j));
        i += 1;
    }
    ok
}

// ------------------------------------------------------------------ fees

pub const RATES: [u64; 8] = [40, 39, 38, 36, 34, 32, 30, 10];
pub fn rate(tier: u8) -> u128 { ((RATES[tier as usize] as u128) << 64) / 100_000 }
/// taker fee: rate times amount, rounded up
pub fn taker_fee(tier: u8, v: u64) -> u64 {
    let x = rate(tier) * v as u128;
    (x >> 64) as u64 + (x as u64 != 0) as u64
}
/// largest amount affordable together with its fee
pub fn net_of_fee(tier: u8, v: u64) -> u64 { (((v as u128) << 64) / ((1u128 << 64) + rate(tier))) as u64 }

// ------------------------------------------------------------------ reference matching

pub const MAXE: usize = 16;
#[derive(Clone, Copy)]
pub struct Taker {
    pub side: u8, pub otype: u8, pub stb: u8, pub limit: u16, pub price: u64, pub seq: u64, pub qty: u64, pub pc: u64,
    pub tier: u8, pub owner: u8, pub slot: u8, pub client: u64, pub send_take: bool,
}
#[derive(Clone, Copy)]
pub struct Outcome {
    pub ok: bool, pub nev: usize, pub ev: [Ev; MAXE],
    pub coin_credit: u64, pub coin_debit: u64, pub coin_unlocked: u64, // lots
    pub pc_credit: u64, pub pc_debit: u64, pub pc_unlocked: u64,       // native
    pub fees: u64, pub rebates: u64, pub from_deposits: u64,
    pub posted: u64, pub fills: u32, pub self_trades: u32, pub booted: u32,
}
pub fn fill_ev(side: u8, maker: bool, paid: u64, received: u64, fee: u64, id: u128, owner: [u64; 4], slot: u8, tier: u8, client: u64) -> Ev {
    Ev { flags: EF_FILL | if side == BID { EF_BID } else { 0 } | if maker { EF_MAKER } else { 0 }, owner_slot: slot, fee_tier: tier,
        pad: [0; 5], released: received, paid, fee, order_id: id, owner, client }
}
pub fn out_ev(side: u8, release: bool, unlocked: u64, still: u64, id: u128, owner: [u64; 4], slot: u8, client: u64) -> Ev {
    Ev { flags: EF_OUT | if side == BID { EF_BID } else { 0 } | if release { EF_RELEASE } else { 0 }, owner_slot: slot, fee_tier: 0,
        pad: [0; 5], released: unlocked, paid: still, fee: 0, order_id: id, owner, client }
}
impl Outcome {
    pub fn new() -> Outcome {
        Outcome { ok: true, nev: 0, ev: [EV0; MAXE], coin_credit: 0, coin_debit: 0, coin_unlocked: 0, pc_credit: 0, pc_debit: 0,
            pc_unlocked: 0, fees: 0, rebates: 0, from_deposits: 0, posted: 0, fills: 0, self_trades: 0, booted: 0 }
    }
    fn push(&mut self, e: Ev) { self.ev[self.nev] = e; self.nev += 1; }
}

/// Executes one incoming order against the book. `room` = how many orders the taker's own side can hold.
pub fn reference(t: &Taker, opp: &mut Orders, own: &mut Orders, coin_lot: u64, pc_lot: u64, room: usize) -> Outcome {
    let mut r = Outcome::new();
    let maker_side = 1 - t.side;
    let id = order_id(t.side, t.price, t.seq);
    let towner = if t.send_take { Z4 } else { k4(t.owner) };
    let mut limit = t.limit;
    let mut qty = t.qty;
    let mut pc = t.pc; // bids: native pc still available, fees included
    loop {
        let crossed = opp.n > 0 && if t.side == BID { t.price >= opp.o[0].price } else { t.price <= opp.o[0].price };
        let may_take = crossed && t.otype != POST && limit > 0;
        let max_pc = if t.side == BID { net_of_fee(t.tier, pc) / pc_lot } else { 0 };
        let mut tq = 0;
        if may_take {
            let b = opp.o[0];
            tq = if b.qty < qty { b.qty } else { qty };
            if t.side == BID {
                let afford = max_pc / b.price;
                if afford < tq { tq = afford; }
            }
        }
        if tq > 0 {
            let b = opp.o[0];
            let bid_ = opp.id(0);
            limit -= 1;
            if !t.send_take && b.owner == t.owner {
                // self trade
                r.self_trades += 1;
                if t.stb == ABORT { r.ok = false; return r; }
                let prov = if t.stb == DECREMENT { tq } else { b.qty };
                let take = if t.stb == DECREMENT { tq } else { 0 };
                let unit = if maker_side == BID { b.price * pc_lot } else { coin_lot };
                r.push(out_ev(maker_side, true, prov * unit, (b.qty - prov) * unit, bid_, k4(b.owner), b.slot, b.client));
                if b.qty == prov { opp.remove(0); } else { opp.o[0].qty = b.qty - prov; }
                qty -= take;
                if t.side == ASK {
                    r.push(out_ev(ASK, false, take * coin_lot, qty, id, towner, t.slot, t.client));
                    r.coin_unlocked += take;
                    if qty == 0 { return r; }
                } else {
                    let unlocked = take * b.price * pc_lot;
                    let still = pc - unlocked;
                    if qty > 0 && still > 0 {
                        r.pc_unlocked += unlocked;
                        r.push(out_ev(BID, false, unlocked, still, id, towner, t.slot, t.client));
                        pc = still;
                    } else {
                        r.pc_unlocked += pc;
                        r.push(out_ev(BID, false, pc, 0, id, towner, t.slot, t.client));
                        return r;
                    }
                }
                continue;
            }
            // a trade at the resting order's price
            r.fills += 1;
            let value = tq * b.price * pc_lot;
            let fee = taker_fee(t.tier, value);
            let (paid, recv) = if maker_side == BID { (value, tq * coin_lot) } else { (tq * coin_lot, value) };
            r.push(fill_ev(maker_side, true, paid, recv, 0, bid_, k4(b.owner), b.slot, b.tier, b.client));
            if b.qty == tq {
                r.push(out_ev(maker_side, true, 0, 0, bid_, k4(b.owner), b.slot, b.client));
                opp.remove(0);
            } else {
                opp.o[0].qty = b.qty - tq;
            }
            qty -= tq;
            if t.side == BID {
                r.coin_credit += tq;
                r.pc_debit += value + fee;
                pc -= value + fee;
                if !t.send_take { r.push(fill_ev(BID, false, value + fee, tq * coin_lot, fee, id, towner, t.slot, t.tier, t.client)); }
            } else {
                r.pc_credit += value - fee;
                r.coin_debit += tq;
                if !t.send_take { r.push(fill_ev(ASK, false, tq * coin_lot, value - fee, fee, id, towner, t.slot, t.tier, t.client)); }
            }
            let rebate = fee / 5;
            r.rebates += rebate;
            r.fees += fee - rebate;
            r.from_deposits += fee;
            if qty > 0 && (t.side == ASK || pc > 0) { continue; }
            // filled: the rest of the locked funds comes back
            if t.side == BID {
                if !t.send_take { r.pc_unlocked += pc; r.push(out_ev(BID, false, pc, 0, id, towner, t.slot, t.client)); }
            } else if !t.send_take {
                r.coin_unlocked += qty;
                r.push(out_ev(ASK, false, qty * coin_lot, 0, id, towner, t.slot, t.client));
            }
            return r;
        }
        // nothing more to take: post or give back
        let can_post = t.otype != IOC && !crossed && !t.send_take;
        if t.side == ASK {
            if can_post {
                r.posted = qty;
                post(&mut r, own, Rest { price: t.price, seq: t.seq, owner: t.owner, slot: t.slot, qty, client: t.client, tier: t.tier }, coin_lot, pc_lot, room);
            } else if !t.send_take {
                r.coin_unlocked += qty;
                r.push(out_ev(ASK, false, qty * coin_lot, 0, id, towner, t.slot, t.client));
            }
        } else {
            let mut p = 0;
            if can_post {
                p = pc / pc_lot / t.price;
                if qty < p { p = qty; }
            }
            let still = p * t.price * pc_lot;
            if !t.send_take {
                r.pc_unlocked += pc - still;
                r.push(out_ev(BID, false, pc - still, still, id, towner, t.slot, t.client));
            }
            if p > 0 {
                r.posted = p;
                post(&mut r, own, Rest { price: t.price, seq: t.seq, owner: t.owner, slot: t.slot, qty: p, client: t.client, tier: t.tier }, coin_lot, pc_lot, room);
            }
        }
        return r;
    }
}
fn post(r: &mut Outcome, own: &mut Orders, o: Rest, coin_lot: u64, pc_lot: u64, room: usize) {
    if own.n == room {
        // the least aggressive resting order makes room and is refunded
        r.booted += 1;
        let w = own.o[own.n - 1];
        let wid = own.id(own.n - 1);
        let unit = if own.side == BID { w.price * pc_lot } else { coin_lot };
        own.n -= 1;
        r.push(out_ev(own.side, true, w.qty * unit, 0, wid, k4(w.owner), w.slot, w.client));
    }
    own.add(o);
}

/// events appended to the queue since `c0`
pub fn events_are<const N: usize>(q: &EvQ<N>, head: u64, c0: u64, s0: u64, r: &Outcome) -> bool {
    let mut ok = q.h.head == head && { q.h.count } == c0 + r.nev as u64 && { q.h.seq } == s0.wrapping_add(r.nev as u64);
    let mut i = 0;
    while i < r.nev {
        ok &= same(&q.e[((head + c0) as usize + i) % N], &r.ev[i]);
        i += 1;
    }
    ok
}

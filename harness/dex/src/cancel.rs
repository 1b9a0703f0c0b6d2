//! Cancelling: by order id, by client id, in batches, by the prune authority, and cancel-and-replace.
use crate::book::*;
use crate::orders::*;
use crate::rt::*;
use crate::world::*;

const CAP: usize = 5;
/// the slots in use, ascending
const SLOT: [usize; 4] = [5, 63, 64, 127];
fn bit(k: usize) -> u128 { 1 << SLOT[k] }
pub struct S { pub m: Mkt, pub oo: Oo, pub bids: Orders, pub asks: Orders, pub ev_count: u64, pub ev_head: u64 }

/// lot sizes
const CL: u64 = (1 << 33) + 3;
const PL: u64 = (1 << 28) + 7;
/// Books with orders of two accounts; the caller's account (four slots) is consistent with them. The first holds an
/// order that already left the book. Quantities, balances and client ids are symbolic.
pub fn scene(client_bits: u32) -> S {
    let m = funded_market(CL, PL);
    let mut bids = Orders::new(BID);
    let mut asks = Orders::new(ASK);
    let cid = |n: usize| if client_bits == 0 { 100 + n as u64 } else { bits(client_bits) };
    let q = || 1 + bits(24);
    let mut oo = open_orders(OWNER);
    let c: [u64; 4] = [cid(0), cid(1), cid(2), cid(3)];
    let b1mine = choose(2) == 1;
    bids.add(Rest { price: 30, seq: 11, owner: OO, slot: SLOT[1] as u8, qty: q(), client: c[1], tier: 0 });
    bids.add(Rest { price: 40, seq: 12, owner: if b1mine { OO } else { OO2 }, slot: SLOT[3] as u8, qty: q(), client: c[3], tier: 2 });
    asks.add(Rest { price: 60, seq: 13, owner: OO, slot: SLOT[2] as u8, qty: q(), client: c[2], tier: 0 });
    asks.add(Rest { price: 60, seq: 14, owner: OO2, slot: 1, qty: q(), client: 7, tier: 0 });
    oo.orders[SLOT[0]] = order_id(BID, 30, 9);
    oo.orders[SLOT[1]] = order_id(BID, 30, 11);
    oo.orders[SLOT[2]] = order_id(ASK, 60, 13);
    oo.is_bid_bits = bit(0) | bit(1);
    oo.free_slot_bits = !(bit(0) | bit(1) | bit(2));
    let mut i = 0;
    while i < 3 { oo.client_order_ids[SLOT[i]] = c[i]; i += 1; }
    oo.native_coin_free = bits(50);
    oo.native_pc_free = bits(50);
    oo.referrer_rebates_accrued = u64_();
    let mut pc_locked = bits(50); // also what slot 0's unprocessed events still owe
    let mut coin_locked = bits(50);
    let mut i = 0;
    while i < 2 { if bids.o[i].owner == OO { pc_locked += bids.o[i].qty * bids.o[i].price * PL; } i += 1; }
    let mut i = 0;
    while i < 2 { if asks.o[i].owner == OO { coin_locked += asks.o[i].qty * CL; } i += 1; }
    if b1mine {
        oo.orders[SLOT[3]] = order_id(BID, 40, 12);
        oo.is_bid_bits |= bit(3);
        oo.free_slot_bits &= !bit(3);
        oo.client_order_ids[SLOT[3]] = c[3];
    }
    oo.native_coin_total = { oo.native_coin_free } + coin_locked;
    oo.native_pc_total = { oo.native_pc_free } + pc_locked;
    S { m, oo, bids, asks, ev_count: 0, ev_head: QN as u64 - 1 }
}
/// expected effect of cancelling order `i` of a side
fn cancel_one(s: &mut S, r: &mut Outcome, side: u8, i: usize) {
    let o = if side == BID { s.bids.o[i] } else { s.asks.o[i] };
    let amount = if side == BID { o.qty * o.price * PL } else { o.qty * CL };
    let id = order_id(side, o.price, o.seq);
    r.ev[r.nev] = out_ev(side, false, amount, 0, id, k4(o.owner), o.slot, o.client);
    r.nev += 1;
    if side == BID { s.bids.remove(i); s.oo.native_pc_free += amount; } else { s.asks.remove(i); s.oo.native_coin_free += amount; }
}
/// the position of the order with this id, if it rests on that side
fn find(s: &S, side: u8, id: u128) -> Option<usize> {
    let b = if side == BID { &s.bids } else { &s.asks };
    let mut i = 0;
    while i < b.n { if b.id(i) == id { return Some(i); } i += 1; }
    None
}
fn world(s: &S) -> W<CAP> {
    let mut w = W::<CAP>::new(s.m, true, BID, &s.asks, &s.bids);
    w.oo.v = s.oo;
    w.eq.v.h.head = s.ev_head;
    w.eq.v.h.count = s.ev_count;
    w
}
fn run(w: &mut W<CAP>, signer: bool, data: &[u8]) -> bool {
    let mut a = [w.m.acc(), A::dex(BIDS, w.bids.bytes()), A::dex(ASKS, w.asks.bytes()), A::dex(OO, w.oo.bytes()), A::bare(pk(OWNER)).sign(signer),
        A::dex(EVENT_Q, w.eq.bytes())];
    let ok = call(&mut a, data);
    observe(ok as u64);
    obs_oo(&w.oo.v);
    observe(w.eq.v.h.count);
    ok
}
fn verify(w: &W<CAP>, s: &S, r: &Outcome, c0: u64) {
    prop!(events_are(&w.eq.v, s.ev_head, c0, 0, r), "each cancelled order yields exactly its own out event");
    prop!(book_is(&w.bids, &s.bids), "exactly the cancelled bids leave the book");
    prop!(book_is(&w.asks, &s.asks), "exactly the cancelled asks leave the book");
    prop!(same(&w.oo.v, &s.oo), "exactly the cancelled orders' funds become free");
    let mut m = s.m;
    m.account_flags |= F_PERM;
    prop!(same(&w.m.get(), &m), "cancelling leaves the market's totals alone");
}
fn head(disc: u8) -> Vec<u8> { vec![0, disc, 0, 0, 0] }

/// prune account list: [market, bids, asks, prune authority, open orders, owner, event queue]
pub fn prune_call<const N: usize>(w: &mut W<N>, auth: u8, signer: bool, owner: u8, limit: u16) -> bool {
    let mut d = head(16);
    d.extend_from_slice(&limit.to_le_bytes());
    let mut a = [w.m.acc(), A::dex(BIDS, w.bids.bytes()), A::dex(ASKS, w.asks.bytes()), A::bare(pk(auth)).sign(signer), A::dex(OO, w.oo.bytes()),
        A::bare(pk(owner)), A::dex(EVENT_Q, w.eq.bytes())];
    call(&mut a, &d)
}

fn named(ts: &[Taker], c: u64) -> bool { let mut i = 0; let mut r = false; while i < ts.len() { r |= ts[i].client == c; i += 1; } r }
/// balance-only view of a replace: the batch cancel followed by new orders
fn replace(n: usize, batch: bool) {
    let mut s = scene(0);
    s.oo.client_order_ids[SLOT[0]] = 50;
    let mut w = world(&s);
    w.payer = tok(COIN_MINT, [OWNER; 32], 1 << 62);
    w.cv.amount = 1 << 60;
    w.rq.v.h.seq = SEQ;
    let mut d = head(if batch { 20 } else { 19 });
    if batch { d.extend_from_slice(&(n as u64).to_le_bytes()); }
    let mut ts = [taker(ASK, IOC, 90, 1, 1); 8];
    let mut i = 0;
    while i < n {
        let side = ASK;
        // 100 + slot: one of the caller's orders; 50: already filled; 999: unknown
        // (a full batch starts with seven orders that find nothing to trade)
        let mut t = ts[i];
        if n < 8 || i == 7 {
            t = taker(side, if choose(2) == 0 { LIMIT } else { POST }, pick(&[35, 60, 90]), 1 + bits(24), 1);
            t.client = pick(&[101, 102, 50, 999, 0]);
        }
        ts[i] = t;
        d.extend_from_slice(&new_order_data(&t, i64::MAX)[5..]);
        i += 1;
    }
    // expected: first every named order is cancelled, in slot order
    let mut r = Outcome::new();
    let mut slot = 0;
    while slot < 4 {
        let c = { s.oo.client_order_ids[SLOT[slot]] };
        if { s.oo.free_slot_bits } & bit(slot) == 0 && c != 0 && named(&ts[..n], c) {
            let side = if { s.oo.is_bid_bits } & bit(slot) != 0 { BID } else { ASK };
            let id = s.oo.orders[SLOT[slot]];
            if let Some(i) = find(&s, side, id) { cancel_one(&mut s, &mut r, side, i); }
        }
        slot += 1;
    }
    let cancelled = r.nev;
    // then the new orders run one after another
    let (mut pay, mut cv) = (1u64 << 62, 1u64 << 60);
    let mut fits = true;
    let mut i = 0;
    while i < n {
        let mut t = ts[i];
        t.seq = SEQ + i as u64;
        t.slot = { s.oo.free_slot_bits }.trailing_zeros() as u8;
        let x = reference(&t, &mut s.bids, &mut s.asks, CL, PL, 3);
        fits &= x.ok && r.nev + x.nev <= MAXE;
        let need = t.qty * CL;
        let used = if need < { s.oo.native_coin_free } { need } else { s.oo.native_coin_free };
        pay -= need - used;
        cv += need - used;
        s.oo.native_coin_free = { s.oo.native_coin_free } - used + x.coin_unlocked * CL;
        s.oo.native_coin_total = { s.oo.native_coin_total } + (need - used) - x.coin_debit * CL;
        s.oo.native_pc_free += x.pc_credit + x.pc_unlocked;
        s.oo.native_pc_total += x.pc_credit;
        s.m.coin_deposits_total += need - used;
        s.m.pc_fees_accrued += x.fees;
        s.m.referrer_rebates_accrued += x.rebates;
        s.m.pc_deposits_total -= x.from_deposits;
        s.oo.free_slot_bits &= !(1u128 << t.slot);
        s.oo.is_bid_bits &= !(1u128 << t.slot);
        s.oo.orders[t.slot as usize] = order_id(ASK, t.price, t.seq);
        s.oo.client_order_ids[t.slot as usize] = t.client;
        let mut j = 0;
        while j < x.nev { r.ev[r.nev] = x.ev[j]; r.nev += 1; j += 1; }
        i += 1;
    }
    if fits { forbid_panic(true); }
    let mut rent = solana_rent();
    let mut a = vec![w.m.acc(), A::dex(OO, w.oo.bytes()), A::dex(REQ_Q, w.rq.bytes()), A::dex(EVENT_Q, w.eq.bytes()),
        A::dex(BIDS, w.bids.bytes()), A::dex(ASKS, w.asks.bytes()), A::tok(PC_WALLET, &mut w.payer),
        A::bare(pk(OWNER)).sign(true), A::tok(COIN_VAULT, &mut w.cv), A::tok(PC_VAULT, &mut w.pv), A::bare(spl_token::ID), rent_acc(&mut rent)];
    let ok = call(&mut a, &d);
    forbid_panic(false);
    observe(ok as u64);
    obs_oo(&w.oo.v);
    prop!(ok == fits, "replacing succeeds exactly when the new orders are acceptable");
    if ok {
        verify(&w, &s, &r, 0);
        prop!({ w.payer.amount } == pay && { w.cv.amount } == cv, "the payer is charged only the shortfall left after the cancelled funds");
    }
    let last = n - 1;
    witness!(ok && cancelled > 0 && ts[last].client == 102, "replaces resting orders");
    witness!(ok && cancelled == 0, "nothing to replace");
}

harnesses! {
    fn cancel_by_id() {
        let mut s = scene(0);
        s.ev_count = [0, QN as u64][choose(2) as usize];
        let mut w = world(&s);
        let (side, id, signer) = (choose(2), u128_(), bool_());
        let mut d = head(11);
        d.extend_from_slice(&[side, 0, 0, 0]);
        d.extend_from_slice(&id.to_le_bytes());
        let mut r = Outcome::new();
        let f = find(&s, side, id);
        let mine = match f { Some(i) => (if side == BID { s.bids.o[i].owner } else { s.asks.o[i].owner }) == OO, None => false };
        let accept = signer && mine && s.ev_count < QN as u64;
        if accept { forbid_panic(true); }
        let ok = run(&mut w, signer, &d);
        forbid_panic(false);
        prop!(ok == accept, "an order can be cancelled exactly by the owner of the account that placed it, while it rests");
        if ok {
            let c0 = s.ev_count;
            if let Some(i) = f { cancel_one(&mut s, &mut r, side, i); }
            verify(&w, &s, &r, c0);
        }
        witness!(ok && side == BID, "bid cancelled");
        witness!(ok && side == ASK, "ask cancelled");
        witness!(!ok && signer && f.is_some() && s.ev_count == 0, "someone else's order");
    }
    fn cancel_by_client_id() {
        let mut s = scene(64);
        let mut w = world(&s);
        let (c, signer) = (u64_(), bool_());
        let mut d = head(12);
        d.extend_from_slice(&c.to_le_bytes());
        let mut r = Outcome::new();
        // the first occupied slot with that (non-zero) client id
        let mut target = None;
        let mut slot = 0;
        while slot < 4 {
            if target.is_none() && { s.oo.free_slot_bits } & bit(slot) == 0 && c != 0 && { s.oo.client_order_ids[SLOT[slot]] } == c {
                target = Some((if { s.oo.is_bid_bits } & bit(slot) != 0 { BID } else { ASK }, { s.oo.orders[SLOT[slot]] }));
            }
            slot += 1;
        }
        let f = match target { Some((side, id)) => match find(&s, side, id) { Some(i) => Some((side, i)), None => None }, None => None };
        let accept = signer && f.is_some();
        if accept { forbid_panic(true); }
        let ok = run(&mut w, signer, &d);
        forbid_panic(false);
        prop!(ok == accept, "cancelling by client id finds exactly the caller's resting order with that id");
        if ok {
            if let Some((side, i)) = f { cancel_one(&mut s, &mut r, side, i); }
            verify(&w, &s, &r, 0);
        }
        witness!(ok, "cancelled");
        witness!(!ok && signer && target.is_some(), "order already left the book");
    }
    fn cancel_by_client_ids() {
        let mut s = scene(4);
        s.ev_count = [0, QN as u64 - 1][choose(2) as usize];
        let mut w = world(&s);
        let n = choose(4) as usize;
        let ids = [bits(4), bits(4), bits(4)];
        let signer = bool_();
        let mut d = head(18);
        let mut i = 0;
        // (a full batch starts with ids of no order)
        if n == 3 && choose(2) == 1 { while i < 5 { d.extend_from_slice(&((1u64 << 40) + i as u64).to_le_bytes()); i += 1; } i = 0; }
        while i < n { d.extend_from_slice(&ids[i].to_le_bytes()); i += 1; }
        let mut r = Outcome::new();
        let c0 = s.ev_count;
        let mut slot = 0;
        while slot < 4 {
            let c = { s.oo.client_order_ids[SLOT[slot]] };
            let mut hit = false;
            let mut i = 0;
            while i < n { hit |= ids[i] == c; i += 1; }
            if { s.oo.free_slot_bits } & bit(slot) == 0 && c != 0 && hit {
                let side = if { s.oo.is_bid_bits } & bit(slot) != 0 { BID } else { ASK };
                let id = s.oo.orders[SLOT[slot]];
                if let Some(i) = find(&s, side, id) { cancel_one(&mut s, &mut r, side, i); }
            }
            slot += 1;
        }
        let accept = signer && c0 + r.nev as u64 <= QN as u64;
        if accept { forbid_panic(true); }
        let ok = run(&mut w, signer, &d);
        forbid_panic(false);
        prop!(ok == accept, "a batch cancel succeeds unless unsigned or out of event space");
        if ok { verify(&w, &s, &r, c0); }
        witness!(ok && r.nev == 3, "three cancelled");
        witness!(ok && n == 3 && r.nev == 0, "none matched");
        witness!(!ok && signer, "no room for the events");
    }
    fn cancel_prune() {
        let mut s = scene(0);
        let mut w = world(&s);
        let auth_ok = choose(2) == 1;
        let (signer, limit) = (bool_(), pick(&[0, 1, 2, 3, 4, 6, 100]) as u16);
        let oo0 = s.oo;
        forbid_panic(auth_ok && signer);
        let ok = prune_call(&mut w, if auth_ok { PRUNE_AUTH } else { STRANGER }, signer, OWNER, limit);
        forbid_panic(false);
        observe(ok as u64);
        obs_oo(&w.oo.v);
        observe(w.eq.v.h.count);
        prop!(!ok || (auth_ok && signer), "pruning needs the prune authority");
        prop!(ok || !(auth_ok && signer), "the prune authority can always prune");
        if ok {
            // an order of the target leaves the book together with its out event and refund; others stay
            let mut r = Outcome::new();
            let (nb, na) = (s.bids.n, s.asks.n);
            let mut side = 0;
            while side < 2 {
                // removal order within a side is unspecified: best first here, compared by content below
                let mut i = if side == BID { nb } else { na };
                while i > 0 {
                    i -= 1;
                    let o = if side == BID { s.bids.o[i] } else { s.asks.o[i] };
                    let gone = if side == BID { !has(&w.bids, order_id(BID, o.price, o.seq)) } else { !has(&w.asks, order_id(ASK, o.price, o.seq)) };
                    if gone {
                        prop!(o.owner == OO, "only orders of the pruned account leave the book");
                        cancel_one(&mut s, &mut r, side, i);
                    }
                }
                side += 1;
            }
            prop!(book_is(&w.bids, &s.bids) && book_is(&w.asks, &s.asks), "the other orders are untouched");
            prop!(same(&w.oo.v, &s.oo), "exactly the removed orders' funds become free");
            prop!({ w.eq.v.h.count } == r.nev as u64, "one event per removed order");
            let mut i = 0;
            while i < r.nev {
                let mut found = false;
                let mut j = 0;
                while j < r.nev { found |= same(&w.eq.v.e[(s.ev_head as usize + j) % QN], &r.ev[i]); j += 1; }
                prop!(found, "each removed order yields its own out event");
                i += 1;
            }
            let mine = if { oo0.free_slot_bits } & bit(3) == 0 { 3 } else { 2 };
            prop!(r.nev <= limit as usize, "no more orders are removed than the limit allows");
            prop!(limit < 100 || r.nev == mine, "with enough iterations every order of the account is removed");
            witness!(r.nev == 3, "all removed");
            witness!(limit > 0 && r.nev == 0, "limit reached before any");
        }
        witness!(!ok, "refused");
    }
    fn cancel_replace_one() { replace(1, false) }
    fn cancel_replace_batch() { replace(2, true) }
    fn cancel_replace_full() { replace(8, true) }
}
fn has(b: &Acc<Book<CAP>>, id: u128) -> bool {
    match read_leaves(b) {
        None => false,
        Some((n, l)) => { let mut f = false; let mut i = 0; while i < n { f |= { l[i].key } == id; i += 1; } f }
    }
}

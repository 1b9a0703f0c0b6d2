//! Consuming the event queue.
use crate::book::*;
use crate::rt::*;
use crate::world::*;

const N: usize = 4;
fn crank(m: &mut MAcc, q: &mut Acc<EvQ<N>>, a: &mut Acc<Oo>, b: Option<&mut Acc<Oo>>, limit: u16) -> bool {
    let d = [0, 3, 0, 0, 0, limit as u8, (limit >> 8) as u8];
    let mut v = vec![A::dex(OO, a.bytes())];
    if let Some(b) = b { v.push(A::dex(OO2, b.bytes())); }
    v.push(m.acc());
    v.push(A::dex(EVENT_Q, q.bytes()));
    v.push(A::bare(pk(COIN_WALLET)));
    v.push(A::bare(pk(PC_WALLET)));
    call(&mut v, &d)
}
fn account(owner: u8) -> Oo {
    let mut o = open_orders(owner);
    o.native_coin_free = bits(60);
    o.native_pc_free = bits(60);
    o.native_coin_total = { o.native_coin_free } + bits(60);
    o.native_pc_total = { o.native_pc_free } + bits(60);
    o.referrer_rebates_accrued = bits(60);
    o
}
fn set_slot(o: &mut Oo, slot: u8, side: u8, id: u128, client: u64) {
    o.free_slot_bits &= !(1u128 << slot);
    if side == BID { o.is_bid_bits |= 1u128 << slot; } else { o.is_bid_bits &= !(1u128 << slot); }
    o.orders[slot as usize] = id;
    o.client_order_ids[slot as usize] = client;
}
/// what one event does to its owner's account; false if it cannot apply
fn apply(o: &mut Oo, e: &Ev) -> bool {
    let (bid, s) = (e.flags & EF_BID != 0, e.owner_slot as usize);
    if s >= 128 { return false; }
    let b = 1u128 << s;
    if { o.free_slot_bits } & b != 0 || ({ o.is_bid_bits } & b != 0) != bid || { o.orders[s] } != { e.order_id } { return false; }
    if e.flags & EF_FILL != 0 {
        if e.flags & EF_MAKER != 0 {
            if bid {
                o.native_pc_total -= e.paid;
                o.native_coin_total += e.released;
                o.native_coin_free += e.released;
                o.native_pc_free += e.fee;
            } else {
                o.native_coin_total -= e.paid;
                o.native_pc_total += e.released;
                o.native_pc_free += e.released;
            }
        } else {
            o.referrer_rebates_accrued += e.fee / 5;
        }
        return true;
    }
    if e.flags & EF_RELEASE != 0 { if bid { o.native_pc_free += e.released; } else { o.native_coin_free += e.released; } }
    if bid && { o.native_pc_free } > { o.native_pc_total } || !bid && { o.native_coin_free } > { o.native_coin_total } { return false; }
    if { e.paid } == 0 {
        o.free_slot_bits |= b;
        o.is_bid_bits &= !b;
        o.orders[s] = 0;
        o.client_order_ids[s] = 0;
    }
    true
}
/// the event can be backed by the account: it moves no more than what is locked
fn backed(o: &Oo, e: &Ev) -> bool {
    let (bid, fill) = (e.flags & EF_BID != 0, e.flags & EF_FILL != 0);
    let (t, f) = if bid { (o.native_pc_total, o.native_pc_free) } else { (o.native_coin_total, o.native_coin_free) };
    let locked = t - f;
    if fill { e.flags & EF_MAKER == 0 || { e.paid } + if bid { e.fee } else { 0 } <= locked } else { e.flags & EF_RELEASE == 0 || { e.released } <= locked }
}
const KINDS: [u8; 6] = [EF_FILL | EF_BID | EF_MAKER, EF_FILL | EF_MAKER, EF_FILL | EF_BID, EF_OUT | EF_BID, EF_OUT | EF_RELEASE, EF_OUT | EF_BID | EF_RELEASE];

harnesses! {
    fn consume_one() {
        let v2 = choose(2) == 1;
        let m0 = market();
        let mut m = if v2 { MAcc::v2(m0) } else { MAcc::v1(m0) };
        if choose(2) == 1 { let mut x = m.get(); x.account_flags |= F_DISABLED; m.set(x); }
        let m1 = m.get();
        let mut oo = account(OWNER);
        let slot = [0u8, 63, 64, 127][choose(4) as usize];
        let (side, id) = (choose(2), u128_());
        set_slot(&mut oo, slot, side, id, u64_());
        let mut e = EV0;
        e.flags = split(u8_() as u64) as u8;
        assume(e.flags < 32);
        e.owner_slot = [slot, 5, 128, 255][choose(4) as usize];
        e.order_id = if choose(2) == 0 { id } else { u128_() };
        e.owner = k4(OO);
        e.released = bits(60);
        e.paid = bits(60);
        e.fee = bits(50);
        e.client = u64_();
        // the account the event is about backs it (guaranteed by matching)
        assume(backed(&oo, &e));
        let mut q = evq::<N>();
        q.v.h.head = 3;
        q.v.h.count = 1;
        q.v.h.seq = 9;
        q.v.e[3] = e;
        let mut x = Acc::new(oo);
        let mut eo = oo;
        // a fill or an out, never both, and never a maker/release mark on the wrong kind
        let (fill, out) = (e.flags & EF_FILL != 0, e.flags & EF_OUT != 0);
        let wellformed = (fill != out) && if fill { e.flags & EF_RELEASE == 0 } else { e.flags & EF_MAKER == 0 };
        let fits = wellformed && apply(&mut eo, &e);
        let mut clean = eo;
        forbid_panic(fits);
        let ok = crank(&mut m, &mut q, &mut x, None, 1);
        forbid_panic(false);
        observe(ok as u64);
        obs_oo(&x.v);
        if wellformed { prop!(ok == fits, "an event is applied exactly when it matches an open order of its owner"); }
        if ok && wellformed {
            clean = eo;
            prop!(same(&x.v, &clean), "the owner is credited exactly what the event records");
            prop!({ q.v.h.count } == 0 && { q.v.h.head } == 0 && { q.v.h.seq } == 9, "a consumed event leaves the queue");
            prop!(same(&m.get(), &m1), "consuming events leaves the market's totals alone");
        }
        witness!(ok && e.flags == KINDS[0], "maker bid fill");
        witness!(ok && e.flags == KINDS[1], "maker ask fill");
        witness!(ok && e.flags == KINDS[4] && { e.paid } == 0, "order leaves its slot");
        witness!(!ok && wellformed && e.owner_slot == slot, "mismatching event refused");
    }
    fn consume_fifo() {
        let mut m = MAcc::v1(market());
        let (mut a, mut b) = (account(OWNER), account(OWNER2));
        set_slot(&mut a, 3, BID, 77, 0);
        set_slot(&mut b, 3, BID, 77, 0);
        set_slot(&mut a, 4, ASK, 78, 0);
        set_slot(&mut b, 4, ASK, 78, 0);
        let (mut ea, mut eb) = (a, b);
        let mut q = evq::<N>();
        let head = choose(N as u8) as u64;
        let n = choose(4) as usize;
        let limit = [0u16, 1, 2, 3, 200][choose(5) as usize];
        let with_b = choose(2) == 1;
        let mut done = 0;
        let mut stop = false;
        let mut fail = false;
        let mut i = 0;
        while i < n {
            let mut e = EV0;
            e.flags = KINDS[if i == 2 { 0 } else { choose(6) as usize }];
            let owner = if i == 2 { OO } else { [OO, OO2, OO3][choose(3) as usize] };
            e.owner = k4(owner);
            let bid = e.flags & EF_BID != 0;
            e.owner_slot = if bid { 3 } else { 4 };
            e.order_id = if bid { 77 } else { 78 };
            e.released = bits(58);
            e.paid = bits(58);
            if e.flags & EF_FILL != 0 { e.fee = bits(50); }
            q.v.e[(head as usize + i) % N] = e;
            // strictly in order: stop at the limit or at the first event whose account is not supplied
            if i >= limit as usize || (owner != OO && !(owner == OO2 && with_b)) { stop = true; }
            if !stop && !fail {
                let o = if owner == OO { &mut ea } else { &mut eb };
                assume(backed(o, &e));
                if apply(o, &e) { done += 1; } else { fail = true; }
            }
            i += 1;
        }
        q.v.h.head = head;
        q.v.h.count = n as u64;
        let q0 = q;
        let (mut x, mut y) = (Acc::new(a), Acc::new(b));
        if !fail { forbid_panic(true); }
        let ok = crank(&mut m, &mut q, &mut x, if with_b { Some(&mut y) } else { None }, limit);
        forbid_panic(false);
        observe(ok as u64);
        obs_oo(&x.v);
        obs_oo(&y.v);
        prop!(ok == !fail, "events that match open orders can be consumed");
        if ok {
            prop!(same(&x.v, &ea) && same(&y.v, &eb), "events are applied once each, in order, to their own accounts");
            prop!({ q.v.h.count } == n as u64 - done && { q.v.h.head } == (head + done) % N as u64, "exactly the applied events leave the queue");
            let mut i = done;
            let mut left = true;
            while i < n as u64 { let k = ((head + i) % N as u64) as usize; left &= same(&q.v.e[k], &q0.v.e[k]); i += 1; }
            prop!(left, "the events left are unchanged");
        }
        witness!(ok && done == 3, "three events");
        witness!(ok && done == 1 && limit == 200 && n == 3, "stops at a missing account");
        witness!(ok && limit == 2 && n == 3 && done == 2, "stops at the limit");
    }
    // many accounts, many events: each account gets its own
    fn consume_many() {
        const K: usize = 7;
        const L: usize = 12;
        let mut m = MAcc::v1(market());
        let mut o: Vec<Acc<Oo>> = Vec::new();
        let mut i = 0;
        while i < K {
            let mut x = account(OWNER);
            set_slot(&mut x, 3, BID, 77, 0);
            set_slot(&mut x, 4, ASK, 78, 0);
            o.push(Acc::new(x));
            i += 1;
        }
        let mut want: Vec<Oo> = Vec::new();
        for x in o.iter() { want.push(x.v); }
        // the accounts supplied, in order of their keys: all, or all but one
        let gap = choose(K as u8 + 1) as usize;
        let mut q = evq::<L>();
        let head = [0usize, 5, 11][choose(3) as usize];
        let limit = [12u16, 9, 11, 300][choose(4) as usize];
        let first = choose(K as u8) as usize;
        let mut done = 0;
        let mut stop = false;
        let mut i = 0;
        while i < L {
            let k = (first + i * 3) % K;
            let mut e = EV0;
            // releases of part of an order, so that any number of them can follow one another
            let bid = (i / 2) % 2 == 0;
            e.flags = EF_OUT | EF_RELEASE | if bid { EF_BID } else { 0 };
            e.owner = k4(100 + k as u8);
            e.owner_slot = if bid { 3 } else { 4 };
            e.order_id = if bid { 77 } else { 78 };
            e.released = bits(50);
            e.paid = 1;
            q.v.e[(head + i) % L] = e;
            if i >= limit as usize || k == gap { stop = true; }
            if !stop { assume(backed(&want[k], &e)); apply(&mut want[k], &e); done += 1; }
            i += 1;
        }
        q.v.h.head = head as u64;
        q.v.h.count = L as u64;
        let mut v: Vec<A> = Vec::new();
        let mut i = 0;
        for x in o.iter_mut() { if i != gap { v.push(A::dex(100 + i as u8, x.bytes())); } i += 1; }
        v.push(m.acc());
        v.push(A::dex(EVENT_Q, q.bytes()));
        v.push(A::bare(pk(COIN_WALLET)));
        v.push(A::bare(pk(PC_WALLET)));
        forbid_panic(true);
        let ok = call(&mut v, &[0, 3, 0, 0, 0, limit as u8, (limit >> 8) as u8]);
        forbid_panic(false);
        std::mem::forget(v);
        observe(ok as u64);
        prop!(ok, "events that match open orders can be consumed");
        let mut i = 0;
        let mut right = true;
        while i < K { right &= same(&o[i].v, &want[i]); i += 1; }
        prop!(right, "events are applied once each, in order, to their own accounts");
        prop!({ q.v.h.count } == (L - done) as u64 && { q.v.h.head } == ((head + done) % L) as u64, "exactly the applied events leave the queue");
        witness!(done == L, "all events");
        witness!(done == 9, "stops at the limit");
        witness!(done < 7 && done > 0, "stops at a missing account");
        std::mem::forget((o, want));
    }
}

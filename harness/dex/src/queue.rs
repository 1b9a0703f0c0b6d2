//! The event and request queues as bounded FIFOs.
use crate::rt::*;
use crate::world::*;
use serum_dex::state::{Event, EventQueueHeader, Queue, Request, RequestQueueHeader};
use std::cell::{RefCell, RefMut};

const N: usize = 4;
fn ev() -> Ev { let mut e = EV0; e.released = u64_(); e.client = u64_(); e.order_id = u128_(); e.flags = u8_(); e }
fn oid(e: &Event) -> u128 { back(e).order_id }
fn conv(e: Ev) -> Event { unsafe { std::mem::transmute(e) } }
fn back(e: &Event) -> Ev { unsafe { std::mem::transmute_copy(e) } }
/// any sequence of pushes, pops and reverts, from any state, against an array
fn events(n: usize, ops: usize) {
    let head = choose(n as u8) as u64;
    let count = choose(n as u8 + 1) as u64;
    let seq = u64_();
    assume(seq >= count && seq < u64::MAX - 8);
    let h: EventQueueHeader = unsafe { std::mem::transmute(QHdr { flags: F_INIT | F_EVQ, head, count, seq }) };
    let mut model = [EV0; 12];
    let mut buf0 = [conv(EV0); N];
    let mut i = 0;
    while i < count as usize {
        let e = ev();
        model[i] = e;
        buf0[(head as usize + i) % n] = conv(e);
        i += 1;
    }
    forbid_panic(true);
    let hc = RefCell::new(h);
    let bc = RefCell::new(buf0);
    let mut len = count as usize;
    let mut id = seq;
    // since when pushes may be reverted
    let mut pushed = 0;
    {
        let mut q = Queue::new(hc.borrow_mut(), RefMut::map(bc.borrow_mut(), |b| &mut b[..n]));
        let mut k = 0;
        while k < ops {
            match choose(4) {
                0 => {
                    let e = ev();
                    let r = q.push_back(conv(e));
                    prop!(r.is_ok() == (len < n), "an event is refused exactly when the queue is full");
                    if let Err(b) = &r { prop!(same(&back(b), &e), "a refused event is handed back"); witness!(true, "full"); }
                    if r.is_ok() { model[len] = e; len += 1; id = id.wrapping_add(1); pushed += 1; }
                }
                1 => {
                    let r = q.pop_front();
                    prop!(r.is_ok() == (len > 0), "an event is delivered exactly when there is one");
                    if let Ok(e) = r {
                        prop!(same(&back(&e), &model[0]), "the oldest event is delivered first");
                        let mut j = 0;
                        while j + 1 < len { model[j] = model[j + 1]; j += 1; }
                        len -= 1;
                        pushed = if pushed < len { pushed } else { len };
                        witness!(true, "popped");
                    }
                }
                2 => {
                    let r = q.peek_front_mut();
                    prop!(r.is_some() == (len > 0), "the front is there exactly when the queue is not empty");
                    if let Some(x) = r { let mut e = back(x); e.released = u64_(); *x = conv(e); model[0] = e; }
                }
                _ => {
                    let back_to = choose(pushed as u8 + 1) as usize;
                    let r = q.revert_pushes((len - back_to) as u64);
                    prop!(r.is_ok(), "recent pushes can be taken back");
                    len -= back_to;
                    id = id.wrapping_sub(back_to as u64);
                    pushed -= back_to;
                }
            }
            prop!(q.len() == len as u64 && q.full() == (len == n) && q.empty() == (len == 0), "the length is right");
            prop!(match q.peek_front() { Some(e) => len > 0 && same(&back(e), &model[0]), None => len == 0 }, "the oldest event is in front");
            let mut j = 0;
            let mut ok = true;
            for e in q.iter() { ok &= j < len && same(&back(e), &model[j]); j += 1; }
            prop!(ok && j == len, "the queue holds exactly the events pushed and not delivered, in order");
            k += 1;
        }
        observe(q.len());
    }
    let h1: QHdr = unsafe { std::mem::transmute(*hc.borrow()) };
    prop!({ h1.seq } == id && h1.flags == F_INIT | F_EVQ && h1.head < n as u64, "events are numbered without gaps");
    std::mem::forget((hc, bc));
}
/// a long queue: any events around the ends of the ring, the rest in order
fn long() {
    const L: usize = 600;
    let head = [0usize, 1, 255, 256, 300, 511, 512, 599][choose(8) as usize];
    let count = [0usize, 1, 44, 88, 255, 256, 257, 511, 512, 599, 600][choose(11) as usize];
    let seq = u64_();
    assume(seq >= 600 && seq < u64::MAX - 8);
    let h: EventQueueHeader = unsafe { std::mem::transmute(QHdr { flags: F_INIT | F_EVQ, head: head as u64, count: count as u64, seq }) };
    // entry i was pushed with the id i
    let mut b = vec![conv(EV0); L];
    let mut i = 0;
    while i < count { let mut e = EV0; e.order_id = i as u128; b[(head + i) % L] = conv(e); i += 1; }
    forbid_panic(true);
    let (hc, bc) = (RefCell::new(h), RefCell::new(b));
    {
        let mut q: Queue<EventQueueHeader> = Queue::new(hc.borrow_mut(), RefMut::map(bc.borrow_mut(), |b| &mut b[..]));
        let e = ev();
        let pushed = q.push_back(conv(e)).is_ok();
        prop!(pushed == (count < L), "an event is refused exactly when the queue is full");
        let n = count + pushed as usize;
        prop!(q.len() == n as u64, "the length is right");
        let mut j = 0;
        let mut ok = true;
        for x in q.iter() { ok &= if j < count { oid(x) == j as u128 } else { same(&back(x), &e) }; j += 1; }
        prop!(ok && j == n, "the queue holds exactly the events pushed and not delivered, in order");
        match choose(2) {
            0 => {
                let r = q.pop_front();
                prop!(match r { Ok(x) => n > 0 && if count > 0 { oid(&x) == 0 } else { same(&back(&x), &e) }, Err(()) => n == 0 }, "the oldest event is delivered first");
                prop!(n < 2 || match q.peek_front() { Some(x) => if count > 1 { oid(x) == 1 } else { same(&back(x), &e) }, None => false }, "the oldest event is in front");
            }
            _ => {
                let to = n / 2;
                prop!(q.revert_pushes(to as u64).is_ok() && q.len() == to as u64, "recent pushes can be taken back");
                prop!(to == 0 || match q.peek_front() { Some(x) => oid(x) == 0, None => false }, "the oldest event is in front");
            }
        }
        witness!(!pushed, "full");
        witness!(pushed && head + count >= L, "wraps around");
    }
    std::mem::forget((hc, bc));
}
fn requests() {
    let n = 2usize;
    let head = choose(n as u8) as u64;
    let count = choose(n as u8 + 1) as u64;
    let seq = u64_();
    let h: RequestQueueHeader = unsafe { std::mem::transmute(QHdr { flags: F_INIT | F_REQQ, head, count, seq }) };
    forbid_panic(true);
    let hc = RefCell::new(h);
    let z: Request = unsafe { std::mem::zeroed() };
    let bc = RefCell::new([z; 2]);
    let mut len = count as usize;
    {
        let mut q: Queue<RequestQueueHeader> = Queue::new(hc.borrow_mut(), RefMut::map(bc.borrow_mut(), |b| &mut b[..]));
        let mut k = 0;
        while k < 3 {
            match choose(3) {
                0 => { let ok = q.push_back(z).is_ok(); prop!(ok == (len < n), "a request is refused exactly when the queue is full"); if ok { len += 1; } }
                1 => { let ok = q.pop_front().is_ok(); prop!(ok == (len > 0), "a request is delivered exactly when there is one"); if ok { len -= 1; } }
                _ => { let b = choose(len as u8 + 1) as usize; prop!(q.revert_pushes(b as u64).is_ok(), "requests can be taken back"); len = b; }
            }
            prop!(q.len() == len as u64, "the length is right");
            k += 1;
        }
    }
    let h1: QHdr = unsafe { std::mem::transmute(*hc.borrow()) };
    prop!({ h1.seq } == seq, "requests do not consume sequence numbers");
    witness!(true, "done");
    std::mem::forget((hc, bc));
}
harnesses! {
    fn queue_events3() { events(3, 3) }
    fn queue_events4() { events(4, 4) }
    fn queue_long() { long() }
    fn queue_requests() { requests() }
}

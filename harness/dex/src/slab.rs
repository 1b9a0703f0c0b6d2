//! The order book's storage as a sorted map.
use crate::rt::*;
use crate::world::*;
use serum_dex::critbit::{LeafNode, Slab, SlabView};

const MAXN: usize = 10;
#[derive(Clone, Copy)]
struct E { key: u128, qty: u64, client: u64, slot: u8 }
/// reference: an array sorted by key
struct Ref { n: usize, e: [E; MAXN] }
impl Ref {
    fn find(&self, key: u128) -> Option<usize> { let mut i = 0; while i < self.n { if self.e[i].key == key { return Some(i); } i += 1; } None }
    fn insert(&mut self, x: E) -> Option<E> {
        if let Some(i) = self.find(x.key) { let o = self.e[i]; self.e[i] = x; return Some(o); }
        let mut i = self.n;
        while i > 0 && self.e[i - 1].key > x.key { self.e[i] = self.e[i - 1]; i -= 1; }
        self.e[i] = x;
        self.n += 1;
        None
    }
    fn remove(&mut self, i: usize) -> E {
        let o = self.e[i];
        let mut j = i;
        while j + 1 < self.n { self.e[j] = self.e[j + 1]; j += 1; }
        self.n -= 1;
        o
    }
}
fn leaf(x: &E) -> LeafNode {
    unsafe { std::mem::transmute(Leaf { tag: 2, owner_slot: x.slot, fee_tier: 0, pad: [0; 2], key: x.key, owner: [x.client, 1, 2, 3], qty: x.qty, client: x.client }) }
}
fn is(l: &LeafNode, x: &E) -> bool {
    l.order_id() == x.key && l.quantity() == x.qty && l.client_order_id() == x.client && l.owner_slot() == x.slot && l.owner() == [x.client, 1, 2, 3]
}
/// in-order walk of the raw nodes: number of leaves, and whether they are the reference's in order
fn walk<const N: usize>(b: &(SlabHdr, [Node; N]), r: &Ref) -> bool {
    let h = b.0;
    if h.leaves != r.n as u64 { return false; }
    let mut live = 0u64;
    let mut seen = 0;
    let mut good = true;
    if r.n > 0 {
        let mut st = [0u32; 2 * MAXN + 2];
        let mut sp = 1;
        st[0] = h.root;
        let mut fuel = 2 * MAXN + 1;
        while sp > 0 && fuel > 0 {
            fuel -= 1;
            sp -= 1;
            let at = st[sp] as usize;
            if at >= N { return false; }
            let n = b.1[at];
            live += 1;
            if n[0] == 2 {
                let l = leaf_of_node(n);
                if seen >= r.n { return false; }
                let x = r.e[seen];
                good &= { l.key } == x.key && { l.qty } == x.qty && { l.client } == x.client && l.owner_slot == x.slot;
                seen += 1;
            } else if n[0] == 1 {
                let i = inner_of_node(n);
                st[sp] = i.children[1];
                st[sp + 1] = i.children[0];
                sp += 2;
            } else { return false; }
        }
        if sp > 0 { return false; }
    }
    // every allocated node is either live or on the free list
    good && seen == r.n && live + h.free_len == h.bump && h.bump <= N as u64
}
fn run<const N: usize>(ops: usize, kind: u32, pattern: &[u8]) {
    let mut mem: (SlabHdr, [Node; N]) = (SlabHdr { bump: 0, free_len: 0, free_head: 0, root: 0, leaves: 0 }, [[0u32; 18]; N]);
    let p = &mut mem as *mut (SlabHdr, [Node; N]);
    let mut r = Ref { n: 0, e: [E { key: 0, qty: 0, client: 0, slot: 0 }; MAXN] };
    forbid_panic(true);
    let mut i = 0;
    let mut nth = 0u32;
    let mut key = || if kind == 0 || (kind >= 2 && kind < 5 && nth >= 7) { u128_() } else if kind >= 2 && kind < 5 {
        // a deep chain, a bushy tree, or both mixed, then anything
        nth += 1;
        let j = nth as u128;
        match kind { 2 => 1u128 << (16 * nth), 3 => (j * 0x9e37) % 8 << 64 | j, _ => ((j & 1) << 127) | ((j & 2) << 64) | j }
    } else if kind >= 6 && nth < kind - 3 {
        nth += 1;
        [1u128, 1 << 126, 1 << 63, (1 << 126) + 1][nth as usize - 1]
    } else {
        // all bits but a few fixed, the free ones spread over price and sequence number
        let b = if kind == 1 { u8_() } else { u8_() & 0x15 };
        ((b as u128 & 3) << 126) | (((b as u128 >> 2) & 3) << 63) | ((b as u128 >> 4) & 3)
    };
    while i < ops {
        let s = Slab::new(unsafe { std::slice::from_raw_parts_mut(p as *mut u8, 32 + 72 * N) });
        let op = if i < pattern.len() { pattern[i] } else { choose(4) };
        match op {
            0 => {
                let x = E { key: key(), qty: u64_(), client: u64_(), slot: i as u8 };
                let full = r.n > 0 && r.find(x.key).is_none() && 2 * r.n + 1 > N;
                match s.insert_leaf(&leaf(&x)) {
                    Ok((h, old)) => {
                        prop!(!full, "nothing is inserted into a full book");
                        let was = r.insert(x);
                        prop!(old.is_some() == was.is_some(), "an insertion replaces exactly an order with the same id");
                        if let (Some(l), Some(w)) = (old, was) { prop!(is(&l, &w), "the replaced order is returned"); }
                        prop!(match s.get(h).and_then(|n| n.as_leaf()) { Some(l) => is(l, &x), None => false }, "the handle names the inserted order");
                        observe(h as u64);
                        witness!(was.is_some(), "replaced");
                    }
                    Err(_) => { prop!(full, "insertion fails only when the book is full"); witness!(true, "full"); }
                }
            }
            1 => {
                let k = key();
                let got = s.remove_by_key(k);
                match r.find(k) {
                    Some(j) => { let w = r.remove(j); prop!(match got { Some(l) => is(&l, &w), None => false }, "removal by id returns that order"); witness!(true, "removed"); }
                    None => prop!(got.is_none(), "removal of an absent id finds nothing"),
                }
            }
            o => {
                let got = if o == 2 { s.remove_min() } else { s.remove_max() };
                if r.n == 0 { prop!(got.is_none(), "an empty book has no best order"); }
                else { let w = r.remove(if o == 2 { 0 } else { r.n - 1 }); prop!(match got { Some(l) => is(&l, &w), None => false }, "the best order is removed"); }
            }
        }
        let (mn, mx) = (s.find_min(), s.find_max());
        let at = |h: Option<u32>, j: usize| match h { Some(h) => match s.get(h).and_then(|n| n.as_leaf()) { Some(l) => r.n > 0 && is(l, &r.e[j]), None => false }, None => r.n == 0 };
        prop!(at(mn, 0) && at(mx, if r.n > 0 { r.n - 1 } else { 0 }), "the lowest and the highest order are found");
        prop!(s.is_empty() == (r.n == 0), "emptiness is reported");
        prop!(walk(unsafe { &*p }, &r), "the book holds exactly the orders inserted and not removed, in order");
        i += 1;
    }
    witness!(N < 5 || r.n >= 3, "three orders");
}
const I: u8 = 0;
const R: u8 = 1;
harnesses! {
    fn slab_ops3() { run::<7>(3, 0, &[I]) }
    fn slab_ops4() { run::<7>(4, 0, &[I]) }
    fn slab_ops5() { run::<7>(5, 0, &[I]) }
    fn slab_ops4_small() { run::<3>(4, 0, &[I]) }
    fn slab_even() { run::<4>(6, 1, &[I, I, I, R, I, I]) }
    fn slab_ops5_bits() { run::<7>(5, 1, &[I]) }
    fn slab_ops6_bits() { run::<5>(6, 1, &[I]) }
    fn slab_churn() { run::<5>(7, 6, &[I, I, I, R, R, I, I]) }
    fn slab_churn_long() { run::<7>(10, 7, &[I, I, I, I, R, R, R, I, I, I]) }
    fn slab_chain() { run::<17>(9, 2, &[I, I, I, I, I, I, I, R]) }
    fn slab_bush() { run::<17>(9, 3, &[I, I, I, I, I, I, I, R]) }
    fn slab_mixed() { run::<17>(10, 4, &[I, I, I, I, I, I, I, R, I]) }
}

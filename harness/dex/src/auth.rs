//! Account substitution: every instruction refuses every account list in which one account is not the genuine one.
use crate::book::*;
use crate::history::L;
use crate::orders::*;
use crate::rt::*;
use crate::take::take_data;
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub const DISABLE_AUTH: Pubkey = Pubkey::new_from_array(include!("disable.in"));
pub const SWEEPER: Pubkey = Pubkey::new_from_array(include!("sweeper.in"));

/// What makes an account genuine.
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    /// dex account, recognised by owner program, padding and flags; the payload says whether a disabled market is allowed
    Market(bool),
    /// dex account of this market and of the signer (payload: whether an uninitialised one is initialised on the fly)
    Oo(bool),
    /// dex account of this market, not tied to a signer
    OoAny,
    /// dex account recorded in the market
    Own,
    /// token account recorded in the market
    Vault,
    /// any token account of the right mint
    Wallet,
    /// token account owned by the signer
    Discount,
    /// must sign and be the recorded key
    Signer,
    /// must be the recorded key
    Key,
    /// not looked at
    Any,
}
use K::*;

pub fn other_key(k: Pubkey) -> Pubkey {
    let n = key4();
    assume(n != to4(&k));
    Pubkey::new_from_array(unsafe { std::mem::transmute(n) })
}
#[derive(Clone)]
pub struct X { pub l: L, pub srm: Tok, pub rf: Tok }
/// a market with resting orders of both traders, a pending event and funds everywhere
pub fn scene(v2: bool, crank: bool, sym: bool) -> X {
    let mut l = L::new();
    let mut m = l.m.get();
    m.coin_deposits_total = 1 << 50;
    m.pc_deposits_total = 1 << 50;
    m.pc_fees_accrued = 1000;
    m.referrer_rebates_accrued = 1000;
    l.cv.amount = 1 << 51;
    l.pv.amount = 1 << 51;
    let mut bids = Orders::new(BID);
    let mut asks = Orders::new(ASK);
    bids.add(Rest { price: 30, seq: 11, owner: OO, slot: 1, qty: 4, client: 101, tier: 0 });
    asks.add(Rest { price: 60, seq: 13, owner: OO2, slot: 1, qty: 5, client: 201, tier: 0 });
    bids.write(&mut l.bids);
    asks.write(&mut l.asks);
    let mut o = open_orders(OWNER);
    o.orders[1] = order_id(BID, 30, 11);
    o.client_order_ids[1] = 101;
    o.orders[2] = order_id(ASK, 70, 12);
    o.is_bid_bits = 2;
    o.free_slot_bits = !6;
    o.native_pc_free = 50;
    o.native_pc_total = 50 + 4 * 30 * 7;
    o.native_coin_free = 50;
    o.native_coin_total = 50 + 9;
    o.referrer_rebates_accrued = 10;
    if sym {
        // a refusal may not depend on any balance
        sym_oo_balances(&mut o);
        o.referrer_rebates_accrued = u64_();
        m.coin_deposits_total = u64_();
        m.pc_deposits_total = u64_();
        m.pc_fees_accrued = u64_();
        m.referrer_rebates_accrued = u64_();
        l.rq.v.h.seq = bits(62);
        l.cw[0].amount = u64_();
        l.pw[0].amount = u64_();
    }
    l.oo[0].v = o;
    // the order in slot 2 has just been dropped from the book
    l.eq.v.e[0] = out_ev(ASK, true, 9, 0, order_id(ASK, 70, 12), k4(OO), 2, 0);
    l.eq.v.h.count = 1;
    l.m = if v2 { MAcc::v2(m) } else { MAcc::v1(m) };
    if crank { let mut m = l.m.get(); m.account_flags |= F_CRANK; l.m.set(m); }
    let mut srm = tok(1, [OWNER; 32], 5);
    srm.mint = SRM_MINT;
    X { l, srm, rf: tok(PC_MINT, [STRANGER; 32], 0) }
}
/// the genuine account list of an instruction, what makes each account genuine, and the instruction data
pub fn list(x: &mut X, ix: u8, rent: &mut [u8; 17], sym: bool) -> (Vec<A>, Vec<K>, Vec<u8>) {
    let l = &mut x.l;
    let h = |d: u8| vec![0u8, d, 0, 0, 0];
    match ix {
        0 | 1 | 14 | 15 => {
            let mut t = taker(if ix == 1 { BID } else { ASK }, LIMIT, if ix == 1 { 20 } else { 90 }, 1, 1000);
            t.client = 101;
            if sym {
                t.qty = bits(20);
                t.pc = bits(40);
                t.otype = [LIMIT, IOC, POST][choose(3) as usize];
                t.stb = choose(3);
                t.limit = u16_();
                t.client = u64_();
            }
            let mut d = match ix { 14 => h(19), 15 => h(20), _ => h(10) };
            if ix == 15 { d.extend_from_slice(&1u64.to_le_bytes()); }
            d.extend_from_slice(&new_order_data(&t, i64::MAX)[5..]);
            let a = vec![l.m.acc(), A::dex(OO, l.oo[0].bytes()), A::dex(REQ_Q, l.rq.bytes()), A::dex(EVENT_Q, l.eq.bytes()), A::dex(BIDS, l.bids.bytes()), A::dex(ASKS, l.asks.bytes()),
                if ix == 1 { A::tok(PC_WALLET, &mut l.pw[0]) } else { A::tok(COIN_WALLET, &mut l.cw[0]) }, A::bare(pk(OWNER)).sign(true), A::tok(COIN_VAULT, &mut l.cv),
                A::tok(PC_VAULT, &mut l.pv), A::bare(spl_token::ID), rent_acc(rent), A::tok(SRM_WALLET, &mut x.srm)];
            (a, vec![Market(false), Oo(true), Own, Own, Own, Own, Wallet, Signer, Vault, Vault, Key, Any, Discount], d)
        }
        2 => {
            let mut t = taker(BID, IOC, 60, 2, 2000);
            t.send_take = true;
            if sym { t.qty = bits(20); t.pc = bits(40); }
            let a = vec![l.m.acc(), A::dex(REQ_Q, l.rq.bytes()), A::dex(EVENT_Q, l.eq.bytes()), A::dex(BIDS, l.bids.bytes()), A::dex(ASKS, l.asks.bytes()),
                A::tok(COIN_WALLET, &mut l.cw[0]), A::tok(PC_WALLET, &mut l.pw[0]), A::bare(pk(OWNER)).sign(true), A::tok(COIN_VAULT, &mut l.cv),
                A::tok(PC_VAULT, &mut l.pv), A::bare(spl_token::ID), A::bare(VSIGNER), A::tok(SRM_WALLET, &mut x.srm)];
            (a, vec![Market(false), Own, Own, Own, Own, Wallet, Wallet, Signer, Vault, Vault, Key, Key, Discount], take_data(&t, 0, 0).to_vec())
        }
        3 | 4 | 5 => {
            let mut d = h([11, 12, 18][ix as usize - 3]);
            if ix == 3 { d.extend_from_slice(&[BID, 0, 0, 0]); d.extend_from_slice(&(if sym { u128_() } else { order_id(BID, 30, 11) }).to_le_bytes()); }
            else { d.extend_from_slice(&(if sym { u64_() } else { 101 }).to_le_bytes()); }
            let a = vec![l.m.acc(), A::dex(BIDS, l.bids.bytes()), A::dex(ASKS, l.asks.bytes()), A::dex(OO, l.oo[0].bytes()), A::bare(pk(OWNER)).sign(true), A::dex(EVENT_Q, l.eq.bytes())];
            (a, vec![Market(true), Own, Own, Oo(false), Signer, Own], d)
        }
        6 => {
            let a = vec![l.m.acc(), A::dex(OO, l.oo[0].bytes()), A::bare(pk(OWNER)).sign(true), A::tok(COIN_VAULT, &mut l.cv), A::tok(PC_VAULT, &mut l.pv),
                A::tok(COIN_WALLET, &mut l.cw[0]), A::tok(PC_WALLET, &mut l.pw[0]), A::bare(VSIGNER), A::bare(spl_token::ID), A::tok(REFERRER, &mut x.rf)];
            (a, vec![Market(true), Oo(false), Signer, Vault, Vault, Wallet, Wallet, Key, Key, Wallet], h(5))
        }
        7 => {
            let a = vec![A::dex(OO, l.oo[0].bytes()), l.m.acc(), A::dex(EVENT_Q, l.eq.bytes()), A::bare(pk(STRANGER)), A::bare(pk(STRANGER))];
            (a, vec![OoAny, Market(true), Own, Any, Any], vec![0, 3, 0, 0, 0, 5, 0])
        }
        8 => {
            let a = vec![A::dex(OO, l.oo[0].bytes()), l.m.acc(), A::dex(EVENT_Q, l.eq.bytes()), A::bare(pk(CRANK_AUTH)).sign(true)];
            (a, vec![OoAny, Market(true), Own, Signer], vec![0, 17, 0, 0, 0, 5, 0])
        }
        9 => (vec![l.m.acc(), A::bare(DISABLE_AUTH).sign(true)], vec![Market(false), Signer], h(7)),
        10 => {
            let a = vec![l.m.acc(), A::tok(PC_VAULT, &mut l.pv), A::bare(SWEEPER).sign(true), A::tok(PC_WALLET, &mut x.rf), A::bare(VSIGNER), A::bare(spl_token::ID)];
            (a, vec![Market(false), Vault, Signer, Wallet, Key, Key], h(8))
        }
        11 => {
            l.oo[1].v = open_orders(OWNER2);
            (vec![A::dex(OO2, l.oo[1].bytes()), A::bare(pk(OWNER2)).sign(true), A::bare(pk(DEST)), l.m.acc()], vec![Oo(false), Signer, Any, Market(true)], h(14))
        }
        12 => {
            // re-initialising an existing account is a no-op, with or without the authority
            (vec![A::dex(OO, l.oo[0].bytes()), A::bare(pk(OWNER)).sign(true), l.m.acc(), rent_acc(rent)], vec![Oo(true), Signer, Market(false), Any], h(15))
        }
        _ => {
            let a = vec![l.m.acc(), A::dex(BIDS, l.bids.bytes()), A::dex(ASKS, l.asks.bytes()), A::bare(pk(PRUNE_AUTH)).sign(true), A::dex(OO, l.oo[0].bytes()), A::bare(pk(OWNER)),
                A::dex(EVENT_Q, l.eq.bytes())];
            (a, vec![Market(false), Own, Own, Signer, Oo(false), Key, Own], vec![0, 16, 0, 0, 0, 50, 0])
        }
    }
}
fn data(a: &mut A) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(a.data, a.len) } }
fn word(a: &A, off: usize) -> u64 { let d = unsafe { std::slice::from_raw_parts(a.data.add(off), 8) }; u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]) }
fn set_key(a: &mut A, off: usize) {
    let k = key4();
    assume(k != [word(a, off), word(a, off + 8), word(a, off + 16), word(a, off + 24)]);
    let mut i = 0;
    while i < 4 { data(a)[off + 8 * i..off + 8 * i + 8].copy_from_slice(&k[i].to_le_bytes()); i += 1; }
}
/// makes the account not genuine in one of the ways its kind allows; false if there is no `how`-th way
fn spoil(a: &mut A, k: K, how: u8) -> bool {
    let other_program = |a: &mut A| { a.owner = other_key(a.owner); };
    let padding = |a: &mut A| {
        // any other bytes around the data
        let (h, t) = (u64_(), u64_());
        let n = a.len;
        let mut same = true;
        let mut i = 0;
        while i < 5 { let b = (h >> (8 * i)) as u8; same &= b == HEAD[i]; data(a)[i] = b; i += 1; }
        let mut i = 0;
        while i < 7 { let b = (t >> (8 * i)) as u8; same &= b == TAIL[i]; data(a)[n - 7 + i] = b; i += 1; }
        assume(!same);
    };
    let flags = |a: &mut A, zero_ok: bool| {
        let f0 = word(a, 5);
        let f = u64_();
        assume(f != f0 && !(zero_ok && f == 0));
        data(a)[5..13].copy_from_slice(&f.to_le_bytes());
    };
    match k {
        Market(d) => match how {
            0 => other_program(a),
            1 => padding(a),
            // a permissioned market may require a crank authority or not
            2 => {
                let base = if a.len > 400 { F_INIT | F_MARKET | F_PERM } else { F_INIT | F_MARKET };
                let f = u64_();
                let crank = if a.len > 400 { F_CRANK } else { 0 };
                assume(f & !(crank | F_DISABLED) != base);
                data(a)[5..13].copy_from_slice(&f.to_le_bytes());
            }
            3 if !d => { let f = word(a, 5) | F_DISABLED; data(a)[5..13].copy_from_slice(&f.to_le_bytes()); }
            _ => return false,
        },
        Oo(init) => match how {
            0 => other_program(a),
            1 => flags(a, init),
            2 => set_key(a, 13),
            3 => set_key(a, 45),
            _ => return false,
        },
        OoAny => match how {
            0 => other_program(a),
            1 => flags(a, false),
            2 => set_key(a, 13),
            _ => return false,
        },
        Own => match how {
            0 => a.key = other_key(a.key),
            1 => padding(a),
            2 => flags(a, false),
            _ => return false,
        },
        Vault => match how {
            0 => a.key = other_key(a.key),
            1 => other_program(a),
            2 => { let s = u8_(); assume(s != 1); data(a)[108] = s; }
            3 => resize(a),
            _ => return false,
        },
        Wallet => match how {
            0 => set_key(a, 0),
            1 => other_program(a),
            2 => { let s = u8_(); assume(s != 1); data(a)[108] = s; }
            3 => resize(a),
            _ => return false,
        },
        Discount => match how {
            0 => set_key(a, 32),
            1 => other_program(a),
            2 => { let s = u8_(); assume(s != 1); data(a)[108] = s; }
            3 => resize(a),
            _ => return false,
        },
        Signer => match how {
            0 => a.signer = false,
            1 => a.key = other_key(a.key),
            _ => return false,
        },
        Key => match how {
            0 => a.key = other_key(a.key),
            _ => return false,
        },
        Any => return false,
    }
    true
}
/// the same bytes in an account of another size: not a token account
fn resize(a: &mut A) {
    let n = [109usize, 164, 166, 355][choose(4) as usize];
    let mut v = vec![1u8; n];
    let c = if n < a.len { n } else { a.len };
    v[..c].copy_from_slice(&data(a)[..c]);
    a.data = v.as_mut_ptr();
    a.len = n;
    std::mem::forget(v);
}
fn run(ix: u8) {
    let v2 = ix == 8 || ix == 13 || choose(2) == 1;
    let how = choose(5);
    let mut x = scene(v2, ix == 8, how < 4);
    let mut rent = solana_rent();
    let (mut a, k, d) = list(&mut x, ix, &mut rent, how < 4);
    if how == 4 {
        if choose(2) == 0 {
            let ok = call_due(true, &mut a, &d);
            observe(ok as u64);
            prop!(ok, "the genuine account list is accepted");
            witness!(ok, "accepted");
        } else if ix != 7 && ix != 8 && k[a.len() - 1] != Discount && ix != 6 {
            let n = a.len() - 1;
            let ok = call(&mut a[..n], &d);
            observe(ok as u64);
            prop!(!ok, "an incomplete account list is refused");
        }
        return;
    }
    let slot = choose(a.len() as u8) as usize;
    if !spoil(&mut a[slot], k[slot], how) { return; }
    // perhaps a second thing is wrong as well, with the same account or with another
    let how2 = choose(5);
    if how2 < 4 {
        let slot2 = choose(a.len() as u8) as usize;
        // (another owner with an account of its own is genuine)
        let owner = |s: usize, h: u8| match (k[s], h) { (Oo(_), 3) | (Signer, 1) => true, (Discount, 0) => ix == 2, (Key, 0) => ix == 13, _ => false };
        if (slot2, how2) <= (slot, how) || owner(slot, how) && owner(slot2, how2) || !spoil(&mut a[slot2], k[slot2], how2) { return; }
    }
    let ok = call(&mut a, &d);
    observe(ok as u64);
    prop!(!ok, "an account list with a substituted account is refused");
    witness!(slot == 0 && how == 0, "substituted");
}
harnesses! {
    fn auth_new_order() { run([0, 1][choose(2) as usize]) }
    fn auth_send_take() { run(2) }
    fn auth_cancel() { run(3 + choose(3)) }
    fn auth_settle() { run(6) }
    fn auth_consume() { run(7 + choose(2)) }
    fn auth_disable_sweep() { run(9 + choose(2)) }
    fn auth_close_init() { run(11 + choose(2)) }
    fn auth_prune() { run(13) }
    fn auth_replace() { run(14 + choose(2)) }
}

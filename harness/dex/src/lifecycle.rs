//! Birth and death of open-orders accounts, and creation of markets.
use crate::auth::other_key;
use crate::book::*;
use crate::orders::*;
use crate::rt::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

const OO_LEN: usize = std::mem::size_of::<Acc<Oo>>();
fn sym_pubkey() -> ([u64; 4], Pubkey) { let k = key4(); (k, Pubkey::new_from_array(unsafe { std::mem::transmute(k) })) }

/// a new account becomes the signer's, empty, exactly when everything required is there
fn init() {
    let v2 = choose(2) == 1;
    let (mut m, (own4, own)) = (if v2 { MAcc::v2(market()) } else { MAcc::v1(market()) }, sym_pubkey());
    // the address recorded in the market is what ties accounts to it
    let mk = key4();
    let mut mm = m.get();
    mm.own_address = mk;
    m.set(mm);
    let mut oo = Acc::new(OO0);
    oo.head = [0; 5];
    oo.tail = [0; 7];
    oo.v.native_coin_free = u64_();
    oo.v.native_coin_total = u64_();
    oo.v.native_pc_free = u64_();
    oo.v.native_pc_total = u64_();
    oo.v.free_slot_bits = u128_();
    let lamports = u64_();
    let signed = bool_();
    let program = choose(2) == 0;
    let extra = choose(3);
    let auth_signed = bool_();
    let (ak, auth) = if extra == 2 { (k4(OO_AUTH), pk(OO_AUTH)) } else { sym_pubkey() };
    let mut rent = solana_rent();
    let b0 = oo;
    let m0 = m.get();
    let mut a = vec![A::dex(OO, oo.bytes()).lamports(lamports), A::bare(own).sign(signed), m.acc(), rent_acc(&mut rent)];
    if !program { a[0].owner = other_key(pk(PROGRAM)); }
    if extra > 0 { a.push(A::bare(auth).sign(auth_signed)); }
    let allowed = if v2 { extra > 0 && auth_signed && ak == k4(OO_AUTH) } else { extra == 0 };
    let expect = program && signed && allowed && lamports >= min_balance(OO_LEN);
    let ok = call_due(expect, &mut a, &[0, 15, 0, 0, 0]);
    let lam1 = a[0].lamports;
    observe(ok as u64);
    obs_oo(&oo.v);
    prop!(ok == expect, "an account is initialised exactly when its owner signs, it is rent exempt and the market's authority agrees");
    prop!(same(&m.get(), &m0), "initialising an account leaves the market unchanged");
    if ok {
        let mut e = b0;
        e.head = HEAD;
        e.tail = TAIL;
        e.v.account_flags = F_INIT | F_OO;
        e.v.market = mk;
        e.v.owner = own4;
        e.v.native_coin_free = 0;
        e.v.native_coin_total = 0;
        e.v.native_pc_free = 0;
        e.v.native_pc_total = 0;
        e.v.free_slot_bits = u128::MAX;
        prop!(same(&oo, &e), "a new account belongs to its signer and its market, and is empty");
        prop!(lam1 == lamports, "initialising costs nothing");
    }
    witness!(ok && v2, "initialised on a permissioned market");
    witness!(ok && !v2, "initialised");
}
/// an order may be the first thing a trader does on an open market
fn init_by_order() {
    let v2 = choose(2) == 1;
    let mut m = if v2 { MAcc::v2(market()) } else { MAcc::v1(market()) };
    let (own4, own) = sym_pubkey();
    // not one of the other accounts of the instruction
    assume(own4[0] != own4[1] && own4 != to4(&spl_token::ID) && own4 != to4(&VSIGNER));
    let mut oo = Acc::new(OO0);
    oo.head = [0; 5];
    oo.tail = [0; 7];
    oo.v.native_coin_free = u64_();
    oo.v.native_coin_total = u64_();
    oo.v.native_pc_free = u64_();
    oo.v.native_pc_total = u64_();
    oo.v.free_slot_bits = u128_();
    let (lamports, signed) = (u64_(), bool_());
    let (mut cv, mut pv) = (tok(COIN_MINT, VSIGNER_BYTES, 1 << 40), tok(PC_MINT, VSIGNER_BYTES, 1 << 40));
    let mut cw = tok(COIN_MINT, unsafe { std::mem::transmute(own4) }, 1 << 40);
    let mut rent = solana_rent();
    let (mut rq, mut eq, mut bids, mut asks) = (reqq(), evq::<2>(), book::<3>(F_BIDS), book::<3>(F_ASKS));
    let t = taker(ASK, LIMIT, 5, 1 + bits(20), 1);
    let mut a = vec![m.acc(), A::dex(OO, oo.bytes()).lamports(lamports), A::dex(REQ_Q, rq.bytes()), A::dex(EVENT_Q, eq.bytes()), A::dex(BIDS, bids.bytes()), A::dex(ASKS, asks.bytes()), A::tok(COIN_WALLET, &mut cw),
        A::bare(own).sign(signed), A::tok(COIN_VAULT, &mut cv), A::tok(PC_VAULT, &mut pv), A::bare(spl_token::ID), rent_acc(&mut rent)];
    let expect = !v2 && signed && lamports >= min_balance(OO_LEN);
    let ok = call_due(expect, &mut a, &new_order_data(&t, i64::MAX));
    observe(ok as u64);
    obs_oo(&oo.v);
    prop!(ok == expect, "an order opens a rent-exempt account of its signer, but only on a market without an authority");
    if ok {
        let o = oo.v;
        prop!(o.account_flags == F_INIT | F_OO && { o.market } == k4(MARKET) && { o.owner } == own4, "the account belongs to the signer");
        prop!(o.native_coin_free == 0 && o.native_coin_total == t.qty && o.native_pc_free == 0 && o.native_pc_total == 0, "the account holds just the order's funds");
        prop!(o.free_slot_bits.count_ones() == 127 && o.referrer_rebates_accrued == 0, "the account holds just the order");
    }
    witness!(ok, "opened");
}
/// what already exists is not touched
fn reinit() {
    let v2 = choose(2) == 1;
    let mut m = if v2 { MAcc::v2(market()) } else { MAcc::v1(market()) };
    let (own4, own) = sym_pubkey();
    let mut o = open_orders(OWNER);
    o.account_flags = u64_();
    assume(o.account_flags != 0);
    o.market = key4();
    o.owner = key4();
    sym_oo_balances(&mut o);
    o.free_slot_bits = u128_();
    o.is_bid_bits = u128_();
    o.referrer_rebates_accrued = u64_();
    let b = choose(OO_SAMPLE) as usize;
    o.orders[b] = u128_();
    o.client_order_ids[b] = u64_();
    let mut oo = Acc::new(o);
    let b0 = oo;
    let mut rent = solana_rent();
    let mut a = vec![A::dex(OO, oo.bytes()).lamports(u64_()), A::bare(own).sign(true), m.acc(), rent_acc(&mut rent)];
    let extra = choose(2) == 1;
    if extra { a.push(A::bare(pk(OO_AUTH)).sign(true)); }
    let expect = b0.v.account_flags == F_INIT | F_OO && { b0.v.market } == k4(MARKET) && { b0.v.owner } == own4;
    let ok = call_due(expect, &mut a, &[0, 15, 0, 0, 0]);
    observe(ok as u64);
    prop!(ok == expect, "only an account of this owner and market can be presented for initialisation again");
    if ok { prop!(same(&oo, &b0), "initialising again changes nothing"); }
    witness!(ok, "presented again");
}
const OO_SAMPLE: u8 = 3;
/// an account is closed only when empty, and all its rent goes to the destination
fn close() {
    let v2 = choose(2) == 1;
    let mut mm = market();
    if choose(2) == 1 { mm.account_flags |= F_DISABLED; }
    let mut m = if v2 { MAcc::v2(mm) } else { MAcc::v1(mm) };
    let m0 = m.get();
    let mut o = open_orders(OWNER);
    o.owner = key4();
    o.market = key4();
    o.account_flags = u64_();
    sym_oo_balances(&mut o);
    o.free_slot_bits = u128_();
    o.is_bid_bits = u128_();
    o.orders[1] = u128_();
    let mut oo = Acc::new(o);
    let b0 = oo;
    let (own4, own) = sym_pubkey();
    let signed = bool_();
    let (l0, d0) = (u64_(), u64_());
    let program = choose(2) == 0;
    let mut a = vec![A::dex(OO, oo.bytes()).lamports(l0), A::bare(own).sign(signed), A::bare(pk(DEST)).lamports(d0), m.acc()];
    if !program { a[0].owner = other_key(pk(PROGRAM)); }
    let (n1, n3) = (a[1].lamports, a[3].lamports);
    let empty = o.free_slot_bits == u128::MAX && o.native_coin_total == 0 && o.native_pc_total == 0;
    let mine = o.account_flags == F_INIT | F_OO && { o.market } == k4(MARKET) && { o.owner } == own4;
    let fits = d0.checked_add(l0).is_some();
    let ok = call_due(empty && mine && signed && program && fits, &mut a, &[0, 14, 0, 0, 0]);
    let (l1, d1, n1b, n3b) = (a[0].lamports, a[2].lamports, a[1].lamports, a[3].lamports);
    observe(ok as u64);
    obs_oo(&oo.v);
    if ok {
        prop!(empty, "an account with open orders or funds is never closed");
        prop!(mine && signed && program, "only its owner closes an account");
        prop!(l1 == 0 && d1 == d0.wrapping_add(l0) && fits, "closing moves all lamports to the destination");
        prop!(n1 == n1b && n3 == n3b && same(&m.get(), &m0), "closing touches nobody else");
        let mut e = b0;
        e.v.account_flags = F_CLOSED;
        prop!(same(&oo, &e), "closing marks the account as closed");
    } else {
        prop!(!(empty && mine && signed && program && fits), "the owner of an empty account can close it, also on a disabled market");
    }
    witness!(ok, "closed");
}
/// nothing accepts a closed account
fn closed_is_dead() {
    let v2 = choose(2) == 1;
    let mut o = open_orders(OWNER);
    // the garbage collector has not come by yet
    o.account_flags = F_CLOSED;
    let m = market();
    let mut m = if v2 { MAcc::v2(m) } else { MAcc::v1(m) };
    let mut oo = Acc::new(o);
    let (mut cv, mut pv) = (tok(COIN_MINT, VSIGNER_BYTES, 1 << 40), tok(PC_MINT, VSIGNER_BYTES, 1 << 40));
    let (mut cw, mut pw) = (tok(COIN_MINT, [OWNER; 32], 1 << 40), tok(PC_MINT, [OWNER; 32], 1 << 40));
    let mut rent = solana_rent();
    let (mut rq, mut eq, mut bids, mut asks) = (reqq(), evq::<2>(), book::<3>(F_BIDS), book::<3>(F_ASKS));
    let op = choose(6);
    let mut o1 = A::dex(OO, oo.bytes());
    if choose(2) == 0 { o1.lamports = 0; }
    let own = || A::bare(pk(OWNER)).sign(true);
    let (mut a, d): (Vec<A>, Vec<u8>) = match op {
        0 => {
            let t = taker(ASK, LIMIT, 5, 3, 1);
            (vec![m.acc(), o1, A::dex(REQ_Q, rq.bytes()), A::dex(EVENT_Q, eq.bytes()), A::dex(BIDS, bids.bytes()), A::dex(ASKS, asks.bytes()), A::tok(COIN_WALLET, &mut cw), own(),
                A::tok(COIN_VAULT, &mut cv), A::tok(PC_VAULT, &mut pv), A::bare(spl_token::ID), rent_acc(&mut rent)], new_order_data(&t, i64::MAX).to_vec())
        }
        1 => (vec![o1, own(), m.acc(), rent_acc(&mut rent)], vec![0, 15, 0, 0, 0]),
        2 => (vec![o1, own(), m.acc(), rent_acc(&mut rent), A::bare(pk(OO_AUTH)).sign(true)], vec![0, 15, 0, 0, 0]),
        3 => (vec![o1, own(), A::bare(pk(DEST)), m.acc()], vec![0, 14, 0, 0, 0]),
        4 => (vec![m.acc(), o1, own(), A::tok(COIN_VAULT, &mut cv), A::tok(PC_VAULT, &mut pv), A::tok(COIN_WALLET, &mut cw), A::tok(PC_WALLET, &mut pw), A::bare(VSIGNER), A::bare(spl_token::ID)], vec![0, 5, 0, 0, 0]),
        _ => (vec![m.acc(), A::dex(BIDS, bids.bytes()), A::dex(ASKS, asks.bytes()), o1, own(), A::dex(EVENT_Q, eq.bytes())], vec![0, 12, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0]),
    };
    let ok = call(&mut a, &d);
    observe(ok as u64);
    prop!(!ok, "a closed account is accepted by no instruction");
    witness!(op == 5, "tried");
}

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Mint { pub auth_tag: u32, pub auth: [u8; 32], pub supply: u64, pub decimals: u8, pub init: u8, pub rest: [u8; 36] }
fn mint() -> Mint { Mint { auth_tag: 0, auth: [0; 32], supply: 1 << 40, decimals: 6, init: 1, rest: [0; 36] } }

/// room for 100 orders and the nodes joining them
const BOOKLEN: usize = 12 + 8 + 32 + 72 * 201;
/// Everything InitializeMarket looks at. `spoil` selects the part that is symbolic.
fn create(part: u8) {
    let nauth = choose(4) as usize;
    let v2 = nauth > 0;
    let nonce = if part == 6 { choose(5) as u64 } else { NONCE };
    let mlen = if part == 5 { [380usize, 388, 396, 1468, 1476, 1484, 384, 389][choose(8) as usize] } else if v2 { 1476 } else { 388 };
    let rqlen = if part == 5 { 12 + 32 + [72, 80, 88, 84, 160][choose(5) as usize] } else { 12 + 32 + 80 };
    let eqlen = if part == 5 { 12 + 32 + 88 * 128 - 8 + [8, 0, 9, 96][choose(4) as usize] } else { 12 + 32 + 88 * 128 };
    let bidlen = if part == 5 { [BOOKLEN, 12 + 8 + 32 + 72 * 199 - 8][choose(2) as usize] } else { BOOKLEN };
    let asklen = if part == 5 { [BOOKLEN, 12 + 8 + 32 + 72 * 199 - 8][choose(2) as usize] } else { BOOKLEN };
    let lens = [mlen, rqlen, eqlen, bidlen, asklen];
    let mut bufs: Vec<Vec<u8>> = lens.iter().map(|n| vec![0u8; *n]).collect();
    let mut expect = mlen == if v2 { 1476 } else { 388 };
    // whole words between the paddings
    expect &= rqlen % 8 == 4 && eqlen % 8 == 4;
    expect &= rqlen >= 12 + 32 + 80 && eqlen >= 12 + 32 + 88 * 128 && bidlen >= BOOKLEN && asklen >= BOOKLEN;
    let vs = match Pubkey::create_program_address(&[pk(MARKET).as_ref(), &nonce.to_le_bytes()], &pk(PROGRAM)) {
        Ok(k) => k.to_bytes(),
        Err(_) => { expect = false; VSIGNER_BYTES }
    };
    let (mut cv, mut pv) = (tok(COIN_MINT, vs, 0), tok(PC_MINT, vs, 0));
    if part == 6 && choose(2) == 1 { cv.owner = VSIGNER_BYTES; expect &= vs == VSIGNER_BYTES; }
    let (mut cm, mut pm) = (mint(), mint());
    let mut rent = solana_rent();
    let (coin_lot, pc_lot, fee, dust) = (u64_(), u64_(), u16_(), u64_());
    if part == 1 {
        // an account that already carries data
        let i = choose(5) as usize;
        let (h, f, t) = (u64_(), u64_(), u64_());
        let n = lens[i];
        let mut z = true;
        let mut j = 0;
        while j < 8 {
            if j < 5 { bufs[i][j] = (h >> (8 * j)) as u8; z &= bufs[i][j] == 0; }
            bufs[i][5 + j] = (f >> (8 * j)) as u8;
            z &= bufs[i][5 + j] == 0;
            if j < 7 { bufs[i][n - 7 + j] = (t >> (8 * j)) as u8; z &= bufs[i][n - 7 + j] == 0; }
            j += 1;
        }
        expect &= z;
    }
    if part == 3 || part == 4 {
        let (t, mk) = if part == 3 { (&mut cv, COIN_MINT) } else { (&mut pv, PC_MINT) };
        // anything at all in the vault
        t.owner = unsafe { std::mem::transmute(key4()) };
        t.mint = unsafe { std::mem::transmute(key4()) };
        t.delegate_tag = u32_();
        t.close_tag = u32_();
        t.state = u8_();
        t.amount = u64_();
        t.delegated = u64_();
        t.native_tag = u32_();
        t.delegate = [u8_(); 32];
        t.close = [u8_(); 32];
        expect &= { t.owner } == VSIGNER_BYTES && { t.mint } == [mk; 32] && t.delegate_tag == 0 && t.close_tag == 0 && t.state == 1;
    }
    let mlens = if part == 7 { [[82usize, 82], [81, 82], [83, 82], [355, 82], [82, 81], [82, 165]][choose(6) as usize] } else { [82; 2] };
    expect &= mlens == [82; 2];
    if part == 7 && expect { let b = if choose(2) == 1 { &mut cm } else { &mut pm }; b.init = u8_(); expect &= b.init == 1; }
    let mut p: Vec<*mut u8> = vec![];
    for b in bufs.iter_mut() { p.push(b.as_mut_ptr()); }
    let ids = [MARKET, REQ_Q, EVENT_Q, BIDS, ASKS];
    let mut a: Vec<A> = vec![];
    let mut i = 0;
    while i < 5 { a.push(A::dex(ids[i], unsafe { std::slice::from_raw_parts_mut(p[i], lens[i]) })); i += 1; }
    a.push(A::tok(COIN_VAULT, &mut cv));
    a.push(A::tok(PC_VAULT, &mut pv));
    let mut mbuf = [[0u8; 355]; 2];
    mbuf[0][..82].copy_from_slice(raw_mut(&mut cm));
    mbuf[1][..82].copy_from_slice(raw_mut(&mut pm));
    let mb = &mut mbuf as *mut [[u8; 355]; 2];
    a.push(A::new(pk(COIN_MINT), unsafe { &mut (&mut (*mb)[0])[..mlens[0]] }, spl_token::ID));
    a.push(A::new(pk(PC_MINT), unsafe { &mut (&mut (*mb)[1])[..mlens[1]] }, spl_token::ID));
    a.push(rent_acc(&mut rent));
    let auths = [key4(), key4(), key4()];
    let mut i = 0;
    while i < nauth { a.push(A::bare(Pubkey::new_from_array(unsafe { std::mem::transmute(auths[i]) }))); i += 1; }
    if part == 2 {
        if choose(2) == 1 {
            let i = choose(9) as usize;
            a[i].lamports = u64_();
            expect &= a[i].lamports >= min_balance(a[i].len);
        } else {
            let i = choose(9) as usize;
            a[i].owner = other_key(a[i].owner);
            expect = false;
        }
    }
    if part == 8 { let k = choose(2); if k == 0 { a.pop(); expect &= nauth > 0; } else { a.push(A::bare(pk(STRANGER))); expect &= nauth < 3; } }
    let nauth = if part == 8 { a.len() - 10.min(a.len()) } else { nauth };
    let mut d = vec![0u8, 0, 0, 0, 0];
    d.extend_from_slice(&coin_lot.to_le_bytes());
    d.extend_from_slice(&pc_lot.to_le_bytes());
    d.extend_from_slice(&fee.to_le_bytes());
    d.extend_from_slice(&nonce.to_le_bytes());
    d.extend_from_slice(&dust.to_le_bytes());
    if part == 8 { // the number of authorities changed what the market account must look like
        expect &= (nauth > 0) == v2;
    }
    let mut auths = auths;
    if part == 8 && nauth >= 1 && nauth <= 3 { let t = to4(&a[9 + nauth].key); auths[nauth - 1] = t; }
    let ok = call_due(expect, &mut a, &d);
    observe(ok as u64);
    prop!(ok == expect, "a market is created exactly from fresh accounts of sufficient size and vaults only the market controls");
    if !ok { return; }
    let b = |i: usize| unsafe { std::slice::from_raw_parts(p[i], lens[i]) };
    let mut e = MKT0;
    e.account_flags = F_INIT | F_MARKET | if v2 { F_PERM } else { 0 } | if nauth == 3 { F_CRANK } else { 0 };
    e.own_address = k4(MARKET);
    e.vault_signer_nonce = nonce;
    e.coin_mint = k4(COIN_MINT);
    e.pc_mint = k4(PC_MINT);
    e.coin_vault = k4(COIN_VAULT);
    e.pc_vault = k4(PC_VAULT);
    e.pc_dust_threshold = dust;
    e.req_q = k4(REQ_Q);
    e.event_q = k4(EVENT_Q);
    e.bids = k4(BIDS);
    e.asks = k4(ASKS);
    e.coin_lot_size = coin_lot;
    e.pc_lot_size = pc_lot;
    e.fee_rate_bps = fee as u64;
    let n = std::mem::size_of::<Mkt>();
    prop!(b(0)[5..5 + n] == *raw(&e), "the market records exactly the accounts, lot sizes and parameters it was created with, and owes nothing");
    prop!(b(0)[..5] == HEAD && b(0)[mlen - 7..] == TAIL, "market padding");
    if v2 {
        let z = Z4;
        let o = 5 + n;
        prop!(b(0)[o..o + 32] == *raw(&auths[0]), "the open-orders authority is recorded");
        prop!(b(0)[o + 32..o + 64] == *raw(if nauth > 1 { &auths[1] } else { &z }), "the prune authority is recorded");
        prop!(b(0)[o + 64..o + 96] == *raw(if nauth > 2 { &auths[2] } else { &z }), "the crank authority is recorded");
    }
    let fl = [0, F_REQQ, F_EVQ, F_BIDS, F_ASKS];
    let mut i = 1;
    while i < 5 {
        let h = QHdr { flags: F_INIT | fl[i], head: 0, count: 0, seq: 0 };
        prop!(b(i)[..5] == HEAD && b(i)[lens[i] - 7..] == TAIL && b(i)[5..37] == *raw(&h), "queues and books start empty and carry their role");
        i += 1;
    }
    witness!(ok, "created");
}
harnesses! {
    fn oo_init() { init() }
    fn oo_init_by_order() { init_by_order() }
    fn oo_reinit() { reinit() }
    fn oo_close() { close() }
    fn oo_closed_is_dead() { closed_is_dead() }
    fn market_create_params() { create(0) }
    fn market_create_used() { create(1) }
    fn market_create_rent() { create(2) }
    fn market_create_vaults() { create(3 + choose(2)) }
    fn market_create_sizes() { create(5) }
    fn market_create_signer() { create(6) }
    fn market_create_mints() { create(7) }
    fn market_create_count() { create(8) }
}

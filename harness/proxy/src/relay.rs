//! What a permissioned-market proxy forwards to the DEX, and on whose authority.
use crate::rt::*;
use crate::world::*;
use serum_dex_permissioned::{Context, MarketMiddleware, MarketProxy, OpenOrdersPda, ReferralFees};
use serum_dex::instruction::{CancelOrderInstructionV2, NewOrderInstructionV3};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::pubkey::Pubkey;

/// the open-orders address of a user on a market, as documented: seeds "open-orders", DEX, market, user
fn oo_pda(market: &Pubkey, user: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"open-orders", DEX.as_ref(), market.as_ref(), user.as_ref()], &pk(PROXY))
}
fn init_pda(market: &Pubkey) -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"open-orders-init", DEX.as_ref(), market.as_ref()], &pk(PROXY))
}
fn proxy(a: &mut [A], data: &[u8], referral: bool) -> bool {
    with_infos(a, |v| {
        let mut pda = OpenOrdersPda::new();
        let mut rf = ReferralFees::new(pk(REFERRAL));
        let p = MarketProxy::new();
        let p = if referral { p.middleware(&mut rf) } else { p };
        let r = p.middleware(&mut pda).run(&pk(PROXY), v, data);
        #[cfg(not(sx))]
        if std::env::var("SX_SHOW").is_ok() { println!("proxy: {:?}", r); }
        r.is_ok()
    })
}
#[derive(Clone, Copy)]
struct Kind { disc: u8, n: usize, market: usize, oo: usize, user: usize, payload: usize }
const NEW: Kind = Kind { disc: 10, n: 12, market: 0, oo: 1, user: 7, payload: 54 };
const NEW_OLD: Kind = Kind { disc: 10, n: 13, market: 0, oo: 1, user: 7, payload: 46 };
const CANCEL: Kind = Kind { disc: 11, n: 6, market: 0, oo: 3, user: 4, payload: 20 };
const CLIENT: Kind = Kind { disc: 12, n: 6, market: 0, oo: 3, user: 4, payload: 8 };
const SETTLE: Kind = Kind { disc: 5, n: 10, market: 0, oo: 1, user: 2, payload: 0 };
const CLOSE: Kind = Kind { disc: 14, n: 4, market: 3, oo: 0, user: 1, payload: 0 };

struct T { mdata: [u8; 400], rdata: [u8; 165] }
/// the accounts of a transaction: the DEX program, then `k.n` accounts in the DEX's order
fn accounts(t: &mut T, k: Kind, user: Pubkey, oo: Pubkey, sig: bool) -> Vec<A> {
    let mut v = vec![A::bare(DEX)];
    let mut i = 0;
    while i < k.n {
        v.push(if i == k.market { A::new(pk(MARKET), &mut t.mdata, DEX) } else if i == k.oo { A::bare(oo) }
            else if i == k.user { A::bare(user).sign(sig) } else if i == 9 { A::new(pk(REFERRER), &mut t.rdata, spl_token::ID) } else { A::bare(pk(100 + i as u8)) });
        i += 1;
    }
    v
}
fn user_instruction(k: Kind) {
    let mut t = T { mdata: [0; 400], rdata: [0; 165] };
    let lot = [1u64, 100, 1 << 40][choose(3) as usize];
    t.mdata[349..357].copy_from_slice(&lot.to_le_bytes());
    t.rdata[32..64].copy_from_slice(&[REFERRAL; 32]);
    let users = [pk(USER), pk(USER2)];
    let m = pk(MARKET);
    let oos = [oo_pda(&m, &users[0]).0, oo_pda(&m, &users[1]).0, oo_pda(&pk(MARKET + 1), &users[0]).0, pk(20)];
    let (ui, oi) = (choose(2) as usize, choose(4) as usize);
    let (user, oo) = (users[ui], oos[oi]);
    let sig = choose(2) == 1;
    let mut a = accounts(&mut t, k, user, oo, sig);
    // somebody else may have signed the same transaction
    let other = choose(2) == 1;
    if other { let l = a.len() - 1; if l != k.user + 1 && l != k.market + 1 { a[l].signer = true; } else { a[3].signer = a[3].signer || k.user != 2; } }
    let mut orig = [false; 16];
    let mut i = 0;
    while i < k.n { orig[i] = a[i + 1].signer; i += 1; }
    // one byte for the middleware, then the DEX instruction
    let mut d = [0u8; 64];
    d[0] = 1;
    d[2] = k.disc;
    i = 0;
    while i < k.payload { d[6 + i] = u8_(); i += 1; }
    let side = u32::from_le_bytes([d[6], d[7], d[8], d[9]]);
    let at = |o: usize| u64::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3], d[o + 4], d[o + 5], d[o + 6], d[o + 7]]);
    let small = |o: usize, max: u8| d[o] <= max && d[o + 1] == 0 && d[o + 2] == 0 && d[o + 3] == 0;
    // a well-formed instruction of the user on his own account
    let due = sig && oi == ui && match k.disc {
        10 => side < 2 && at(10) > 0 && at(18) > 0 && at(26) > 0 && small(34, 2) && small(38, 2) && (side == 0 || at(18) <= u64::MAX / lot),
        11 => side < 2,
        _ => true,
    };
    forbid_panic(due);
    let r = proxy(&mut a, &d[..6 + k.payload], k.disc == 5);
    forbid_panic(false);
    std::mem::forget(a);
    observe(r as u64); observe(ncalls() as u64);
    if ncalls() > 0 {
        let at = (k.disc == 10) as usize;
        prop!(sig, "nothing is done for a user who did not sign");
        if ncalls() > at {
            prop!(oi == ui, "the open-orders account acted on is the user's own on this market");
            let c = call(at);
            prop!(c.prog == DEX, "the relayed instruction goes to the DEX");
            let full = if k.disc == 10 { 59 } else { 5 + k.payload };
            prop!(c.len == full && c.data[..5 + k.payload] == d[1..6 + k.payload], "the DEX receives the instruction the user sent");
            prop!(k.payload != 46 || c.data[51..59] == i64::MAX.to_le_bytes(), "an order without expiry is relayed without expiry");
            prop!(c.n == k.n, "the DEX receives the accounts the user sent");
            prop!(c.npda == 1 && c.pda[0] == oo, "the proxy signs for nothing but the user's open-orders account");
            i = 0;
            while i < k.n {
                let want = if i == k.user { oo } else if i == k.market { m } else if i == k.oo { oo } else if i == 9 { pk(REFERRER) } else { pk(100 + i as u8) };
                prop!(c.keys[i] == want, "accounts are relayed in order, with the open-orders account as its own owner");
                prop!(c.signer[i] == (orig[i] || i == k.user), "signatures are relayed as given");
                i += 1;
            }
        }
        if k.disc == 10 {
            let rd = |o: usize| u64::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3], d[o + 4], d[o + 5], d[o + 6], d[o + 7]]);
            let c = call(0);
            let amount = if side == 0 { rd(26) } else { rd(18).wrapping_mul(lot) };
            prop!(side == 0 || rd(18) <= u64::MAX / lot, "an allowance never wraps");
            prop!(c.prog == spl_token::ID && c.len == 9 && c.data[0] == 4 && c.data[1..9] == amount.to_le_bytes(), "the allowance is exactly what the order can spend");
            prop!(c.n == 3 && c.keys[0] == pk(106) && c.keys[1] == oo && c.keys[2] == user && c.signer[2] && c.npda == 0, "the allowance is given by the user to his open-orders account");
        }
    }
    if r {
        prop!(ncalls() == 0 || ncalls() == if k.disc == 10 { 3 } else { 1 }, "nothing beyond the relay takes place");
        if k.disc == 10 && ncalls() == 3 {
            let c = call(2);
            prop!(c.prog == spl_token::ID && c.len == 1 && c.data[0] == 5 && c.n == 2 && c.keys[0] == pk(106) && c.keys[1] == user && c.npda == 0, "the allowance is revoked after the order");
        }
    }
    prop!(!due || (r && ncalls() > 0), "the user's own requests are relayed");
    witness!(r && ncalls() > 0 && sig && oi == ui, "relayed");
    witness!(!r && !sig, "refused: no signature");
    witness!(!r && sig && oi != ui, "refused: not the user's account");
}

static mut TRACE: [u8; 16] = [0; 16];
static mut NT: usize = 0;
fn trace(x: u8) { unsafe { TRACE[NT] = x; NT += 1; } }
/// a middleware that strips one byte and schedules work around the relay
struct Tracer(u8);
fn cb<'a, 'info>(_p: &'a Pubkey, a: Vec<AccountInfo<'info>>, ix: Vec<u8>, args: Vec<u8>) -> ProgramResult {
    trace(args[0]); trace(ncalls() as u8); trace(ix[1]); trace(a.len() as u8);
    if unsafe { CBFAIL } == args[0] { Err(solana_program::program_error::ProgramError::InvalidArgument) } else { Ok(()) }
}
static mut CBFAIL: u8 = 0;
impl MarketMiddleware for Tracer {
    fn instruction(&mut self, data: &mut &[u8]) -> ProgramResult {
        if data[0] != self.0 { return Err(solana_program::program_error::ProgramError::InvalidInstructionData); }
        *data = &data[1..];
        Ok(())
    }
    fn consume_events(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        trace(self.0);
        *limit = limit.wrapping_add(1);
        let seeds = vec![vec![vec![self.0], vec![Pubkey::find_program_address(&[&[self.0]], &pk(PROXY)).1]]];
        let ix = |t: u8| solana_program::instruction::Instruction { program_id: pk(t), accounts: vec![], data: vec![t] };
        ctx.pre_instructions.push((ix(self.0), vec![], seeds.clone()));
        ctx.post_instructions.push((ix(self.0 + 50), vec![], vec![]));
        ctx.post_callbacks.push((cb, vec![], vec![self.0 + 100]));
        ctx.accounts.remove(0);
        Ok(())
    }
    fn fallback(&self, _ctx: &mut Context) -> ProgramResult { trace(self.0); Ok(()) }
}

/// a middleware that only records which of its handlers ran
struct Marker(u8, u8);
impl Marker {
    fn mark(&self, what: u8) -> ProgramResult {
        trace(self.0 * 32 + what);
        if self.1 == self.0 { Err(solana_program::program_error::ProgramError::InvalidArgument) } else { Ok(()) }
    }
}
impl MarketMiddleware for Marker {
    fn init_open_orders(&self, _: &mut Context) -> ProgramResult { self.mark(15) }
    fn new_order_v3(&self, _: &mut Context, _: &mut NewOrderInstructionV3) -> ProgramResult { self.mark(10) }
    fn cancel_order_v2(&self, _: &mut Context, _: &mut CancelOrderInstructionV2) -> ProgramResult { self.mark(11) }
    fn cancel_order_by_client_id_v2(&self, _: &mut Context, id: &mut u64) -> ProgramResult { *id = id.wrapping_add(1); self.mark(12) }
    fn settle_funds(&self, _: &mut Context) -> ProgramResult { self.mark(5) }
    fn close_open_orders(&self, _: &mut Context) -> ProgramResult { self.mark(14) }
    fn consume_events(&self, _: &mut Context, l: &mut u16) -> ProgramResult { *l = l.wrapping_add(1); self.mark(3) }
    fn consume_events_permissioned(&self, _: &mut Context, l: &mut u16) -> ProgramResult { *l = l.wrapping_add(1); self.mark(17) }
    fn prune(&self, _: &mut Context, l: &mut u16) -> ProgramResult { *l = l.wrapping_add(1); self.mark(16) }
    fn fallback(&self, _: &mut Context) -> ProgramResult { self.mark(0) }
}

harnesses! {
    /// every instruction passes through the matching handler of every middleware, in order, before it is relayed
    fn proxy_middleware_all() {
        let mut t = T { mdata: [0; 400], rdata: [0; 165] };
        // (discriminant, accounts needed, payload)
        let (disc, need, payload) = [(15u8, 4usize, 0usize), (10, 12, 54), (11, 6, 20), (12, 6, 8), (5, 10, 0), (14, 4, 0), (3, 4, 2), (17, 3, 2), (16, 7, 2)][choose(9) as usize];
        let n = [need, need + 1, need - 1][choose(3) as usize];
        let k = Kind { disc, n, market: 0, oo: 15, user: 15, payload };
        let mut a = accounts(&mut t, k, pk(USER), pk(USER), false);
        let bad = choose(4);
        let mut d = [0u8; 64];
        d[1] = disc;
        let mut i = 0;
        while i < payload { d[5 + i] = u8_(); i += 1; }
        if disc == 10 {
            // well formed: limit prices, sizes and the two enumerations
            assume(d[5] < 2); d[6] = 0; d[7] = 0; d[8] = 0;
            assume(d[9] != 0 && d[17] != 0 && d[25] != 0 && d[33] < 3 && d[37] < 3);
            i = 34; while i < 37 { d[i] = 0; d[i + 4] = 0; i += 1; }
        }
        if disc == 11 { assume(d[5] < 2); d[6] = 0; d[7] = 0; d[8] = 0; }
        unsafe { NT = 0; }
        forbid_panic(true);
        let r = with_infos(&mut a, |v| {
            let (mut x, mut y, mut z) = (Marker(1, bad), Marker(2, bad), Marker(3, bad));
            MarketProxy::new().middleware(&mut x).middleware(&mut y).middleware(&mut z).run(&pk(PROXY), v, &d[..5 + payload]).is_ok()
        });
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64); observe(ncalls() as u64);
        let (tr, nt) = unsafe { (TRACE, NT) };
        let enough = n >= need;
        if !enough { prop!(!r && ncalls() == 0, "a request without the accounts of its instruction is refused"); }
        else {
            let last = if bad == 0 { 3 } else { bad as usize };
            prop!(nt == last, "every middleware sees the request, until one refuses it");
            i = 0;
            while i < last { prop!(tr[i] == (i as u8 + 1) * 32 + disc, "the handler of the instruction runs, in the order of the middlewares"); i += 1; }
            prop!(r == (bad == 0) && ncalls() == r as usize, "a request reaches the DEX exactly if no middleware refuses it");
        }
        if ncalls() > 0 {
            let c = call(0);
            // the handlers counted up what they could
            if disc == 12 { let w = u64::from_le_bytes([d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12]]).wrapping_add(3).to_le_bytes(); i = 0; while i < 8 { d[5 + i] = w[i]; i += 1; } }
            if disc == 3 || disc == 17 || disc == 16 { let w = u16::from_le_bytes([d[5], d[6]]).wrapping_add(3).to_le_bytes(); d[5] = w[0]; d[6] = w[1]; }
            prop!(c.prog == DEX && c.n == n && c.npda == 0 && c.len == 5 + payload && c.data[..5 + payload] == d[..5 + payload], "the DEX receives what the middleware left");
        }
        witness!(r && disc == 5, "relayed");
        witness!(!r && enough && bad == 3, "refused by the last");
    }
    fn proxy_new_order() { user_instruction(NEW) }
    fn proxy_new_order_old() { user_instruction(NEW_OLD) }
    fn proxy_cancel() { user_instruction(CANCEL) }
    fn proxy_cancel_client() { user_instruction(CLIENT) }
    fn proxy_settle() { user_instruction(SETTLE) }
    fn proxy_close() { user_instruction(CLOSE) }
    /// referral fees of settlements go to the configured wallet only
    fn proxy_referral() {
        let mut t = T { mdata: [0; 400], rdata: [0; 165] };
        let w = key4();
        let mut i = 0;
        while i < 4 { t.rdata[32 + 8 * i..40 + 8 * i].copy_from_slice(&w[i].to_le_bytes()); i += 1; }
        let mine = t.rdata[32..64] == [REFERRAL; 32];
        let user = pk(USER);
        let oo = oo_pda(&pk(MARKET), &user).0;
        let n = choose(3) as usize;
        let mut a = accounts(&mut t, SETTLE, user, oo, true);
        a.truncate(a.len() - n);
        // further accounts, perhaps one of the configured wallet, change nothing
        let mut more = [0u8; 165];
        if n == 0 && choose(2) == 1 { if bool_() { more[32..64].copy_from_slice(&[REFERRAL; 32]); } a.push(A::new(pk(111), &mut more, spl_token::ID)); }
        forbid_panic(mine && n == 0);
        let r = proxy(&mut a, &[1, 0, 5, 0, 0, 0], true);
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == (mine && n == 0), "a settlement is relayed exactly if it names the configured referrer");
        prop!(r || ncalls() == 0, "a refused settlement relays nothing");
        witness!(r, "relayed");
        witness!(!r && n == 0, "refused");
    }
    /// only the supported instructions reach the DEX, and only through the real DEX program
    fn proxy_unsupported() {
        let mut t = T { mdata: [0; 400], rdata: [0; 165] };
        let user = pk(USER);
        let oo = oo_pda(&pk(MARKET), &user).0;
        let mut a = accounts(&mut t, NEW, user, oo, true);
        let wrong = choose(2) == 1;
        let mut d = [0u8; 64];
        d[0] = 1;
        let mut i = 1;
        while i < 64 { d[i] = u8_(); i += 1; }
        let len = 6 + [0u8, 2, 8, 20, 46, 54, 1, 16][choose(8) as usize] as usize;
        if wrong {
            let k = key4();
            let mut b = [0u8; 32];
            i = 0;
            while i < 4 { b[8 * i..8 * i + 8].copy_from_slice(&k[i].to_le_bytes()); i += 1; }
            assume(b != DEX.to_bytes());
            a[0].key = Pubkey::new_from_array(b);
            // the rest of the decoding is the same as for the right program
            d[1] = 0; d[2] = 5; d[3] = 0; d[4] = 0; d[5] = 0;
        } else {
            let s = [3u8, 5, 10, 11, 12, 14, 15, 16, 17];
            i = 0;
            while i < 9 { assume(d[2] != s[i] || d[3] != 0 || d[4] != 0 || d[5] != 0); i += 1; }
        }
        let r = proxy(&mut a, &d[..len], false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(ncalls() == 0, "an unsupported instruction or a foreign program is never called");
        prop!(!r || !wrong, "a foreign program in place of the DEX is refused");
        witness!(r, "handled as fallback");
        witness!(!r, "refused");
    }
    /// cranking and pruning are relayed as they are; a pruned account is its own owner
    fn proxy_crank() {
        let mut t = T { mdata: [0; 400], rdata: [0; 165] };
        let which = choose(3);
        let (disc, n) = [(3u8, 5usize), (17, 4), (16, 7)][which as usize];
        let k = Kind { disc, n, market: 0, oo: 15, user: 15, payload: 2 };
        let mut a = accounts(&mut t, k, pk(USER), pk(USER), false);
        let sig = choose(2) == 1;
        a[4].signer = sig;
        let lim = u16_();
        let l = lim.to_le_bytes();
        forbid_panic(true);
        let r = proxy(&mut a, &[1, 0, disc, 0, 0, 0, l[0], l[1]], false);
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r && ncalls() == 1, "cranking is open to everyone");
        let c = call(0);
        prop!(c.prog == DEX && c.len == 7 && c.data[..7] == [0, disc, 0, 0, 0, l[0], l[1]] && c.n == n && c.npda == 0, "the DEX receives the instruction as it was sent");
        let mut i = 0;
        while i < n {
            let want = if i == 0 { pk(MARKET) } else if which == 2 && i == 5 { pk(104) } else { pk(100 + i as u8) };
            prop!(c.keys[i] == want && c.signer[i] == (sig && i == 3), "accounts and signatures are relayed as given");
            i += 1;
        }
        witness!(r && sig, "relayed");
    }
    /// opening an account creates the user's own address and has it registered under the market's init authority
    fn proxy_init() {
        let mut rent = [0u8; 17];
        rent[..8].copy_from_slice(&3480u64.to_le_bytes());
        rent[8..16].copy_from_slice(&0x4000000000000000u64.to_le_bytes());
        rent[16] = 50;
        let m = pk(MARKET);
        let users = [pk(USER), pk(USER2)];
        let p = [oo_pda(&m, &users[0]), oo_pda(&m, &users[1])];
        let q = [init_pda(&m), init_pda(&pk(MARKET + 1))];
        let (ui, oi, qi) = (choose(2) as usize, choose(2) as usize, choose(2) as usize);
        let (bump, binit) = (p[ui].1.wrapping_add(choose(2)), q[0].1.wrapping_add(choose(2)));
        let sig = choose(2) == 1;
        let mut a = vec![A::bare(DEX), A::bare(DEX), A::bare(pk(0)), A::bare(p[oi].0), A::bare(users[ui]).sign(sig), A::bare(m),
            A::new(solana_program::sysvar::rent::ID, &mut rent, pk(0)), A::bare(q[qi].0)];
        a[3].lamports = if choose(2) == 0 { 0 } else { u64_() };
        let fresh = a[3].lamports == 0;
        let taken = choose(2) == 1;
        if taken { a[3].owner = DEX; }
        let good = sig && ui == oi && qi == 0 && bump == p[ui].1 && binit == q[0].1 && !taken;
        forbid_panic(good);
        let r = proxy(&mut a, &[0, bump, binit, 0, 15, 0, 0, 0], false);
        forbid_panic(false);
        let paid = a[3].lamports;
        std::mem::forget(a);
        observe(r as u64); observe(ncalls() as u64);
        prop!(r == good, "an account can be opened exactly by its own user");
        if r {
            let (c0, c) = (call(0), call(ncalls() - 1));
            prop!(paid >= (3228 + 128) * 3480 * 2, "the account is rent exempt");
            if fresh {
                // CreateAccount: lamports, space, owner
                let space = (3216u64 + 12).to_le_bytes();
                prop!(ncalls() == 2 && c0.prog == pk(0) && c0.len == 52 && c0.data[..4] == [0, 0, 0, 0] && c0.data[12..20] == space && c0.data[20..52] == DEX.to_bytes(), "the account is created for the DEX at its full size");
                prop!(c0.keys[0] == users[ui] && c0.keys[1] == p[ui].0 && c0.npda == 1 && c0.pda[0] == p[ui].0, "the user pays for his own account");
            } else {
                let n = ncalls() - 3;
                prop!(n <= 1 && call(n).data[..4] == [8, 0, 0, 0] && call(n).data[4..12] == 3228u64.to_le_bytes() && call(n + 1).data[..4] == [1, 0, 0, 0] && call(n + 1).data[4..36] == DEX.to_bytes(), "the account is created for the DEX at its full size");
                prop!(n == 0 || (c0.data[0] == 2 && c0.keys[0] == users[ui] && c0.keys[1] == p[ui].0 && c0.npda == 0), "the user pays for his own account");
                witness!(n == 1, "topped up");
            }
            prop!(c.prog == DEX && c.len == 5 && c.data[..5] == [0, 15, 0, 0, 0], "the DEX is asked to open the account");
            prop!(c.n == 5 && c.keys[0] == p[ui].0 && c.keys[1] == p[ui].0 && c.keys[2] == m && c.keys[3] == solana_program::sysvar::rent::ID && c.keys[4] == q[0].0, "the account becomes its own owner, under the market's init authority");
            prop!(!c.signer[0] && c.signer[1] && !c.signer[2] && c.signer[4] && c.npda == 2 && c.pda[0] == p[ui].0 && c.pda[1] == q[0].0, "the proxy signs for that account and the init authority only");
        }
        witness!(r && fresh, "opened");
        witness!(!r && sig, "refused");
    }
    /// middleware runs in order; its instructions surround the relay, callbacks come last, failures stop everything
    fn proxy_middleware_order() {
        let mut t = T { mdata: [0; 400], rdata: [0; 165] };
        let k = Kind { disc: 3, n: 8, market: 2, oo: 15, user: 15, payload: 2 };
        let mut a = accounts(&mut t, k, pk(USER), pk(USER), false);
        let fail = choose(6) as usize;
        let cbfail = if fail == 5 { [0u8, 101, 102][choose(3) as usize] } else { 0 };
        let l = u16_();
        let lb = l.to_le_bytes();
        let tag = u8_();
        let known = choose(2) == 0;
        unsafe { NT = 0; CBFAIL = cbfail; FAIL = if fail < 5 { fail } else { usize::MAX }; }
        forbid_panic(true);
        let r = with_infos(&mut a, |v| {
            let (mut x, mut y) = (Tracer(1), Tracer(2));
            MarketProxy::new().middleware(&mut x).middleware(&mut y).run(&pk(PROXY), v, &[tag, 2, 0, if known { 3 } else { 90 }, 0, 0, 0, lb[0], lb[1]]).is_ok()
        });
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64); observe(ncalls() as u64);
        let (tr, nt) = unsafe { (TRACE, NT) };
        if tag != 1 {
            prop!(!r && ncalls() == 0 && nt == 0, "a middleware can refuse the request");
        } else if !known {
            prop!(r && ncalls() == 0 && nt == 2 && tr[0] == 1 && tr[1] == 2, "unknown instructions go to every middleware's fallback only");
        } else {
            prop!(tr[0] == 1 && tr[1] == 2, "middleware runs in order");
            prop!(r == (fail == 5 && cbfail == 0) && ncalls() == fail, "a failing call stops the request");
            let order = [1u8, 2, 0, 51, 52];
            let mut i = 0;
            while i < ncalls() {
                let c = call(i);
                if i == 2 {
                    let want = l.wrapping_add(2).to_le_bytes();
                    prop!(c.prog == DEX && c.data[..7] == [0, 3, 0, 0, 0, want[0], want[1]] && c.n == 6 && c.keys[0] == pk(MARKET), "the DEX receives what the middleware left");
                } else {
                    prop!(c.prog == pk(order[i]) && c.data[0] == order[i] && c.npda == (i < 2) as usize, "scheduled instructions run around the relay in order");
                }
                i += 1;
            }
            if r { prop!(nt == 10 && tr[2..10] == [101, 5, 3, 0, 102, 5, 3, 0], "callbacks run last, in order"); } else if cbfail == 0 { prop!(nt == 2, "no callback after a failure"); } else { prop!(nt == if cbfail == 101 { 6 } else { 10 }, "a failing callback stops the request"); }
        }
        witness!(r && known, "completed");
        witness!(!r && tag == 1, "stopped");
    }
}

//! Every account a pool request names must be the genuine one; pool creation; assert-owner.
use crate::rt::*;
use crate::world::*;
use serum_pool::{PoolContext, schema::{Basket, PoolState}};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey};

fn key32() -> [u8; 32] {
    let k = key4();
    let mut b = [0u8; 32];
    let mut i = 0;
    while i < 4 { b[8 * i..8 * i + 8].copy_from_slice(&k[i].to_le_bytes()); i += 1; }
    b
}
/// any address that no account of the fixture has
fn other_key(vs: &Pubkey) -> [u8; 32] {
    let k = key32();
    assume(k[0] != k[1]);
    assume(k != vs.to_bytes() && k != spl_token::ID.to_bytes() && k != FEE_OWNER);
    assume(k != solana_program::sysvar::rent::ID.to_bytes());
    k
}
const KEY: u8 = 0; const PROG: u8 = 1; const TMINT: u8 = 2; const TOWNER: u8 = 3; const UNINIT: u8 = 4; const NOSIG: u8 = 5; const ZEROED: u8 = 6; const TAG: u8 = 7; const MAUTH: u8 = 8;
/// makes one account of the list not the genuine one
fn spoil(a: &mut A, how: u8, vs: &Pubkey) {
    let d = unsafe { std::slice::from_raw_parts_mut(a.data, a.len) };
    match how {
        // (the signer derived from a pool's address is computed, so that address is one fixed other value)
        KEY => a.key = if a.len == STATE_LEN { pk(STRANGER + 9) } else { Pubkey::new_from_array(other_key(vs)) },
        PROG => { let k = key32(); assume(k != a.owner.to_bytes()); a.owner = Pubkey::new_from_array(k); }
        TMINT => { let k = key32(); assume(d[0..32] != k[..]); d[0..32].copy_from_slice(&k); }
        TOWNER => {
            let k = key32();
            assume(d[32..64] != k[..]);
            if choose(2) == 1 {
                // with some delegate, though not the one meant to control the account
                let g = key32();
                assume(d[32..64] != g[..]);
                d[72] = 1;
                d[76..108].copy_from_slice(&g);
                d[121..129].copy_from_slice(&[255; 8]);
            }
            d[32..64].copy_from_slice(&k);
        }
        UNINIT => d[if a.len == 82 { 45 } else { 108 }] = 0,
        NOSIG => a.signer = false,
        ZEROED => { let mut i = 0; while i < d.len() { d[i] = 0; i += 1; } }
        TAG => { let t = u64_(); assume(t != STATE_TAG); d[..8].copy_from_slice(&t.to_le_bytes()); }
        _ => { let k = key32(); assume(d[4..36] != k[..]); d[4..36].copy_from_slice(&k); }
    }
}
/// (position, how) for Execute with two assets and two account parameters; CREATE / REDEEM only entries come last
const EX: [(u8, u8); 48] = [
    (0, KEY), (0, PROG), (0, ZEROED), (0, TAG), (1, KEY), (1, PROG), (1, MAUTH), (1, UNINIT), (2, KEY), (2, PROG), (2, TMINT), (2, TOWNER), (2, UNINIT),
    (3, KEY), (3, PROG), (3, TMINT), (3, TOWNER), (3, UNINIT), (4, KEY), (5, PROG), (5, TMINT), (5, UNINIT), (6, PROG), (6, TMINT), (6, UNINIT),
    (7, PROG), (7, TMINT), (7, UNINIT), (8, KEY), (8, NOSIG), (9, KEY), (9, PROG), (9, TMINT), (9, TOWNER), (9, UNINIT), (10, KEY), (10, PROG), (10, TMINT), (10, UNINIT),
    (11, PROG), (11, TMINT), (11, UNINIT), (12, KEY), (13, KEY), (14, KEY), (6, TOWNER), (7, TOWNER), (5, TOWNER)];
fn exec_case(action: u8) {
    let mut w = W::new(2, 2, 2500);
    let vs = w.vs;
    w.mint.supply = 1_000_000;
    w.vault[0].amount = u64_();
    w.vault[1].amount = u64_();
    w.user_pool.amount = u64_();
    w.user[0].amount = u64_();
    w.user[1].amount = u64_();
    w.lqd.amount = u64_();
    let n = [0, 10_000, 400_000][choose(3) as usize];
    let genuine = choose(2) == 0;
    let mut a = w.exec_accounts(true);
    a.push(A::bare(pk(PARAM)));
    a.push(A::bare(pk(PARAM + 1)));
    if !genuine {
        let mut one = |k: u8| {
            // the accounts the user spends from are bound to his signature
            let (i, how) = if k < 45 { EX[k as usize] } else if action == REDEEM { EX[47] } else { EX[45 + choose(2) as usize] };
            if i == 0 && how == KEY { assume(n > 0); }
            spoil(&mut a[i as usize], how, &vs);
            (i, how)
        };
        let k = choose(46);
        let first = one(k);
        // perhaps a second thing is wrong as well, with the same account or with another
        let k2 = choose(46);
        if k2 > k {
            // (another user with a token account of his own is genuine)
            if first == (8, KEY) && k2 == 45 { return; }
            one(k2);
        } else if k2 < k { return; }
    }
    let r = process(&mut a, &request(EXECUTE, action, n));
    std::mem::forget(a);
    observe(r as u64);
    prop!(!r || genuine, "a request with an account that is not the genuine one is refused");
    witness!(r && genuine && n > 0, "accepted with genuine accounts");
    witness!(!r && !genuine, "refused");
}
const QU: [(u8, u8); 22] = [
    (0, KEY), (0, PROG), (0, ZEROED), (0, TAG), (1, KEY), (1, PROG), (1, MAUTH), (1, UNINIT), (2, KEY), (2, PROG), (2, TMINT), (2, TOWNER), (2, UNINIT),
    (3, KEY), (3, PROG), (3, TMINT), (3, TOWNER), (3, UNINIT), (4, KEY), (5, PROG), (7, KEY), (8, KEY)];

// ---------------------------------------------------------------- initialization

pub struct I { st: [u8; STATE_LEN], mint: MintAcc, vault: [Tok; 2], lqd: Tok, initr: Tok, rent: [u8; 17], vs: Pubkey }
fn init_world() -> I {
    let vs = vsigner();
    let mut rent = [0u8; 17];
    rent[..8].copy_from_slice(&3480u64.to_le_bytes());
    rent[8..16].copy_from_slice(&0x4000000000000000u64.to_le_bytes()); // 2.0 years
    rent[16] = 50;
    I { st: [0; STATE_LEN], mint: mint_acc(vs.to_bytes(), u64_()), vault: [tok(ASSET0, vs.to_bytes(), u64_()), tok(ASSET0 + 1, vs.to_bytes(), u64_())],
        lqd: tok(MINT, FEE_OWNER, u64_()), initr: tok(MINT, [STRANGER; 32], u64_()), rent, vs }
}
impl I {
    fn accounts(&mut self) -> Vec<A> {
        vec![A::new(pk(POOL), &mut self.st, pk(PROGRAM)), A::spl(MINT, &mut self.mint), A::spl(VAULT0, &mut self.vault[0]), A::spl(VAULT0 + 1, &mut self.vault[1]),
            A::bare(self.vs), A::spl(LQD, &mut self.lqd), A::spl(INITR, &mut self.initr), A::new(solana_program::sysvar::rent::ID, &mut self.rent, pk(0))]
    }
}
fn init_request(nonce: u8, fee_rate: u32) -> Buf<30> {
    let mut b = Buf::<30>::new();
    b.u64(REQ_TAG);
    b.u8(0);
    b.u8(nonce);
    b.u8(2);
    b.u32(3);
    b.put(b"abc");
    b.u32(fee_rate);
    b.u32(1);
    b.u8(u8_());
    b
}
fn exempt(l: u64, len: usize) -> bool { l >= (128 + len as u64) * 3480 * 2 }

/// a pool with rules of its own: what it was asked, and what it does to its state
struct Custom;
static mut ASKED: (u8, u64) = (0, 0);
static mut REFUSE: bool = false;
static mut NOTE: u8 = 0;
static mut RATE: u32 = 0;
fn ask(st: &mut PoolState, k: u8, n: u64) -> Result<(), ProgramError> {
    unsafe {
        ASKED = (k, n);
        st.custom_state = vec![NOTE, k];
        if REFUSE { Err(ProgramError::InvalidArgument) } else { Ok(()) }
    }
}
impl serum_pool::Pool for Custom {
    fn initialize_pool(_: &PoolContext, st: &mut PoolState) -> Result<(), ProgramError> { st.fee_rate = unsafe { RATE }; ask(st, 1, 0) }
    fn process_creation(_: &PoolContext, st: &mut PoolState, n: u64) -> Result<(), ProgramError> { ask(st, 2, n) }
    fn process_redemption(_: &PoolContext, st: &mut PoolState, n: u64) -> Result<(), ProgramError> { ask(st, 3, n) }
    fn process_swap(_: &PoolContext, st: &mut PoolState, q: &[u64]) -> Result<(), ProgramError> { ask(st, 4, if q.len() == 2 { q[1] } else { 0 }) }
    fn get_swap_basket(_: &PoolContext, _: &PoolState, q: &[u64]) -> Result<Basket, ProgramError> {
        unsafe { ASKED = (5, if q.len() == 2 { q[1] } else { 0 }); }
        Ok(Basket { quantities: vec![q[0] as i64, -3] })
    }
    fn process_foreign_instruction(_: &Pubkey, _: &[AccountInfo], d: &[u8]) -> ProgramResult {
        unsafe { ASKED = (6, d.len() as u64); if REFUSE { Err(ProgramError::InvalidArgument) } else { Ok(()) } }
    }
}
/// the state of a two-asset pool with the custom data `note, k`
fn noted(mut st: [u8; STATE_LEN], params: usize, note: u8, k: u8) -> [u8; STATE_LEN] {
    let at = 8 + 32 + 4 + 128 + 32 + 1 + 4 + 33 * params + 7 + 64 + 4 + 1;
    st[at] = 2;
    st[at + 4] = note;
    st[at + 5] = k;
    st
}

harnesses! {
    /// a pool's own rules decide its requests, and what they do to its state is kept exactly if they succeed
    fn pool_custom() {
        let mut w = W::new(2, 2, 2500);
        let what = choose(6);
        let (n, note, refuse) = (u64_(), u8_(), bool_());
        unsafe { ASKED = (0, 0); NOTE = note; REFUSE = refuse; }
        let mut b = Buf::<64>::new();
        let (st0, bal) = (w.st, w.balances());
        let mut a = if what == 3 { w.basket_accounts() } else { w.exec_accounts(true) };
        a.push(A::bare(pk(PARAM)));
        a.push(A::bare(pk(PARAM + 1)));
        let wrong = choose(2) == 1;
        if wrong { let i = a.len() - 1; a[i].key = pk(STRANGER); }
        match what {
            0 => b.put(&request(EXECUTE, CREATE, n)),
            1 => b.put(&request(EXECUTE, REDEEM, n)),
            2 | 3 => { b.u64(REQ_TAG); b.u8(if what == 2 { EXECUTE } else { GET_BASKET }); b.u8(2); b.u32(2); b.u64(9); b.u64(n); }
            // not a pool request: another tag, or too short to have one
            4 => { let t = u64_(); assume(t != REQ_TAG); b.u64(t); b.u64(n); }
            _ => { b.put(&REQ_TAG.to_le_bytes()[..7]); }
        }
        forbid_panic(true);
        let r = process_as::<Custom>(&mut a, b.s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        let (k, x) = unsafe { ASKED };
        let foreign = what > 3;
        if wrong && !foreign {
            prop!(!r && k == 0 && w.st == st0, "the pool's rules are asked only with the pool's own accounts");
        } else {
            prop!(r == (!refuse || what == 3), "the pool's rules decide the request");
            prop!(k == [2, 3, 4, 5, 6, 6][what as usize] && x == if what == 4 { 16 } else if what == 5 { 7 } else { n }, "the request reaches the rule it is for, as it was sent");
            if r && what < 3 { prop!(w.st == noted(st0, 2, note, k), "what the rules do to the pool's state is kept, and nothing else"); }
            if !r || what == 3 { prop!(w.st == st0, "quotes and refused requests leave the pool alone"); }
            if r && what == 3 {
                let (rb, rn) = unsafe { (RET, RETLEN) };
                prop!(rn == 28 && rb[..8] == [0; 8] && rb[8..12] == [2, 0, 0, 0] && rb[12..20] == [9, 0, 0, 0, 0, 0, 0, 0] && rb[20..28] == (-3i64).to_le_bytes(), "the quote is returned as the rules gave it");
            }
        }
        prop!(w.balances() == bal, "no tokens move but by the pool's rules");
        witness!(r && what == 2, "swapped");
        witness!(!r && what == 0 && !wrong, "refused");
    }
    /// a pool's own initialization cannot escape the protocol's limits
    fn pool_custom_init() {
        let mut w = init_world();
        let (rate, note, refuse) = (u32_(), u8_(), bool_());
        unsafe { ASKED = (0, 0); NOTE = note; REFUSE = refuse; RATE = rate; }
        let st0 = w.st;
        let legal = rate >= 150 && rate < 1_000_000;
        let mut a = w.accounts();
        forbid_panic(true);
        let r = process_as::<Custom>(&mut a, init_request(NONCE, 2500).s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == (legal && !refuse), "a pool is created exactly if its own rules and the fee limits allow it");
        if r { prop!(w.st == noted(state(2, 0, rate, &w.vs), 0, note, 1), "the pool records what its rules set"); } else { prop!(w.st == st0, "a refused initialization leaves the account alone"); }
        witness!(r, "created");
        witness!(!r && !refuse, "refused: fee");
    }
    fn pool_auth_create() { exec_case(CREATE) }
    fn pool_auth_redeem() { exec_case(REDEEM) }
    fn pool_auth_quote() {
        let mut w = W::new(2, 2, 2500);
        let vs = w.vs;
        w.vault[0].amount = 40;
        w.vault[1].amount = 3;
        let genuine = choose(2) == 0;
        let mut a = w.basket_accounts();
        a.push(A::bare(pk(PARAM)));
        a.push(A::bare(pk(PARAM + 1)));
        if !genuine { let (i, how) = QU[choose(22) as usize]; spoil(&mut a[i as usize], how, &vs); }
        let action = choose(2);
        forbid_panic(genuine);
        let r = process(&mut a, &request(GET_BASKET, action, 500_000));
        forbid_panic(false);
        prop!(r || !genuine, "a quote with genuine accounts is given");
        // the address of the pool plays no part in a quote: any genuine pool account will do
        let moved = a[0].key != pk(POOL);
        std::mem::forget(a);
        observe(r as u64);
        prop!(!r || genuine || moved, "a quote with an account that is not the genuine one is refused");
        witness!(r && genuine, "quoted with genuine accounts");
        witness!(!r && !genuine, "refused");
    }
    fn pool_init_state() {
        let mut w = init_world();
        let (nonce, rate) = (u8_(), u32_());
        let nonce = if choose(2) == 0 { NONCE } else { assume(nonce != NONCE); [4, NONCE ^ 128, NONCE - 1, NONCE & 1][split(nonce as u64 & 3) as usize] };
        let req = init_request(nonce, rate);
        let used = choose(3);
        // an account that already holds a pool, or anything at all
        if used == 2 { w.st = state(2, 0, 2500, &w.vs); }
        if used == 1 { let i = split(bits(9)); assume(i < STATE_LEN as u64 && i & 63 == 0); let v = u8_(); assume(v != 0); w.st[i as usize] = v; }
        let used = used > 0;
        let st0 = w.st;
        let mut a = w.accounts();
        forbid_panic(!used && nonce == NONCE && rate >= 150 && rate < 1_000_000);
        let r = process(&mut a, req.s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        if r {
            prop!(!used, "a pool account can be initialized only once");
            prop!(nonce == NONCE, "the pool's signer is the address derived from the pool and the nonce");
            prop!(rate >= 150 && rate < 1_000_000, "the fee rate is within its limits");
            prop!(w.st == state(2, 0, rate, &w.vs), "the pool records exactly what it was created with");
        } else {
            prop!(w.st == st0, "a refused initialization leaves the account alone");
            prop!(used || nonce != NONCE || rate < 150 || rate >= 1_000_000, "a proper initialization is accepted");
        }
        witness!(r, "initialized");
        witness!(!r && used, "refused: used");
        witness!(!r && !used && rate < 150, "refused: fee");
    }
    fn pool_init_accounts() {
        let mut w = init_world();
        let vs = w.vs;
        // one account spoiled
        const IN: [(u8, u8); 26] = [(0, PROG), (0, KEY), (1, PROG), (1, MAUTH), (1, UNINIT), (1, KEY), (2, PROG), (2, TOWNER), (2, UNINIT), (3, PROG), (3, TOWNER), (3, UNINIT), (4, KEY),
            (5, PROG), (5, TMINT), (5, TOWNER), (5, UNINIT), (6, PROG), (6, TMINT), (6, UNINIT), (7, KEY), (5, 20), (5, 21), (5, 22), (5, 23), (5, 24)];
        let k = choose(26) as usize;
        let (i, how) = IN[k];
        let mut ok = false;
        let other = { let k = key32(); assume(k != vs.to_bytes()); k };
        match how {
            20 => { w.lqd.delegate_tag = 1; w.lqd.delegate = other; }
            21 => { w.lqd.close_tag = 1; w.lqd.close = other; }
            22 => { w.lqd.close_tag = 1; w.lqd.close = vs.to_bytes(); ok = true; }
            // a delegate does not stand in for the fee owner
            23 => { w.lqd.owner = other; assume(other != FEE_OWNER); w.lqd.delegate_tag = 1; w.lqd.delegate = FEE_OWNER; }
            24 => ok = true,
            _ => {}
        }
        let mut a = w.accounts();
        if how < 20 { spoil(&mut a[i as usize], how, &vs); }
        forbid_panic(ok);
        let r = process(&mut a, init_request(NONCE, 2500).s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == ok, "a pool is created only from genuine accounts");
        witness!(r, "initialized");
        witness!(!r, "refused");
    }
    /// one token account with any contents at all
    fn pool_init_tokens() {
        let mut w = init_world();
        let vs = w.vs.to_bytes();
        let i = choose(4) as usize;
        let pick = |k: [u8; 32]| if choose(2) == 0 { k } else { key32() };
        let mut t = if i < 2 { w.vault[i] } else if i == 2 { w.lqd } else { w.initr };
        t.mint = pick([MINT; 32]);
        t.owner = pick(if i < 2 { vs } else { FEE_OWNER });
        t.delegate_tag = u32_();
        t.delegate = pick(if i < 2 { vs } else { FEE_OWNER });
        t.state = u8_();
        t.native_tag = u32_();
        t.delegated = u64_();
        t.close_tag = u32_();
        t.close = pick(vs);
        let wf = { t.delegate_tag } <= 1 && { t.native_tag } <= 1 && { t.close_tag } <= 1 && (t.state == 1 || t.state == 2);
        let (dl, cl) = ({ t.delegate_tag } == 1, { t.close_tag } == 1);
        let ok = wf && match i {
            0 | 1 => t.owner == vs || (dl && t.delegate == vs),
            2 => t.mint == [MINT; 32] && t.owner == FEE_OWNER && !dl && (!cl || t.close == vs),
            _ => t.mint == [MINT; 32],
        };
        if i < 2 { w.vault[i] = t } else if i == 2 { w.lqd = t } else { w.initr = t }
        let mut a = w.accounts();
        forbid_panic(ok);
        let r = process(&mut a, init_request(NONCE, 2500).s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == ok, "a pool is created exactly from vaults its signer controls and a fee account only the protocol controls");
        witness!(r && i == 2 && cl, "fee account the pool can close");
        witness!(r && i == 0 && dl && t.owner != vs, "delegated vault");
        witness!(!r && i == 2 && dl && cl, "refused");
    }
    fn pool_init_rent() {
        let mut w = init_world();
        let mut a = w.accounts();
        let i = [0usize, 1, 2, 3, 5, 6][choose(6) as usize];
        let l = u64_();
        a[i].lamports = l;
        let len = a[i].len;
        forbid_panic(exempt(l, len));
        let r = process(&mut a, init_request(NONCE, 2500).s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == exempt(l, len), "every account of a new pool must be rent exempt");
        witness!(r, "initialized");
        witness!(!r, "refused");
    }
    /// assert-owner succeeds exactly when the first account is owned by the program named in the data
    fn assert_owner_exact() {
        let (own, want) = (key32(), key32());
        let len = [32u8, 0, 31, 33, 64][choose(5) as usize];
        let accs = choose(3);
        let mut d = [0u8; 64];
        d[..32].copy_from_slice(&want);
        let mut data = Buf::<512>::new();
        // the serialized form in which the runtime passes an instruction
        let mut buf = vec![0u64; 4096];
        let p = buf.as_mut_ptr() as *mut u8;
        let b = unsafe { std::slice::from_raw_parts_mut(p, 4096 * 8) };
        let mut o = 8;
        b[0] = accs;
        let mut i = 0;
        while i < accs {
            b[o] = 0xff;
            o += 8; // dup marker, flags, padding
            b[o..o + 32].copy_from_slice(&[40 + i; 32]);
            b[o + 32..o + 64].copy_from_slice(if i == 0 { &own } else { &[77; 32] });
            o += 64 + 8 + 8 + 10240 + 8; // lamports, data length 0, growth room, rent epoch
            i += 1;
        }
        b[o] = len;
        o += 8;
        b[o..o + len as usize].copy_from_slice(&d[..len as usize]);
        o += len as usize;
        b[o..o + 32].copy_from_slice(&[99; 32]);
        data.n = 0;
        forbid_panic(true);
        let r = unsafe { serum_assert_owner::entrypoint(p) };
        forbid_panic(false);
        std::mem::forget(buf);
        observe(r);
        prop!((r == 0) == (accs > 0 && len == 32 && own == want), "assert-owner accepts exactly an account owned by the given program");
        witness!(r == 0, "accepted");
        witness!(r != 0 && len == 32 && accs > 0, "refused");
    }
}

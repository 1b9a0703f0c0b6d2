//! The admin-controlled pool: a pool whose admin can pause it, lend its assets out and change its make-up.
use crate::rt::*;
use crate::world::*;

const ADMIN: u8 = 60;
const NEWADM: u8 = 61;
const DELEG: u8 = 62;
const EXTRA: u8 = 2; // the index of a vault that is not part of the pool
const ADMIN_TAG: u64 = 0x31e6452361a17878;
const CUSTOM_TAG: u64 = 0x4a3ab7f76f93f94e;

/// the recorded form of a pool with the given assets (indices of vaults)
fn recorded(assets: &[u8], mints: &[[u8; 32]], rate: u32, vs: &[u8; 32], admin: &[u8; 32], tag: u64, paused: bool) -> ([u8; STATE_LEN], usize) {
    let mut b = Buf::<STATE_LEN>::new();
    b.u64(STATE_TAG);
    b.put(&[MINT; 32]);
    b.u32(assets.len() as u32);
    let mut i = 0;
    while i < assets.len() { b.put(&mints[i]); b.put(&[VAULT0 + assets[i]; 32]); i += 1; }
    b.put(vs);
    b.u8(NONCE);
    b.u32(0);
    b.u32(3);
    b.put(b"abc");
    b.put(&[LQD; 32]);
    b.put(&[INITR; 32]);
    b.u32(rate);
    b.u8(1);
    b.put(admin);
    b.u32(9);
    b.u64(tag);
    b.u8(paused as u8);
    (b.b, b.n)
}
/// Runs the program as the runtime does, on the serialized instruction; effects of a failed one are discarded.
fn run(a: &mut [A], data: &[u8]) -> bool {
    let mut size = 64 + data.len();
    let mut i = 0;
    while i < a.len() { size += 96 + a[i].len + 10240 + 32; i += 1; }
    let mut buf = vec![0u128; size / 16 + 2];
    let p = buf.as_mut_ptr() as *mut u8;
    let b = unsafe { std::slice::from_raw_parts_mut(p, size) };
    let mut at = [0usize; 20];
    let al = std::mem::align_of::<u128>();
    b[0] = a.len() as u8;
    let mut o = 8;
    i = 0;
    while i < a.len() {
        let mut dup = 255;
        let mut j = 0;
        while j < i { if a[j].len > 0 && a[j].data == a[i].data { dup = j; } j += 1; }
        if dup != 255 { b[o] = dup as u8; o += 8; i += 1; continue; }
        b[o] = 0xff;
        b[o + 1] = a[i].signer as u8;
        b[o + 2] = 1;
        o += 8;
        b[o..o + 32].copy_from_slice(&a[i].key.to_bytes());
        b[o + 32..o + 64].copy_from_slice(&a[i].owner.to_bytes());
        b[o + 64..o + 72].copy_from_slice(&a[i].lamports.to_le_bytes());
        b[o + 72..o + 80].copy_from_slice(&(a[i].len as u64).to_le_bytes());
        o += 80;
        at[i] = o;
        let d = unsafe { std::slice::from_raw_parts(a[i].data, a[i].len) };
        b[o..o + a[i].len].copy_from_slice(d);
        o += a[i].len + 10240;
        o = (o + al - 1) / al * al;
        o += 8;
        i += 1;
    }
    b[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    o += 8;
    b[o..o + data.len()].copy_from_slice(data);
    o += data.len();
    b[o..o + 32].copy_from_slice(&[PROGRAM; 32]);
    let r = unsafe { serum_pool_examples_admin_controlled::entrypoint(p) };
    if r == 0 {
        i = 0;
        while i < a.len() {
            if at[i] > 0 { let d = unsafe { std::slice::from_raw_parts_mut(a[i].data, a[i].len) }; d.copy_from_slice(&b[at[i]..at[i] + a[i].len]); }
            i += 1;
        }
    }
    std::mem::forget(buf);
    r == 0
}
fn key32() -> [u8; 32] {
    let k = key4();
    let mut b = [0u8; 32];
    let mut i = 0;
    while i < 4 { b[8 * i..8 * i + 8].copy_from_slice(&k[i].to_le_bytes()); i += 1; }
    b
}
struct S { st: [u8; STATE_LEN], vs: [u8; 32], vault: [Tok; 3], paused: bool, rate: u32 }
fn setup() -> S {
    let vs = vsigner().to_bytes();
    let (paused, rate) = (bool_(), 2500);
    let m = [[ASSET0; 32], [ASSET0 + 1; 32]];
    let v = |i: u8| tok(ASSET0 + i, vs, u64_());
    S { st: recorded(&[0, 1], &m, rate, &vs, &[ADMIN; 32], CUSTOM_TAG, paused).0, vs, vault: [v(0), v(1), v(2)], paused, rate }
}
fn pool(s: &mut S) -> A { A::new(pk(POOL), &mut s.st, pk(PROGRAM)) }
fn head(kind: u8) -> Buf<32> {
    let mut b = Buf::<32>::new();
    b.u64(ADMIN_TAG);
    b.u8(kind);
    b
}
const MINTS: [[u8; 32]; 2] = [[ASSET0; 32], [ASSET0 + 1; 32]];
fn is(s: &S, want: ([u8; STATE_LEN], usize)) -> bool { s.st[..want.1] == want.0[..want.1] }
/// a token account the token program would call well formed and initialized
fn wf(t: &Tok) -> bool { ({ t.delegate_tag }) <= 1 && { t.native_tag } <= 1 && { t.close_tag } <= 1 && (t.state == 1 || t.state == 2) }

harnesses! {
    /// only the admin's signature moves the pool, and each instruction changes exactly what it is for
    fn admin_settings() {
        let mut s = setup();
        let k = choose(3);
        // Pause, UpdateFee, UpdateAdmin
        let mut d = head([0, 5, 6][k as usize]);
        let rate = u32_();
        if k == 1 { d.u32(rate); }
        let st0 = s.st;
        // who asks, and whether the account is a pool of this program at all
        let fault = choose(7);
        let (sig, nsig) = (fault != 1, bool_());
        let newadm = key32();
        let mut a = vec![pool(&mut s), A::bare(pk(ADMIN)).sign(sig), A::bare(solana_program::pubkey::Pubkey::new_from_array(newadm)).sign(nsig)];
        match fault {
            2 => { let x = key32(); assume(x != [ADMIN; 32]); a[1].key = solana_program::pubkey::Pubkey::new_from_array(x); }
            3 => { let x = key32(); assume(x != [PROGRAM; 32]); a[0].owner = solana_program::pubkey::Pubkey::new_from_array(x); }
            4 => { let t = u64_(); assume(t != STATE_TAG); s.st[..8].copy_from_slice(&t.to_le_bytes()); }
            5 => { let t = u64_(); assume(t != CUSTOM_TAG); s.st = recorded(&[0, 1], &MINTS, s.rate, &s.vs, &[ADMIN; 32], t, s.paused).0; }
            6 => { let t = u64_(); assume(t != ADMIN_TAG && t != REQ_TAG); d.b[..8].copy_from_slice(&t.to_le_bytes()); }
            _ => {}
        }
        let st0 = if fault == 4 || fault == 5 { s.st } else { st0 };
        let due = (fault == 0) && match k { 1 => rate >= 150 && rate < 1_000_000, 2 => nsig, _ => true };
        forbid_panic(true);
        let r = run(&mut a, d.s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == due, "the pool obeys exactly its admin's legal instructions");
        if r {
            let adm = if k == 2 { newadm } else { [ADMIN; 32] };
            prop!(is(&s, recorded(&[0, 1], &MINTS, if k == 1 { rate } else { s.rate }, &s.vs, &adm, CUSTOM_TAG, s.paused || k == 0)), "an instruction changes exactly what it is for");
        } else { prop!(s.st == st0, "a refused instruction changes nothing"); }
        witness!(r && k == 2, "new admin");
        witness!(r && k == 1, "new fee");
        witness!(!r && fault == 0 && k == 1, "refused: fee");
    }
    /// a pool resumes only when none of its vaults is lent out
    fn admin_unpause() {
        let mut s = setup();
        let i = choose(2) as usize;
        s.vault[i].delegate_tag = u32_();
        s.vault[i].delegated = u64_();
        s.vault[i].state = u8_();
        s.vault[i].mint = key32();
        s.vault[i].owner = key32();
        let fault = choose(5);
        let t = s.vault[i];
        let lent = { t.delegate_tag } == 1 && { t.delegated } > 0;
        let mut a = vec![pool(&mut s), A::bare(pk(ADMIN)).sign(true), A::spl(VAULT0, &mut s.vault[0]), A::spl(VAULT0 + 1, &mut s.vault[1])];
        match fault {
            1 => { a.pop(); }
            2 => { let x = key32(); assume(x != [VAULT0 + i as u8; 32]); a[2 + i].key = solana_program::pubkey::Pubkey::new_from_array(x); }
            3 => { let x = key32(); assume(x != spl_token::ID.to_bytes()); a[2 + i].owner = solana_program::pubkey::Pubkey::new_from_array(x); }
            4 => a.swap(2, 3),
            _ => {}
        }
        forbid_panic(true);
        let r = run(&mut a, head(1).s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == (fault == 0 && wf(&t) && !lent), "a pool resumes exactly if the admin shows all its vaults and none is lent out");
        prop!(is(&s, recorded(&[0, 1], &MINTS, s.rate, &s.vs, &[ADMIN; 32], CUSTOM_TAG, s.paused && !r)), "resuming changes nothing but the pause");
        witness!(r && s.paused, "resumed");
        witness!(!r && lent, "refused: lent out");
    }
    /// lending an asset out pauses the pool and approves exactly the given amount of that vault to the given account
    fn admin_approve() {
        let mut s = setup();
        let n = u64_();
        let mut d = head(2);
        d.u64(n);
        let i = choose(3) as usize;
        let fault = choose(5);
        let (st0, v0) = (s.st, s.vault);
        let mut a = vec![pool(&mut s), A::bare(pk(ADMIN)).sign(fault != 1), A::spl(VAULT0 + i as u8, &mut s.vault[i]), A::bare(pk(DELEG)), A::bare(solana_program::pubkey::Pubkey::new_from_array(s.vs)), A::bare(spl_token::ID)];
        match fault {
            2 => { let x = key32(); assume(x != s.vs); a[4].key = solana_program::pubkey::Pubkey::new_from_array(x); }
            3 => { let x = key32(); assume(x != spl_token::ID.to_bytes()); a[5].key = solana_program::pubkey::Pubkey::new_from_array(x); }
            4 => { let x = key32(); assume(x[0] != VAULT0 && x[0] != VAULT0 + 1); a[2].key = solana_program::pubkey::Pubkey::new_from_array(x); }
            _ => {}
        }
        forbid_panic(true);
        let r = run(&mut a, d.s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == (fault == 0 && i < 2), "an asset is lent out exactly by the admin, from the pool's own vaults");
        if r {
            let mut want = v0[i];
            want.delegate_tag = 1;
            want.delegate = [DELEG; 32];
            want.delegated = n;
            prop!(same(&s.vault[i], &want), "exactly the given amount is approved to the given account");
            prop!(is(&s, recorded(&[0, 1], &MINTS, s.rate, &s.vs, &[ADMIN; 32], CUSTOM_TAG, true)), "a pool with an asset lent out is paused");
        } else { prop!(s.st == st0 && same(&s.vault[i], &v0[i]), "a refused instruction changes nothing"); }
        witness!(r && i == 1, "approved");
        witness!(!r && i == 2 && fault == 0, "refused: not the pool's");
    }
    /// assets are added only with a vault of the pool's own, and removed only when the pool holds none of them
    fn admin_assets() {
        let mut s = setup();
        let add = choose(2) == 1;
        let i = choose(3) as usize;
        let fault = choose(4);
        if fault == 1 { s.vault[i].owner = key32(); s.vault[i].delegate_tag = choose(2) as u32; s.vault[i].delegate = s.vs; }
        if fault == 2 { s.vault[i].mint = if choose(2) == 0 { [ASSET0 + choose(2); 32] } else { key32() }; }
        if fault == 3 { s.vault[i].state = u8_(); }
        let t = s.vault[i];
        let st0 = s.st;
        let prog = choose(2) == 1;
        let mut a = vec![pool(&mut s), A::bare(pk(ADMIN)).sign(true), A::spl(VAULT0 + i as u8, &mut s.vault[i])];
        if prog { let x = key32(); assume(x != spl_token::ID.to_bytes()); a[2].owner = solana_program::pubkey::Pubkey::new_from_array(x); }
        let due = !prog && wf(&t) && if add { i == EXTRA as usize && t.mint != MINTS[0] && t.mint != MINTS[1] && t.owner == s.vs } else { i < 2 && { t.amount } == 0 };
        forbid_panic(true);
        let r = run(&mut a, head(if add { 3 } else { 4 }).s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == due, "assets change exactly as the rules allow");
        if r {
            let (m, vs, adm) = (MINTS, s.vs, [ADMIN; 32]);
            let want = if add { recorded(&[0, 1, 2], &[m[0], m[1], t.mint], s.rate, &vs, &adm, CUSTOM_TAG, s.paused) }
                else if i == 0 { recorded(&[1], &[m[1]], s.rate, &vs, &adm, CUSTOM_TAG, s.paused) }
                else { recorded(&[0], &[m[0]], s.rate, &vs, &adm, CUSTOM_TAG, s.paused) };
            prop!(is(&s, want), "exactly that asset is added or removed");
        } else { prop!(s.st == st0, "a refused instruction changes nothing"); }
        witness!(r && add, "added");
        witness!(r && !add && i == 0, "removed");
        witness!(!r && !add && i < 2 && !prog && { t.amount } > 0, "refused: not empty");
    }
    /// a paused pool neither issues nor redeems nor quotes; a running one serves whoever can pay
    fn admin_paused() {
        let mut w = W::new(1, 0, 2500);
        let (paused, quote, action, sig) = (choose(2) == 1, choose(2) == 1, choose(2), choose(2) == 1);
        w.st = recorded(&[0], &[MINTS[0]], 2500, &w.vs.to_bytes(), &[ADMIN; 32], CUSTOM_TAG, paused).0;
        w.mint.supply = 1_000_000;
        w.vault[0].amount = 5_000_000;
        w.user_pool.amount = bits(40);
        w.user[0].amount = bits(40);
        let n = [0u64, 10_000, 400_000][choose(3) as usize];
        let st0 = w.st;
        let b0 = w.balances();
        let mut a = if quote { w.basket_accounts() } else { w.exec_accounts(sig) };
        forbid_panic(true);
        let r = run(&mut a, &request(if quote { GET_BASKET } else { EXECUTE }, action, n));
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        let can = if action == CREATE { b0[4] >= n * 5 } else { b0[3] >= n };
        prop!(r == (!paused && (quote || (sig && can))), "requests are served exactly while the pool is not paused");
        prop!(w.st == st0, "requests leave the pool's settings alone");
        let b1 = w.balances();
        if r && !quote && n > 0 { prop!(if action == CREATE { b1[1] == b0[1] + 5 * n && b1[0] == b0[0] + n } else { b1[1] < b0[1] && b1[0] < b0[0] }, "the pool trades at its share"); }
        if !r || quote { prop!(b1 == b0, "nothing moves"); }
        witness!(r && !quote && n > 0 && action == CREATE, "created");
        witness!(!r && paused, "refused: paused");
    }
    /// whoever creates such a pool names its admin; it starts out running
    fn admin_init() {
        let vs = vsigner();
        let mut rent = [0u8; 17];
        rent[..8].copy_from_slice(&3480u64.to_le_bytes());
        rent[8..16].copy_from_slice(&0x4000000000000000u64.to_le_bytes());
        rent[16] = 50;
        let mut st = [0u8; STATE_LEN];
        let mut mint = mint_acc(vs.to_bytes(), 0);
        let (mut v0, mut lqd, mut ini) = (tok(ASSET0, vs.to_bytes(), 5), tok(MINT, FEE_OWNER, 0), tok(MINT, [STRANGER; 32], 0));
        let adm = key32();
        let named = choose(2) == 1;
        let rate = u32_();
        let mut a = vec![A::new(pk(POOL), &mut st, pk(PROGRAM)), A::spl(MINT, &mut mint), A::spl(VAULT0, &mut v0), A::bare(vs), A::spl(LQD, &mut lqd), A::spl(INITR, &mut ini),
            A::new(solana_program::sysvar::rent::ID, &mut rent, pk(0))];
        if named { a.push(A::bare(solana_program::pubkey::Pubkey::new_from_array(adm))); }
        let mut b = Buf::<32>::new();
        b.u64(REQ_TAG); b.u8(0); b.u8(NONCE); b.u8(1); b.u32(3); b.put(b"abc"); b.u32(rate); b.u32(0);
        forbid_panic(true);
        let r = run(&mut a, b.s());
        forbid_panic(false);
        std::mem::forget(a);
        observe(r as u64);
        prop!(r == (named && rate >= 150 && rate < 1_000_000), "a pool is created exactly with an admin and a legal fee");
        let want = recorded(&[0], &[MINTS[0]], rate, &vs.to_bytes(), &adm, CUSTOM_TAG, false);
        prop!(if r { st == want.0 } else { st == [0; STATE_LEN] }, "the pool records its admin and runs");
        witness!(r, "created");
    }
}

//! What the privileged keys can and cannot do, and what a disabled market still allows.
use crate::auth::*;
use crate::book::*;
use crate::orders::*;
use crate::rt::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

fn sym_pubkey() -> ([u64; 4], Pubkey) { let k = key4(); (k, Pubkey::new_from_array(unsafe { std::mem::transmute(k) })) }
fn sym_market(kind: u8) -> MAcc {
    let mut m = market();
    m.coin_deposits_total = u64_();
    m.pc_deposits_total = u64_();
    m.pc_fees_accrued = u64_();
    m.referrer_rebates_accrued = u64_();
    let mut a = if kind == 0 { MAcc::v1(m) } else { MAcc::v2(m) };
    if kind == 2 { let mut m = a.get(); m.account_flags |= F_CRANK; a.set(m); }
    a
}
fn disable() {
    let mut m = sym_market(choose(3));
    let was = choose(2) == 1;
    if was { let mut x = m.get(); x.account_flags |= F_DISABLED; m.set(x); }
    let m0 = m.get();
    let (k, key) = if choose(2) == 0 { sym_pubkey() } else { (to4(&DISABLE_AUTH), DISABLE_AUTH) };
    let signed = bool_();
    let mut a = vec![m.acc(), A::bare(key).sign(signed)];
    let expect = signed && !was && k == to4(&DISABLE_AUTH);
    let ok = call_due(expect, &mut a, &[0, 7, 0, 0, 0]);
    observe(ok as u64);
    prop!(ok == expect, "only the disable authority, signing, disables a market");
    let mut e = m0;
    if ok { e.account_flags |= F_DISABLED; }
    prop!(same(&m.get(), &e), "disabling changes nothing but the flag");
    witness!(ok, "disabled");
}
fn sweep() {
    let mut m = sym_market(choose(3));
    let was = choose(2) == 1;
    if was { let mut x = m.get(); x.account_flags |= F_DISABLED; m.set(x); }
    let m0 = m.get();
    let (k, key) = if choose(2) == 0 { sym_pubkey() } else { (to4(&SWEEPER), SWEEPER) };
    let signed = bool_();
    let (v0, r0) = (u64_(), u64_());
    let mut pv = tok(PC_MINT, VSIGNER_BYTES, v0);
    let mut rcv = tok(PC_MINT, [STRANGER; 32], r0);
    let mut a = vec![m.acc(), A::tok(PC_VAULT, &mut pv), A::bare(key).sign(signed), A::tok(REFERRER, &mut rcv), A::bare(VSIGNER), A::bare(spl_token::ID)];
    let fees = m0.pc_fees_accrued;
    let auth = signed && !was && k == to4(&SWEEPER);
    let ok = call_due(auth && fees <= v0 && r0.checked_add(fees).is_some(), &mut a, &[0, 8, 0, 0, 0]);
    observe(ok as u64);
    if ok {
        prop!(auth, "only the sweep authority, signing, sweeps fees");
        prop!(pv.amount == v0.wrapping_sub(fees) && fees <= v0 && rcv.amount == r0.wrapping_add(fees), "a sweep pays exactly the accrued fees");
        let mut e = m0;
        e.pc_fees_accrued = 0;
        prop!(same(&m.get(), &e), "a sweep clears the accrued fees and touches no trader's record");
    } else {
        prop!(!(auth && fees <= v0 && r0.checked_add(fees).is_some()), "the sweep authority can always sweep a covered fee");
    }
    witness!(ok, "swept");
}
/// who may process events, who may prune
fn crank() {
    let kind = choose(3);
    let perm = choose(2) == 1;
    let mut x = scene(kind > 0, kind == 2, false);
    let disabled = choose(2) == 1;
    if disabled { let mut m = x.l.m.get(); m.account_flags |= F_DISABLED; x.l.m.set(m); }
    let (k, key) = if choose(2) == 0 { sym_pubkey() } else { (k4(CRANK_AUTH), pk(CRANK_AUTH)) };
    let signed = bool_();
    let l = &mut x.l;
    let mut a = vec![A::dex(OO, l.oo[0].bytes()), l.m.acc(), A::dex(EVENT_Q, l.eq.bytes()), A::bare(key).sign(signed)];
    if !perm { a.push(A::bare(pk(STRANGER))); }
    let expect = if perm { kind == 2 && signed && k == k4(CRANK_AUTH) } else { kind != 2 };
    let ok = call_due(expect, &mut a, &[0, if perm { 17 } else { 3 }, 0, 0, 0, 5, 0]);
    observe(ok as u64);
    prop!(ok == expect, "events are processed by the crank authority where there is one, otherwise by anyone");
    if ok { prop!(l.eq.v.h.count == 0 && l.oo[0].v.native_coin_free == 59, "the pending event was applied"); }
    else { prop!(l.eq.v.h.count == 1 && l.oo[0].v.native_coin_free == 50, "a refusal leaves the events alone"); }
    witness!(ok && perm, "permissioned crank");
    witness!(ok && !perm && kind == 1, "open crank on a permissioned market");
}
fn prune() {
    let kind = choose(3);
    let mut x = scene(kind > 0, kind == 2, false);
    let disabled = choose(2) == 1;
    if disabled { let mut m = x.l.m.get(); m.account_flags |= F_DISABLED; x.l.m.set(m); }
    let (k, key) = if choose(2) == 0 { sym_pubkey() } else { (k4(PRUNE_AUTH), pk(PRUNE_AUTH)) };
    let signed = bool_();
    let owner_signed = bool_();
    let l = &mut x.l;
    let mut a = vec![l.m.acc(), A::dex(BIDS, l.bids.bytes()), A::dex(ASKS, l.asks.bytes()), A::bare(key).sign(signed), A::dex(OO, l.oo[0].bytes()), A::bare(pk(OWNER)).sign(owner_signed), A::dex(EVENT_Q, l.eq.bytes())];
    let expect = kind > 0 && !disabled && signed && k == k4(PRUNE_AUTH);
    let ok = call_due(expect, &mut a, &[0, 16, 0, 0, 0, 50, 0]);
    observe(ok as u64);
    prop!(ok == expect, "only the market's prune authority, signing, prunes orders");
    if !ok { prop!(l.bids.v.h.leaves == 1 && l.asks.v.h.leaves == 1 && l.eq.v.h.count == 1, "a refusal leaves the book alone"); }
    witness!(ok, "pruned");
}
/// On a disabled market exiting works as before, and nothing else works at all.
fn disabled(ix: u8) {
    let v2 = ix == 8 || ix == 13 || choose(2) == 1;
    let exit = matches!(ix, 3..=8 | 11);
    let sym = !exit;
    let x = scene(v2, ix == 8, sym);
    let (mut x1, mut x2) = (x.clone(), x.clone());
    let mut m = x1.l.m.get();
    m.account_flags |= F_DISABLED;
    x1.l.m.set(m);
    let mut r = solana_rent();
    if !exit {
        let (mut a, _k, d) = list(&mut x1, ix, &mut r, sym);
        let ok = call(&mut a, &d);
        observe(ok as u64);
        prop!(!ok, "a disabled market accepts no new order, swap, account, prune or sweep");
        witness!(!ok, "refused");
    } else {
        let (mut a, _k, d) = list(&mut x1, ix, &mut r, sym);
        let ok1 = call_due(true, &mut a, &d);
        let (mut a, _k, d) = list(&mut x2, ix, &mut r, sym);
        let ok2 = call_due(true, &mut a, &d);
        observe(ok1 as u64);
        prop!(ok1 == ok2, "cancelling, settling, processing events and closing work on a disabled market as on an open one");
        let mut m = x1.l.m.get();
        m.account_flags &= !F_DISABLED;
        prop!(same(&m, &x2.l.m.get()), "a disabled market accounts like an open one");
        prop!(same(&x1.l.oo[0], &x2.l.oo[0]) && same(&x1.l.oo[1], &x2.l.oo[1]), "accounts on a disabled market change like on an open one");
        prop!(same(&x1.l.eq, &x2.l.eq) && same(&x1.l.bids, &x2.l.bids) && same(&x1.l.asks, &x2.l.asks), "books and queues of a disabled market change like on an open one");
        prop!(same(&x1.l.cw, &x2.l.cw) && same(&x1.l.pw, &x2.l.pw) && same(&x1.l.cv, &x2.l.cv) && same(&x1.l.pv, &x2.l.pv), "a disabled market pays like an open one");
        witness!(ok1, "exit");
    }
}
harnesses! {
    fn power_disable() { disable() }
    fn power_sweep() { sweep() }
    fn power_crank() { crank() }
    fn power_prune() { prune() }
    fn disabled_entry() { disabled([0, 1, 2, 9, 10, 12, 13, 14, 15][choose(9) as usize]) }
    fn disabled_exit() { disabled([3, 4, 5, 6, 7, 8, 11][choose(7) as usize]) }
}

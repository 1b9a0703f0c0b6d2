use crate::rt::*;
use crate::world::*;

struct W { m: MAcc, oo: Acc<Oo>, cv: Tok, pv: Tok, cw: Tok, pw: Tok, rf: Tok }

fn setup() -> W {
    let mut m = market();
    m.coin_deposits_total = u64_();
    m.pc_deposits_total = u64_();
    m.pc_fees_accrued = u64_();
    m.referrer_rebates_accrued = u64_();
    if bool_() { m.account_flags |= F_DISABLED; }
    let mut oo = open_orders(OWNER);
    sym_oo_balances(&mut oo);
    oo.referrer_rebates_accrued = u64_();
    oo.free_slot_bits = u128_();
    oo.is_bid_bits = u128_();
    oo.orders[3] = u128_();
    oo.client_order_ids[3] = u64_();
    // the ledger invariant: this account's funds are part of the market's
    assume(oo.native_coin_total <= m.coin_deposits_total);
    assume(oo.native_pc_total <= m.pc_deposits_total);
    assume(oo.referrer_rebates_accrued <= m.referrer_rebates_accrued);
    let (cv0, pv0) = (u64_(), u64_());
    // fees, rebates and deposits are all backed by the vault, hence their sum fits
    assume(m.coin_deposits_total <= cv0);
    let s1 = m.pc_deposits_total.checked_add(m.pc_fees_accrued);
    assume(s1.is_some());
    let s2 = s1.unwrap_or(0).checked_add(m.referrer_rebates_accrued);
    assume(s2.is_some());
    assume(s2.unwrap_or(0) <= pv0);
    let m = if choose(2) == 0 { MAcc::v1(m) } else { MAcc::v2(m) };
    W { m, oo: Acc::new(oo), cv: tok(COIN_MINT, VSIGNER_BYTES, cv0), pv: tok(PC_MINT, VSIGNER_BYTES, pv0),
        cw: tok(COIN_MINT, [OWNER; 32], u64_()), pw: tok(PC_MINT, [OWNER; 32], u64_()), rf: tok(PC_MINT, [STRANGER; 32], u64_()) }
}

fn run(w: &mut W, signer: bool, with_ref: bool) -> bool {
    let mut a = [w.m.acc(), A::dex(OO, w.oo.bytes()), A::bare(pk(OWNER)).sign(signer), A::tok(COIN_VAULT, &mut w.cv),
        A::tok(PC_VAULT, &mut w.pv), A::tok(COIN_WALLET, &mut w.cw), A::tok(PC_WALLET, &mut w.pw), A::bare(VSIGNER),
        A::bare(spl_token::ID), A::tok(REFERRER, &mut w.rf)];
    let n = if with_ref { 10 } else { 9 };
    call(&mut a[..n], &[0, 5, 0, 0, 0])
}

harnesses! {
    fn settle_pays_exact() {
        let mut w = setup();
        let (m0, oo0) = (w.m.get(), w.oo.v);
        let (cv0, pv0, cw0, pw0, rf0) = (w.cv.amount, w.pv.amount, w.cw.amount, w.pw.amount, w.rf.amount);
        let (signer, with_ref) = (bool_(), choose(2) == 1);
        let r = run(&mut w, signer, with_ref);
        let (m1, oo1) = (w.m.get(), w.oo.v);
        observe(r as u64); obs_oo(&oo1); obs_mkt(&m1);
        if r {
            let (c, p, rb) = (oo0.native_coin_free, oo0.native_pc_free, oo0.referrer_rebates_accrued);
            let to_ref = if with_ref { rb } else { 0 };
            prop!(signer, "settlement requires the owner's signature");
            prop!({ w.cw.amount } == cw0.wrapping_add(c) && { w.pw.amount } == pw0.wrapping_add(p), "wallets receive exactly the free balances");
            prop!({ w.rf.amount } == rf0.wrapping_add(to_ref), "the referrer receives exactly the accrued rebate");
            prop!({ w.cv.amount } == cv0 - c && { w.pv.amount } == pv0 - p - to_ref, "vaults are debited exactly what was paid");
            let mut eo = oo0;
            eo.native_coin_free = 0;
            eo.native_pc_free = 0;
            eo.native_coin_total = oo0.native_coin_total - c;
            eo.native_pc_total = oo0.native_pc_total - p;
            eo.referrer_rebates_accrued = 0;
            prop!(same(&eo, &oo1), "only the settled balances of the open-orders account change");
            let mut em = m0;
            em.coin_deposits_total = m0.coin_deposits_total - c;
            em.pc_deposits_total = m0.pc_deposits_total - p;
            em.referrer_rebates_accrued = m0.referrer_rebates_accrued - rb;
            em.pc_fees_accrued = m0.pc_fees_accrued + (rb - to_ref);
            prop!(same(&em, &m1), "market totals drop by exactly what was settled");
        }
        witness!(r && with_ref && oo0.native_coin_free > 0 && oo0.native_pc_free > 0 && oo0.referrer_rebates_accrued > 0, "settles with referrer");
        witness!(r && !with_ref && oo0.referrer_rebates_accrued > 0, "settles without referrer");
        witness!(!r, "can be refused");
    }
    fn settle_always_possible() {
        let mut w = setup();
        // destination balances cannot overflow the mint's supply
        assume({ w.cw.amount }.checked_add(w.cv.amount).is_some());
        assume({ w.pw.amount }.checked_add(w.pv.amount).is_some());
        assume({ w.rf.amount }.checked_add(w.pv.amount).is_some());
        let with_ref = choose(2) == 1;
        let dis = w.m.get().account_flags & F_DISABLED != 0;
        forbid_panic(true);
        let r = run(&mut w, true, with_ref);
        observe(r as u64);
        prop!(r, "the owner of a consistent account can settle, also on a disabled market");
        witness!(r && dis, "disabled market");
        witness!(r && !dis, "enabled market");
    }
}

//! Creating and redeeming pool tokens.
use crate::rt::*;
use crate::world::*;

/// the fee schedule: (total, lqd, referrer, initializer) for `n` pool tokens at `rate` per million
pub fn fees(rate: u32, n: u64) -> (u64, u64, u64, u64) {
    if n == 0 { return (0, 0, 0, 0); }
    let total = ((n as u128 * rate as u128 + 999_999) / 1_000_000) as u64;
    let a = (total as u128 * 2 / 5) as u64;
    let b = (n as u128 + 9_999) as u128 / 10_000;
    let lqd = if a as u128 >= b { a } else { b as u64 };
    let rest = total - lqd;
    let rf = if lqd / 2 < rest { lqd / 2 } else { rest };
    (total, lqd, rf, rest - rf)
}
/// the program's own fee split, which `pool_fee_split` holds against the schedule for every amount
fn split(rate: u32, n: u64) -> (u64, u64, u64, u64) {
    let f = serum_pool::context::Fees::from_fee_rate_and_tokens(rate, n).unwrap();
    (f.lqd_fee + f.referrer_fee + f.initializer_fee, f.lqd_fee, f.referrer_fee, f.initializer_fee)
}
fn sym_balances(w: &mut W) {
    w.user_pool.amount = u64_();
    w.user[0].amount = u64_();
    w.user[1].amount = u64_();
    w.lqd.amount = u64_();
    w.initr.amount = u64_();
    w.rf.amount = u64_();
}
/// checks one create or redeem against the pro-rata price; the rounding is stated as an inequality, not as a division
fn judge(w: &W, b0: [u64; 9], st0: &[u8; STATE_LEN], action: u8, n: u64, rate: u32, signer: bool) {
    let b1 = w.balances();
    let (total, lqd, rf, ini) = split(rate, n);
    let s = b0[0] as u128;
    prop!(signer, "nothing happens without the user's signature");
    prop!(w.st == *st0, "the pool's configuration is unchanged");
    prop!(b1[6] == b0[6] + lqd && b1[7] == b0[7] + ini && b1[8] == b0[8] + rf, "each fee account receives exactly its share of the fee");
    let mut i = 0;
    while i < w.n {
        let (q0, q1, u0, u1) = (b0[1 + i] as u128, b1[1 + i] as u128, b0[4 + i] as u128, b1[4 + i] as u128);
        prop!(q0 + u0 == q1 + u1, "assets are neither created nor destroyed");
        if action == CREATE {
            let paid = q1.wrapping_sub(q0);
            prop!(q1 >= q0 && paid * s >= q0 * n as u128, "a creation pays at least the pro-rata share of every asset");
            prop!(paid * s < q0 * n as u128 + s, "a creation pays at most one unit of rounding more than its share");
        } else {
            let net = (n - total) as u128;
            let got = q0.wrapping_sub(q1);
            prop!(q1 <= q0 && got * s <= q0 * net, "a redemption pays at most the pro-rata share of every asset");
            prop!(got * s + s > q0 * net, "a redemption loses at most one unit to rounding");
        }
        i += 1;
    }
    if action == CREATE {
        prop!(b1[0] == b0[0] + n && b1[3] == b0[3] + (n - total), "a creation issues exactly the requested tokens, fees included");
    } else {
        prop!(b1[3] == b0[3] - n && b1[0] == b0[0] - (n - total), "a redemption takes exactly the redeemed tokens and burns all but the fee");
    }
}
fn step(w: &mut W, action: u8, n: u64, rate: u32, live: bool) -> bool {
    let signer = bool_();
    let (b0, st0) = (w.balances(), w.st);
    // whoever can pay is served (quantities of a basket are signed 64-bit numbers)
    let (s, big) = (b0[0] as u128, 1u64 << 62);
    let mut due = live && signer && s > 0 && b0[6] < big && b0[7] < big && b0[8] < big && n < big;
    let mut i = 0;
    while i < w.n {
        let (q, u) = (b0[1 + i], b0[4 + i]);
        due &= q < big && u < big;
        if action == CREATE { due &= q as u128 * n as u128 <= u as u128 * s; }
        i += 1;
    }
    due &= if action == CREATE { b0[0] < big && b0[3] < big } else { n <= b0[3] && n as u128 <= s };
    forbid_panic(due);
    let r = w.exec(signer, action, n);
    forbid_panic(false);
    observe(r as u64);
    w.observe();
    prop!(r || !due, "a request the user can pay for is carried out");
    if r { judge(w, b0, &st0, action, n, rate, signer); }
    r
}
const RATES: [u32; 6] = [150, 2500, 151, 333_333, 999_999, 100_000];

/// any 64-bit request against fixed holdings
fn any_request(action: u8, k: usize, nr: u8, nb: u32) {
    let rate = RATES[choose(nr) as usize];
    let mut w = W::new(2, 0, rate);
    sym_balances(&mut w);
    let (s, q0, q1) = [(1_000_000u64, 3u64, 5_000_000_000u64), (7, 1_000_000_007, 0), (1, 1, 12345), ((1 << 32) + 15, 1 << 36, 77)][k];
    w.mint.supply = s;
    w.vault[0].amount = q0;
    w.vault[1].amount = q1;
    let n = bits(nb);
    let r = step(&mut w, action, n, rate, action == REDEEM && (k == 1 || k == 2));
    witness!(r && n > 0, "accepted");
    witness!(!r, "refused");
}
/// any 64-bit holdings against fixed requests
fn any_holdings(action: u8) {
    let rate = RATES[choose(2) as usize];
    let mut w = W::new(2, 0, rate);
    sym_balances(&mut w);
    let (s, n) = [(1_000_000u64, 1u64), (1_000_000, 999_999), (7, 3), (3, 10_001), (1 << 40, (1 << 33) + 1), (1_000_003, 250_000), (1 << 60, (1 << 52) + 1)][choose(7) as usize];
    w.mint.supply = s;
    w.vault[0].amount = u64_();
    w.vault[1].amount = u64_();
    let r = step(&mut w, action, n, rate, true);
    witness!(r && { w.vault[0].amount } > 1 << 50, "accepted");
    witness!(!r, "refused");
}
/// any small supply, holding and request together
fn all_small(action: u8) {
    let rate = RATES[choose(2) as usize];
    let mut w = W::new(1, 0, rate);
    sym_balances(&mut w);
    w.mint.supply = bits(6);
    w.vault[0].amount = bits(6);
    let n = bits(6);
    let r = step(&mut w, action, n, rate, true);
    witness!(r && n > 0, "accepted");
    witness!(!r, "refused");
}

harnesses! {
    fn pool_create_any_request0() { any_request(CREATE, 0, 2, 64) }
    fn pool_create_any_request1() { any_request(CREATE, 1, 2, 64) }
    fn pool_create_any_request2() { any_request(CREATE, 2, 2, 64) }
    fn pool_create_any_request3() { any_request(CREATE, 3, 2, 64) }
    fn pool_redeem_any_request0() { any_request(REDEEM, 0, 2, 64) }
    fn pool_redeem_any_request1() { any_request(REDEEM, 1, 2, 64) }
    fn pool_redeem_any_request2() { any_request(REDEEM, 2, 2, 64) }
    fn pool_redeem_any_request3() { any_request(REDEEM, 3, 2, 64) }
    fn pool_create_any_holdings() { any_holdings(CREATE) }
    fn pool_redeem_any_holdings() { any_holdings(REDEEM) }
    fn pool_create_small() { all_small(CREATE) }
    fn pool_redeem_small() { all_small(REDEEM) }
    /// the fee split itself, any amount at fixed rates and any rate at fixed amounts
    fn pool_fee_split() {
        let (rate, n) = if choose(2) == 0 { (RATES[choose(6) as usize], u64_()) }
            else { (u32_(), [0u64, 1, 9_999, 10_000, 10_001, 1 << 62, 123_456_789][choose(7) as usize]) };
        forbid_panic(rate >= 150 && rate < 1_000_000 && n <= 1 << 62);
        let r = serum_pool::context::Fees::from_fee_rate_and_tokens(rate, n);
        forbid_panic(false);
        observe(r.is_ok() as u64);
        if let Ok(f) = &r {
            let (total, lqd, rf, ini) = fees(rate, n);
            observe(f.lqd_fee); observe(f.referrer_fee); observe(f.initializer_fee);
            prop!(rate >= 150 && rate < 1_000_000, "fee rates outside 0.015% .. 100% are refused");
            prop!(f.lqd_fee == lqd && f.referrer_fee == rf && f.initializer_fee == ini, "the fee is split as specified");
            prop!(f.total_fee() == total && total <= n, "the parts add up to the rate, rounded up");
        } else {
            prop!(rate < 150 || rate >= 1_000_000, "legal fee rates are accepted");
        }
        witness!(r.is_ok() && n > 1 << 61, "large amount");
        witness!(r.is_err(), "refused");
    }
    /// a user who redeems from or creates into a fee account pays no fee to himself
    fn pool_fee_exempt() {
        let rate = 2500;
        let mut w = W::new(1, 0, rate);
        sym_balances(&mut w);
        w.vault[0].amount = 77;
        let n = bits(40);
        let (total, lqd, rf, ini) = split(rate, n);
        let (who, action) = (choose(3), choose(2));
        let b0 = w.balances();
        let mut a = w.exec_accounts(true);
        // the user's pool-token account is one of the fee accounts
        a[4] = { let k = 7 + who as usize; A { key: a[k].key, signer: false, lamports: a[k].lamports, data: a[k].data, len: a[k].len, owner: a[k].owner } };
        if who == 0 { w.lqd.delegate_tag = 1; w.lqd.delegate = [USER; 32]; w.lqd.delegated = u64::MAX; }
        if who == 1 { w.initr.owner = [USER; 32]; }
        if who == 2 { w.rf.owner = [USER; 32]; }
        let big = 1 << 60;
        let mut due = { w.user[0].amount } < big && { w.lqd.amount } < big && { w.initr.amount } < big && { w.rf.amount } < big && n < 1_000_000;
        due &= if action == CREATE { b0[4] > 77 } else { n <= b0[6 + who as usize] };
        forbid_panic(due);
        let r = process(&mut a, &request(EXECUTE, action, n));
        forbid_panic(false);
        std::mem::forget(a);
        let b1 = w.balances();
        observe(r as u64); w.observe();
        prop!(r || !due, "a request the user can pay for is carried out");
        let fee = if who == 0 { 0 } else if who == 1 { total - ini } else { total - rf };
        if r {
            let at = 6 + who as usize;
            if action == CREATE {
                prop!(b1[at] == b0[at] + (n - fee) && b1[0] == b0[0] + n, "the holder of a fee account pays no fee to himself on creation");
            } else {
                prop!(b1[at] == b0[at] - n && b1[0] == b0[0] - (n - fee), "the holder of a fee account pays no fee to himself on redemption");
            }
            prop!(who == 0 || b1[6] == b0[6] + lqd, "the protocol's part of the fee is still paid");
            prop!(who != 1 || b1[8] == b0[8] + rf, "the referrer's part of the fee is still paid");
            prop!(who != 2 || b1[7] == b0[7] + ini, "the initializer's part of the fee is still paid");
        }
        witness!(r && n > 1_000_000 && who == 2, "accepted");
    }
    /// the quoted basket is the one an execution would use, and quoting changes nothing
    fn pool_quote() {
        let mut w = W::new(2, 0, 2500);
        sym_balances(&mut w);
        w.mint.supply = 1_000_003;
        let sym = choose(2) == 0;
        let n = if sym { 250_001 } else { bits(8) };
        w.vault[0].amount = if sym { bits(8) } else { 250_001 };
        w.vault[1].amount = if sym { 5 } else { 0 };
        let action = choose(2);
        let (b0, st0) = (w.balances(), w.st);
        let mut a = w.basket_accounts();
        let r = process(&mut a, &request(GET_BASKET, action, n));
        std::mem::forget(a);
        observe(r as u64);
        prop!(w.balances() == b0 && w.st == st0, "a quote changes nothing");
        if r {
            let (d, len) = unsafe { (RET, RETLEN) };
            let rd = |o: usize| u64::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3], d[o + 4], d[o + 5], d[o + 6], d[o + 7]]);
            observe(rd(12)); observe(rd(20));
            prop!(len == 28 && rd(0) == 0 && d[8..12] == [2, 0, 0, 0], "the quote is written as a vector with one entry per asset");
            let s = b0[0] as u128;
            let mut i = 0;
            while i < 2 {
                let (q, g) = (b0[1 + i] as u128 * n as u128, rd(12 + 8 * i) as u128);
                if action == CREATE { prop!(g * s >= q && g * s < q + s, "a creation is quoted at the pro-rata price rounded up"); }
                else { prop!(g * s <= q && g * s + s > q, "a redemption is quoted at the pro-rata price rounded down"); }
                i += 1;
            }
        }
        witness!(r && n > 0, "quoted");
    }
    /// requests that a pool without swaps, or without tokens, must refuse
    fn pool_refuses() {
        let mut w = W::new(2, 0, 2500);
        sym_balances(&mut w);
        let kind = choose(4);
        w.mint.supply = if kind == 0 { 0 } else { u64_() };
        w.vault[0].amount = u64_();
        w.vault[1].amount = u64_();
        let (b0, st0) = (w.balances(), w.st);
        let mut a = w.exec_accounts(true);
        let r = if kind == 0 { process(&mut a, &request(EXECUTE, choose(2), u64_())) }
            else if kind == 1 {
                let mut b = Buf::<30>::new();
                b.u64(REQ_TAG); b.u8(EXECUTE); b.u8(2); b.u32(2); b.u64(u64_()); b.u64(u64_());
                process(&mut a, &b.b)
            } else if kind == 2 {
                // an instruction that is not of the pool protocol
                let mut d = request(EXECUTE, choose(2), u64_());
                let t = u64_();
                assume(t != REQ_TAG);
                d[..8].copy_from_slice(&t.to_le_bytes());
                process(&mut a, &d)
            } else { process(&mut a, &request(EXECUTE, choose(2), u64_())[..17]) };
        std::mem::forget(a);
        observe(r as u64);
        prop!(!r, "empty pools, swaps, foreign and truncated requests are refused");
        prop!(w.balances() == b0 && w.st == st0 && unsafe { CALLS } == 0, "a refused request moves nothing");
        witness!(!r, "refused");
    }
}

//! Every transaction the client side builds is the one asked for.
use crate::rt::*;
use crate::world::*;
use serum_dex::instruction::{NewOrderInstructionV3, SelfTradeBehavior};
use serum_dex::matching::{OrderType, Side};
use std::num::NonZeroU64;

const OO_LEN: usize = 3228;
fn nz() -> NonZeroU64 { let v = u64_(); assume(v != 0); NonZeroU64::new(v).unwrap() }

fn place() {
    let c = RpcClient::new(String::new());
    let (payer, wallet, m) = (keypair(0x31), pk(0x41), market());
    let good = faults();
    let given = choose(2) == 1;
    let mut orders = if given { Some(pk(0x42)) } else { None };
    let (side, stb, ty) = (choose(2), choose(3), choose(3));
    let o = NewOrderInstructionV3 {
        side: if side == 0 { Side::Bid } else { Side::Ask }, limit_price: nz(), max_coin_qty: nz(), max_native_pc_qty_including_fees: nz(),
        self_trade_behavior: match stb { 0 => SelfTradeBehavior::DecrementTake, 1 => SelfTradeBehavior::CancelProvide, _ => SelfTradeBehavior::AbortTransaction },
        order_type: match ty { 0 => OrderType::Limit, 1 => OrderType::ImmediateOrCancel, _ => OrderType::PostOnly },
        client_order_id: u64_(), limit: u16_(), max_ts: i64_(),
    };
    let mut d = vec![0, 10, 0, 0, 0, side, 0, 0, 0];
    d.extend_from_slice(&o.limit_price.get().to_le_bytes());
    d.extend_from_slice(&o.max_coin_qty.get().to_le_bytes());
    d.extend_from_slice(&o.max_native_pc_qty_including_fees.get().to_le_bytes());
    d.extend_from_slice(&le32(stb as u32));
    d.extend_from_slice(&le32(ty as u32));
    d.extend_from_slice(&o.client_order_id.to_le_bytes());
    d.extend_from_slice(&o.limit.to_le_bytes());
    d.extend_from_slice(&o.max_ts.to_le_bytes());
    let sim = solana_client::node().simulation_fails;
    let ok = crank::place_order(&c, &pk(DEX), &payer, &wallet, &m, &mut orders, o).is_ok();
    observe(ok as u64);
    prop!(ok == (good || sim), "placing an order succeeds exactly when the node takes the transaction");
    prop!(sent().len() == ok as usize, "exactly one transaction is sent");
    if !ok { return; }
    let oo = orders.unwrap();
    prop!(!given || oo == pk(0x42), "the named trading account is used");
    let mut want = vec![];
    if !given { want.push(create_account(payer.pubkey(), oo, OO_LEN, pk(DEX))); }
    want.push(Ix { program: pk(DEX), data: d, acc: vec![rw(pk(0x21)), rw(oo), rw(pk(0x22)), rw(pk(0x23)), rw(pk(0x24)), rw(pk(0x25)), rw(wallet), sig(payer.pubkey()),
        rw(pk(0x26)), rw(pk(0x27)), ro(spl_token::ID), ro(solana_sdk::sysvar::rent::ID)] });
    prop!(same(&sent()[0], payer.pubkey(), &want), "the order sent is the order asked for, with the market's accounts and the payer's signature");
    witness!(!given, "with a new account");
}

fn one(ok: bool, good: bool, payer: Pubkey, want: Ix) {
    observe(ok as u64);
    prop!(ok == good, "the command succeeds exactly when simulation and submission do");
    prop!(sent().len() == ok as usize, "one transaction is sent, and none after a failed simulation");
    if ok { prop!(same(&sent()[0], payer, &[want]), "the transaction is the one asked for"); }
    witness!(ok, "sent");
}
fn cancel() {
    let c = RpcClient::new(String::new());
    let (owner, m, oo, good, id) = (keypair(0x31), market(), pk(0x42), faults(), u64_());
    let ok = crank::cancel_order_by_client_order_id(&c, &pk(DEX), &owner, &m, &oo, id).is_ok();
    let mut d = vec![0, 12, 0, 0, 0];
    d.extend_from_slice(&id.to_le_bytes());
    one(ok, good, owner.pubkey(), Ix { program: pk(DEX), data: d,
        acc: vec![rw(pk(0x21)), rw(pk(0x24)), rw(pk(0x25)), rw(oo), sig(owner.pubkey()), rw(pk(0x23))] });
}
fn cancel_batch() {
    let c = RpcClient::new(String::new());
    let (owner, m, oo, good) = (keypair(0x31), market(), pk(0x42), faults());
    let ids = [u64_(), u64_(), u64_(), u64_(), u64_(), u64_(), u64_(), u64_()];
    let ok = crank::cancel_orders_by_client_order_ids(&c, &pk(DEX), &owner, &m, &oo, ids).is_ok();
    let mut d = vec![0, 18, 0, 0, 0];
    for i in ids { d.extend_from_slice(&i.to_le_bytes()); }
    one(ok, good, owner.pubkey(), Ix { program: pk(DEX), data: d,
        acc: vec![rw(pk(0x21)), rw(pk(0x24)), rw(pk(0x25)), rw(oo), sig(owner.pubkey()), rw(pk(0x23))] });
}
fn close() {
    let c = RpcClient::new(String::new());
    let (owner, m, oo, good) = (keypair(0x31), market(), pk(0x42), faults());
    let ok = crank::close_open_orders(&c, &pk(DEX), &owner, &m, &oo).is_ok();
    one(ok, good, owner.pubkey(), Ix { program: pk(DEX), data: vec![0, 14, 0, 0, 0],
        acc: vec![rw(oo), sig(owner.pubkey()), rw(owner.pubkey()), ro(pk(0x21))] });
}
fn init() {
    let c = RpcClient::new(String::new());
    let (owner, m) = (keypair(0x31), market());
    solana_client::node().rent_per_byte = u32_() as u64;
    let fails = bool_();
    solana_client::node().send_fails = fails;
    let given = choose(2) == 1;
    let mut orders = if given { Some(pk(0x42)) } else { None };
    let ok = crank::init_open_orders(&c, &pk(DEX), &owner, &m, &mut orders).is_ok();
    observe(ok as u64);
    prop!(ok == !fails && sent().len() == ok as usize, "one transaction is sent");
    if !ok { return; }
    let oo = orders.unwrap();
    prop!(!given || oo == pk(0x42), "the named trading account is used");
    let mut want = vec![];
    if !given { want.push(create_account(owner.pubkey(), oo, OO_LEN, pk(DEX))); }
    want.push(Ix { program: pk(DEX), data: vec![0, 15, 0, 0, 0], acc: vec![rw(oo), sig(owner.pubkey()), ro(pk(0x21)), ro(solana_sdk::sysvar::rent::ID)] });
    prop!(same(&sent()[0], owner.pubkey(), &want), "the account is created rent exempt for the DEX and opened for its owner");
    witness!(!given, "new account");
}
fn list() {
    let c = RpcClient::new(String::new());
    let payer = keypair(0x31);
    let (cl, pl) = (u64_(), u64_());
    solana_client::node().rent_per_byte = u32_() as u64;
    let sim = bool_();
    solana_client::node().simulation_fails = sim;
    let r = crank::list_market(&c, &pk(DEX), &payer, &pk(0x51), &pk(0x52), cl, pl);
    observe(r.is_ok() as u64);
    prop!(r.is_ok() == !sim, "listing succeeds exactly when the simulation does");
    prop!(sent().len() == if sim { 2 } else { 3 }, "a market is only listed after a successful simulation");
    let r = match r { Ok(r) => r, Err(_) => return };
    let vs = *r.vault_signer_key;
    let t = sent();
    prop!(same(&t[0], payer.pubkey(), &[create_account(payer.pubkey(), *r.coin_vault, 165, spl_token::ID), init_token(*r.coin_vault, pk(0x51), vs)]), "the base vault is a token account of the market's signer");
    prop!(same(&t[1], payer.pubkey(), &[create_account(payer.pubkey(), *r.pc_vault, 165, spl_token::ID), init_token(*r.pc_vault, pk(0x52), vs)]), "the quote vault is a token account of the market's signer");
    let m = &t[2].message;
    if m.instructions.len() != 6 || m.instructions[5].data.len() != 39 { prop!(false, "five accounts are created and the market initialised"); return; }
    let keys = [*r.market, *r.req_q, *r.event_q, *r.bids, *r.asks];
    let mut want = vec![];
    let mut i = 0;
    while i < 5 {
        let d = &m.instructions[i].data;
        if d.len() != 52 { prop!(false, "the first five instructions create accounts"); return; }
        let mut b = [0; 8];
        b.copy_from_slice(&d[12..20]);
        let n = u64::from_le_bytes(b) as usize;
        let min = [388, 12 + 32 + 80, 12 + 32 + 88 * 128, 12 + 40 + 72 * 101, 12 + 40 + 72 * 101][i];
        prop!(n % 8 == 4 && if i == 0 { n == min } else { n >= min }, "every account has a size the DEX accepts");
        want.push(create_account(payer.pubkey(), keys[i], n, pk(DEX)));
        i += 1;
    }
    let mut b = [0; 8];
    b.copy_from_slice(&m.instructions[5].data[23..31]);
    let nonce = u64::from_le_bytes(b);
    prop!(Pubkey::create_program_address(&[(*r.market).as_ref(), &nonce.to_le_bytes()], &pk(DEX)) == Ok(vs), "the vaults' owner is the market's derived signer");
    let mut d = vec![0, 0, 0, 0, 0];
    d.extend_from_slice(&cl.to_le_bytes());
    d.extend_from_slice(&pl.to_le_bytes());
    d.extend_from_slice(&[0, 0]);
    d.extend_from_slice(&nonce.to_le_bytes());
    d.extend_from_slice(&100u64.to_le_bytes());
    want.push(Ix { program: pk(DEX), data: d, acc: vec![rw(keys[0]), rw(keys[1]), rw(keys[2]), rw(keys[3]), rw(keys[4]), rw(*r.coin_vault), rw(*r.pc_vault), ro(pk(0x51)), ro(pk(0x52)), ro(solana_sdk::sysvar::rent::ID)] });
    prop!(same(&t[2], payer.pubkey(), &want), "the market is initialised from the created accounts with the asked lot sizes");
    witness!(true, "listed");
}
fn tokens() {
    use serum_common::client::rpc as x;
    let c = RpcClient::new(String::new());
    let (payer, auth) = (keypair(0x31), keypair(0x32));
    let (q, dec) = (u64_(), u8_());
    solana_client::node().rent_per_byte = u32_() as u64;
    let fails = bool_();
    solana_client::node().send_fails = fails;
    let p = payer.pubkey();
    let (ok, want) = match choose(5) {
        0 => {
            let r = x::transfer(&c, &pk(0x41), &pk(0x42), q, &auth, &payer);
            let mut d = vec![3];
            d.extend_from_slice(&q.to_le_bytes());
            (r.is_ok(), vec![Ix { program: spl_token::ID, data: d, acc: vec![rw(pk(0x41)), rw(pk(0x42)), sig(auth.pubkey())] }])
        }
        1 => {
            let n = u32_() as usize;
            let r = x::create_account_rent_exempt(&c, &payer, n, &pk(0x43));
            match r { Ok(k) => (true, vec![create_account(p, k.pubkey(), n, pk(0x43))]), Err(_) => (false, vec![]) }
        }
        2 => match x::create_token_account(&c, &pk(0x51), &pk(0x44), &payer) {
            Ok(k) => (true, vec![create_account(p, k.pubkey(), 165, spl_token::ID), init_token(k.pubkey(), pk(0x51), pk(0x44))]),
            Err(_) => (false, vec![]),
        },
        3 => match x::new_mint(&c, &payer, &pk(0x45), dec) {
            Ok((k, _)) => {
                let mut d = vec![0, dec];
                d.extend_from_slice(pk(0x45).as_ref());
                d.push(0);
                (true, vec![create_account(p, k.pubkey(), 82, spl_token::ID), Ix { program: spl_token::ID, data: d, acc: vec![rw(k.pubkey()), ro(solana_sdk::sysvar::rent::ID)] }])
            }
            Err(_) => (false, vec![]),
        },
        _ => match x::mint_to_new_account(&c, &payer, &auth, &pk(0x51), q) {
            Ok(k) => {
                let mut d = vec![7];
                d.extend_from_slice(&q.to_le_bytes());
                (true, vec![create_account(p, k.pubkey(), 165, spl_token::ID), init_token(k.pubkey(), pk(0x51), p),
                    Ix { program: spl_token::ID, data: d, acc: vec![rw(pk(0x51)), rw(k.pubkey()), sig(auth.pubkey())] }])
            }
            Err(_) => (false, vec![]),
        },
    };
    observe(ok as u64);
    prop!(ok == !fails && sent().len() == ok as usize, "one transaction is sent, or the failure is reported");
    if ok { prop!(same(&sent()[0], p, &want), "the token transaction is the one asked for"); }
    witness!(ok, "sent");
}
/// a market account as the DEX writes it, plain or permissioned, with any recorded keys
fn keys() {
    let c = RpcClient::new(String::new());
    let v2 = choose(2) == 1;
    let n = if v2 { 1476 } else { 388 };
    let mut q = vec![0u8; n];
    q[..5].copy_from_slice(b"serum");
    q[n - 7..].copy_from_slice(b"padding");
    let flags = u64_();
    q[5..13].copy_from_slice(&flags.to_le_bytes());
    let mut put = |o: usize, k: [u64; 4]| { let mut j = 0; while j < 4 { q[o + 8 * j..o + 8 * j + 8].copy_from_slice(&k[j].to_le_bytes()); j += 1; } };
    let own = [0x2121212121212121u64; 4];
    // flags, own address, nonce, mints, vault + deposits + fees, vault + deposits + fees, dust, queues and books
    put(13, own);
    let ks = [key4(), key4(), key4(), key4(), key4(), key4(), key4(), key4()];
    let off = [53, 85, 117, 165, 221, 253, 285, 317]; // coin mint, pc mint, coin vault, pc vault, req_q, event_q, bids, asks
    let mut i = 0;
    while i < 8 { put(off[i], ks[i]); i += 1; }
    let nonce = choose(8) as u64;
    q[45] = nonce as u8;
    solana_client::node().accounts.push((pk(0x21), q));
    let vs = Pubkey::create_program_address(&[pk(0x21).as_ref(), &nonce.to_le_bytes()], &pk(DEX)).ok();
    let r = crank::verify_hooks::get_keys_for_market(&c, &pk(DEX), &pk(0x21));
    observe(r.is_ok() as u64);
    let m = match r { Ok(m) => m, Err(_) => { prop!(!genuine(flags, v2) || vs.is_none(), "a market account is read"); return } };
    prop!(genuine(flags, v2) && vs.is_some(), "only a market account is read as one");
    let is = |p: &Pubkey, k: [u64; 4]| { let mut ok = true; let mut j = 0; while j < 4 { ok &= p.as_ref()[8 * j..8 * j + 8] == k[j].to_le_bytes(); j += 1; } ok };
    prop!(is(&m.market, own) && is(&m.coin_vault, ks[2]) && is(&m.pc_vault, ks[3]) && is(&m.req_q, ks[4]) && is(&m.event_q, ks[5]) && is(&m.bids, ks[6]) && is(&m.asks, ks[7]), "the market's accounts are those it records");
    prop!(Some(*m.vault_signer_key) == vs, "the market's signer is derived from its address and nonce");
    witness!(v2, "permissioned market");
    witness!(!v2, "plain market");
}
/// initialised and a market, permissioned with or without a crank authority if the account has that layout, disabled or not
fn genuine(f: u64, v2: bool) -> bool {
    let opt = 128 | if v2 { 1024 } else { 0 };
    f & !opt == 3 | if v2 { 512 } else { 0 }
}
fn settle() {
    let c = RpcClient::new(String::new());
    let (payer, signer, m, oo, good) = (keypair(0x31), keypair(0x32), market(), pk(0x42), faults());
    let other = choose(2) == 1;
    let ok = crank::verify_hooks::settle_funds(&c, &pk(DEX), &payer, &m, if other { Some(&signer) } else { None }, &oo, &pk(0x43), &pk(0x44)).is_ok();
    let who = if other { signer.pubkey() } else { payer.pubkey() };
    one(ok, good, payer.pubkey(), Ix { program: pk(DEX), data: vec![0, 5, 0, 0, 0],
        acc: vec![rw(pk(0x21)), rw(oo), sig(who), rw(pk(0x26)), rw(pk(0x27)), rw(pk(0x43)), rw(pk(0x44)), ro(pk(0x28)), ro(spl_token::ID)] });
}
harnesses! {
    fn client_keys() { keys() }
    fn client_settle() { settle() }
    fn client_place_order() { place() }
    fn client_cancel() { cancel() }
    fn client_cancel_batch() { cancel_batch() }
    fn client_close() { close() }
    fn client_init() { init() }
    fn client_list_market() { list() }
    fn client_tokens() { tokens() }
}

//! The event-processing instruction the crank sends.
use crate::rt::*;
use crate::world::*;

const N: usize = 4;
/// an event queue account with a ring of four entries in any position, read by the crank
fn consume() {
    let c = RpcClient::new(String::new());
    let m = market();
    let (head, count) = (choose(N as u8) as usize, choose(N as u8 + 1) as usize);
    let mut q = vec![0u8; 12 + 32 + 88 * N];
    let n = q.len();
    q[..5].copy_from_slice(b"serum");
    q[n - 7..].copy_from_slice(b"padding");
    q[5] = 1 | 16; // initialised event queue
    q[13] = head as u8;
    q[21] = count as u8;
    let mut own = [[0u64; 4]; N];
    let mut i = 0;
    while i < N {
        let o = 5 + 32 + 88 * i;
        let mut j = 0;
        while j < 4 { // the rest of an event is anything
            own[i][j] = if j == 0 || j == 3 { u64_() } else { 7 };
            q[o + 48 + 8 * j..o + 56 + 8 * j].copy_from_slice(&own[i][j].to_le_bytes());
            j += 1;
        }
        let x = u64_();
        q[o..o + 8].copy_from_slice(&x.to_le_bytes());
        i += 1;
    }
    solana_client::node().accounts.push((pk(0x23), q));
    let r = crank::consume_events_instruction(&c, &pk(DEX), &m, &pk(0x41), &pk(0x42));
    prop!(r.is_ok() && sent().is_empty(), "a readable queue yields an answer");
    let r = match r { Ok(r) => r, Err(_) => return };
    observe(r.is_some() as u64);
    prop!(r.is_some() == (count > 0), "an empty queue needs no transaction");
    let ix = match r { Some(i) => i, None => return };
    let k = ix.accounts.len();
    if k < 5 { prop!(false, "owners, market, queue and two wallets are named"); return; }
    prop!(ix.program_id == pk(DEX), "addressed to the DEX");
    prop!(ix.accounts[k - 4].pubkey == pk(0x21) && ix.accounts[k - 3].pubkey == pk(0x23), "the market and its event queue follow the owners");
    let word = |p: &Pubkey, j: usize| { let mut b = [0; 8]; b.copy_from_slice(&p.as_ref()[8 * j..8 * j + 8]); u64::from_le_bytes(b) };
    let mut all = true;
    let mut i = 0;
    while i < k { all &= !ix.accounts[i].is_signer && ix.accounts[i].is_writable; i += 1; }
    prop!(all, "all accounts are writable and none must sign");
    // strictly ascending owners, every one of a pending event, and every pending event's owner among them
    let lt = |a: &Pubkey, b: &Pubkey| { let (x, y) = ((word(a, 0), word(a, 1), word(a, 2), word(a, 3)), (word(b, 0), word(b, 1), word(b, 2), word(b, 3))); x < y };
    let mut i = 0;
    while i + 5 < k { prop!(lt(&ix.accounts[i].pubkey, &ix.accounts[i + 1].pubkey), "owners are listed in ascending order, each once"); i += 1; }
    let is = |p: &Pubkey, o: &[u64; 4]| word(p, 0) == o[0] && word(p, 1) == o[1] && word(p, 2) == o[2] && word(p, 3) == o[3];
    let mut e = 0;
    while e < count {
        let o = &own[(head + e) % N];
        let mut f = false;
        let mut i = 0;
        while i + 4 < k { f |= is(&ix.accounts[i].pubkey, o); i += 1; }
        prop!(f, "the owner of every pending event is named");
        e += 1;
    }
    prop!(k - 4 <= count, "no other account is named");
    let mut i = 0;
    while i + 4 < k {
        let mut f = false;
        let mut e = 0;
        while e < count { f |= is(&ix.accounts[i].pubkey, &own[(head + e) % N]); e += 1; }
        prop!(f, "only owners of pending events are named");
        i += 1;
    }
    prop!(ix.data.len() == 7 && ix.data[..5] == [0, 3, 0, 0, 0] && (ix.data[5] as usize | (ix.data[6] as usize) << 8) >= k - 4, "enough events are requested");
    witness!(k == 4 + 3, "three owners");
}
/// what is sent is that instruction and nothing else
fn send() {
    let c = RpcClient::new(String::new());
    let (m, payer) = (market(), keypair(0x31));
    let count = choose(3) as usize;
    let mut q = vec![0u8; 12 + 32 + 88 * 2];
    let n = q.len();
    q[..5].copy_from_slice(b"serum");
    q[n - 7..].copy_from_slice(b"padding");
    q[5] = 17;
    q[13] = choose(2);
    q[21] = count as u8;
    let mut i = 0;
    while i < 2 { let w = u64_(); q[37 + 88 * i + 56..37 + 88 * i + 80].copy_from_slice(&[9; 24]); q[37 + 88 * i + 48..37 + 88 * i + 56].copy_from_slice(&w.to_le_bytes()); i += 1; }
    solana_client::node().accounts.push((pk(0x23), q));
    let fails = bool_();
    solana_client::node().send_fails = fails;
    let want = crank::consume_events_instruction(&c, &pk(DEX), &m, &pk(0x41), &pk(0x42)).unwrap();
    let ok = crank::verify_hooks::consume_events(&c, &pk(DEX), &payer, &m, &pk(0x41), &pk(0x42)).is_ok();
    observe(ok as u64);
    prop!(ok == (count == 0 || !fails), "a refusal by the node is reported");
    prop!(sent().len() == (ok && count > 0) as usize, "one transaction is sent if there are events");
    if let (Some(w), true) = (want, ok) {
        let w = Ix { program: w.program_id, data: w.data, acc: w.accounts.iter().map(|a| (a.pubkey, a.is_signer, a.is_writable)).collect() };
        prop!(same(&sent()[0], payer.pubkey(), &[w]), "the transaction is the event-processing instruction, signed by the payer");
        witness!(true, "sent");
    }
}
/// more owners than one transaction can name: the first 32 in ascending order
fn many() {
    const M: usize = 35;
    let c = RpcClient::new(String::new());
    let m = market();
    let (head, count) = (choose(M as u8) as usize, 31 + choose(5) as usize);
    let mut q = vec![0u8; 12 + 32 + 88 * M];
    let n = q.len();
    q[..5].copy_from_slice(b"serum");
    q[n - 7..].copy_from_slice(b"padding");
    q[5] = 17;
    q[13] = head as u8;
    q[21] = count as u8;
    // distinct owners, stored in no particular order
    let own = |i: usize| (i * 11 % M) as u64 + 5;
    let mut i = 0;
    while i < M { q[37 + 88 * i + 48..37 + 88 * i + 56].copy_from_slice(&own(i).to_le_bytes()); i += 1; }
    solana_client::node().accounts.push((pk(0x23), q));
    let ix = match crank::consume_events_instruction(&c, &pk(DEX), &m, &pk(0x41), &pk(0x42)) { Ok(Some(ix)) => ix, _ => { prop!(false, "pending events yield an instruction"); return } };
    let k = if count < 32 { count } else { 32 };
    observe(ix.accounts.len() as u64);
    prop!(ix.accounts.len() == k + 4, "at most 32 owners are named");
    let mut bits = 0u64; // the pending owners
    let mut e = 0;
    while e < count { bits |= 1 << own((head + e) % M); e += 1; }
    let mut i = 0;
    while i < k && i < ix.accounts.len() {
        let low = bits.trailing_zeros() as u64;
        bits &= bits - 1;
        prop!(ix.accounts[i].pubkey.as_ref()[..8] == low.to_le_bytes(), "the owners named are the first pending ones");
        i += 1;
    }
    witness!(count == 35, "full queue");
}
harnesses! {
    fn crank_many_owners() { many() }
    fn crank_send_events() { send() }
    fn crank_consume_instruction() { consume() }
}

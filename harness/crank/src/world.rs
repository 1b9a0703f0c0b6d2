//! A modelled RPC node (the table in the solana-client stand-in) and the comparison of recorded
//! transactions with what was asked for.
use crate::rt::*;
pub use crank::MarketPubkeys;
pub use solana_client::rpc_client::RpcClient;
use solana_client::{node, Node, NODE};
pub use solana_sdk::pubkey::Pubkey;
pub use solana_sdk::signature::{Keypair, Signer};
pub use solana_sdk::transaction::Transaction;

pub fn pk(b: u8) -> Pubkey { Pubkey::new_from_array([b; 32]) }
pub const DEX: u8 = 0x11;
pub const SYSTEM: u8 = 0;

pub fn install() {
    unsafe { NODE = Some(Node { accounts: vec![], sent: vec![], simulated: 0, simulation_fails: false, send_fails: false, rent_per_byte: 1 }) }
}
pub fn keypair(b: u8) -> Keypair { Keypair::from_bytes(&[b; 64]).unwrap() }
pub fn market() -> MarketPubkeys {
    let b = |n| Box::new(pk(n));
    MarketPubkeys { market: b(0x21), req_q: b(0x22), event_q: b(0x23), bids: b(0x24), asks: b(0x25), coin_vault: b(0x26), pc_vault: b(0x27), vault_signer_key: b(0x28) }
}
pub fn sent() -> &'static Vec<Transaction> { &node().sent }
/// any outcome of simulation and submission; true if both succeed
pub fn faults() -> bool {
    let f = choose(3);
    node().simulation_fails = f == 1;
    node().send_fails = f == 2;
    f == 0
}
pub fn rent(n: usize) -> u64 { (128 + n as u64) * node().rent_per_byte }

/// one expected instruction: program, accounts as (key, signer, writable), data
pub struct Ix { pub program: Pubkey, pub acc: Vec<(Pubkey, bool, bool)>, pub data: Vec<u8> }
pub fn rw(b: Pubkey) -> (Pubkey, bool, bool) { (b, false, true) }
pub fn ro(b: Pubkey) -> (Pubkey, bool, bool) { (b, false, false) }
pub fn sig(b: Pubkey) -> (Pubkey, bool, bool) { (b, true, false) }
pub fn sigw(b: Pubkey) -> (Pubkey, bool, bool) { (b, true, true) }

pub fn create_account(payer: Pubkey, new: Pubkey, len: usize, owner: Pubkey) -> Ix {
    let mut d = vec![0, 0, 0, 0];
    d.extend_from_slice(&rent(len).to_le_bytes());
    d.extend_from_slice(&(len as u64).to_le_bytes());
    d.extend_from_slice(owner.as_ref());
    Ix { program: pk(SYSTEM), acc: vec![sigw(payer), sigw(new)], data: d }
}
pub fn init_token(acc: Pubkey, mint: Pubkey, owner: Pubkey) -> Ix {
    Ix { program: spl_token::ID, acc: vec![rw(acc), ro(mint), ro(owner), ro(solana_sdk::sysvar::rent::ID)], data: vec![1] }
}

/// the transaction carries exactly these instructions, is paid by `payer`, and is signed by exactly those who must
pub fn same(t: &Transaction, payer: Pubkey, want: &[Ix]) -> bool {
    let m = &t.message;
    let mut ok = m.account_keys[0] == payer && m.instructions.len() == want.len();
    if !ok { return false; }
    for (i, w) in want.iter().enumerate() {
        let c = &m.instructions[i];
        ok &= m.account_keys[c.program_id_index as usize] == w.program && c.data == w.data && c.accounts.len() == w.acc.len();
        if c.accounts.len() != w.acc.len() { return false; }
        for (j, a) in w.acc.iter().enumerate() { ok &= m.account_keys[c.accounts[j] as usize] == a.0; }
    }
    let n = m.header.num_required_signatures as usize;
    ok &= t.signatures.len() == n;
    for (i, k) in m.account_keys.iter().enumerate() {
        let mut s = *k == payer;
        let mut wr = *k == payer;
        for w in want { for a in &w.acc { if a.0 == *k { s |= a.1; wr |= a.2; } } }
        ok &= (i < n) == s && m.is_writable(i) == wr;
        if i < n && i < t.signatures.len() { ok &= t.signatures[i].as_ref()[..32] == *k.as_ref(); }
    }
    ok
}
pub fn le32(v: u32) -> [u8; 4] { v.to_le_bytes() }

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$d:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[no_mangle] #[inline(never)]
            pub extern "C" fn $name() { $crate::world::install(); $crate::rt::forbid_panic(true); $body }
        )*
        pub const ALL: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}

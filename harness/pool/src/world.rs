//! Fixture of a pool with its token accounts laid out byte for byte as on chain, plus models of the
//! runtime services a pool program uses (SPL-token, retbuf program, rent).
use crate::rt::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

pub struct Simple;
impl serum_pool::Pool for Simple {}

pub const fn pk(n: u8) -> Pubkey { Pubkey::new_from_array([n; 32]) }
pub const PROGRAM: u8 = 200;
pub const POOL: u8 = 10;
pub const MINT: u8 = 11;
pub const VAULT0: u8 = 12; // the vault of asset i has id VAULT0 + i
pub const ASSET0: u8 = 22; // mint of asset i
pub const USER: u8 = 30;
pub const USER_POOL: u8 = 31;
pub const USER0: u8 = 32; // the user's account of asset i
pub const LQD: u8 = 42;
pub const INITR: u8 = 43;
pub const REFERRER: u8 = 44;
pub const PARAM: u8 = 50;
pub const RETBUF: u8 = 51;
pub const RETPROG: u8 = 52;
pub const STRANGER: u8 = 70;
pub const NONCE: u8 = 255;
pub const REQ_TAG: u64 = 0x220a6cbdcd1cc4cf;
pub const STATE_TAG: u64 = 0x16a7874c7fb2301b;
/// base58 3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK
pub const FEE_OWNER: [u8; 32] = include!("fee_owner.in");
/// the pool's signing address: create_program_address([pool, nonce], program) of the real implementation
pub fn vsigner() -> Pubkey { Pubkey::create_program_address(&[&[POOL; 32], &[NONCE]], &pk(PROGRAM)).unwrap() }

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Tok {
    pub mint: [u8; 32], pub owner: [u8; 32], pub amount: u64,
    pub delegate_tag: u32, pub delegate: [u8; 32], pub state: u8,
    pub native_tag: u32, pub native: u64, pub delegated: u64,
    pub close_tag: u32, pub close: [u8; 32],
}
pub fn tok(mint: u8, owner: [u8; 32], amount: u64) -> Tok {
    Tok { mint: [mint; 32], owner, amount, delegate_tag: 0, delegate: [0; 32], state: 1, native_tag: 0,
        native: 0, delegated: 0, close_tag: 0, close: [0; 32] }
}
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct MintAcc { pub auth_tag: u32, pub auth: [u8; 32], pub supply: u64, pub decimals: u8, pub init: u8, pub freeze_tag: u32, pub freeze: [u8; 32] }
pub fn mint_acc(auth: [u8; 32], supply: u64) -> MintAcc { MintAcc { auth_tag: 1, auth, supply, decimals: 6, init: 1, freeze_tag: 0, freeze: [0; 32] } }
pub fn raw<T: Copy>(a: &T) -> &[u8] { unsafe { std::slice::from_raw_parts(a as *const T as *const u8, std::mem::size_of::<T>()) } }
pub fn raw_mut<T: Copy>(a: &mut T) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(a as *mut T as *mut u8, std::mem::size_of::<T>()) } }
pub fn same<T: Copy>(a: &T, b: &T) -> bool { raw(a) == raw(b) }

/// One account of an instruction.
pub struct A { pub key: Pubkey, pub signer: bool, pub lamports: u64, pub data: *mut u8, pub len: usize, pub owner: Pubkey }
static mut NODATA: [u8; 0] = [];
impl A {
    pub fn new(key: Pubkey, data: &mut [u8], owner: Pubkey) -> A {
        A { key, signer: false, lamports: 1_000_000_000_000, data: data.as_mut_ptr(), len: data.len(), owner }
    }
    pub fn spl<T: Copy>(id: u8, t: &mut T) -> A { A::new(pk(id), raw_mut(t), spl_token::ID) }
    pub fn bare(key: Pubkey) -> A { A::new(key, unsafe { &mut NODATA }, pk(0)) }
    pub fn sign(mut self, s: bool) -> A { self.signer = s; self }
}
/// the AccountInfos of an instruction; accounts with one address share one cell, as in the runtime
pub fn infos<'a>(a: &'a mut [A]) -> Vec<AccountInfo<'a>> {
    let mut v: Vec<AccountInfo<'a>> = Vec::with_capacity(a.len());
    let p: *mut A = a.as_mut_ptr();
    let n = a.len();
    let mut i = 0;
    while i < n {
        let x = unsafe { &mut *p.add(i) };
        let mut dup = usize::MAX;
        let mut j = 0;
        while j < i { let y = unsafe { &*p.add(j) }; if x.len > 0 && y.data == x.data && y.len == x.len { dup = j; } j += 1; }
        if dup != usize::MAX {
            let mut c = v[dup].clone();
            c.is_signer = c.is_signer || x.signer;
            v.push(c);
        } else {
            let d = unsafe { std::slice::from_raw_parts_mut(x.data, x.len) };
            v.push(AccountInfo::new(&x.key, x.signer, true, &mut x.lamports, d, &x.owner, false, 0));
        }
        i += 1;
    }
    v
}
/// Runs the pool program on an instruction; true iff it succeeded.
pub fn process(a: &mut [A], data: &[u8]) -> bool { process_as::<Simple>(a, data) }
pub fn process_as<P: serum_pool::Pool>(a: &mut [A], data: &[u8]) -> bool {
    let v = infos(a);
    let r = serum_pool::pool_entrypoint::<P>(&pk(PROGRAM), &v, data);
    #[cfg(not(sx))]
    if std::env::var("SX_SHOW").is_ok() { println!("process: {:?}", r); }
    let ok = r.is_ok();
    std::mem::forget(v);
    ok
}

// ---------------------------------------------------------------- wire format of the pool protocol

pub struct Buf<const N: usize> { pub b: [u8; N], pub n: usize }
impl<const N: usize> Buf<N> {
    pub fn new() -> Self { Buf { b: [0; N], n: 0 } }
    pub fn put(&mut self, s: &[u8]) { let mut i = 0; while i < s.len() { self.b[self.n + i] = s[i]; i += 1; } self.n += s.len(); }
    pub fn u8(&mut self, v: u8) { self.put(&[v]) }
    pub fn u32(&mut self, v: u32) { self.put(&v.to_le_bytes()) }
    pub fn u64(&mut self, v: u64) { self.put(&v.to_le_bytes()) }
    pub fn s(&self) -> &[u8] { &self.b[..self.n] }
}
pub const STATE_LEN: usize = 600;
pub fn state(assets: u8, params: u8, fee_rate: u32, vs: &Pubkey) -> [u8; STATE_LEN] {
    let mut b = Buf::<STATE_LEN>::new();
    b.u64(STATE_TAG);
    b.put(&[MINT; 32]);
    b.u32(assets as u32);
    let mut i = 0;
    while i < assets { b.put(&[ASSET0 + i; 32]); b.put(&[VAULT0 + i; 32]); i += 1; }
    b.put(&vs.to_bytes());
    b.u8(NONCE);
    b.u32(params as u32);
    let mut i = 0;
    while i < params { b.put(&[PARAM + i; 32]); b.u8(0); i += 1; }
    b.u32(3);
    b.put(b"abc");
    b.put(&[LQD; 32]);
    b.put(&[INITR; 32]);
    b.u32(fee_rate);
    b.u8(0);
    b.u32(0);
    b.b
}
pub const EXECUTE: u8 = 2;
pub const GET_BASKET: u8 = 1;
pub const CREATE: u8 = 0;
pub const REDEEM: u8 = 1;
pub fn request(kind: u8, action: u8, amount: u64) -> [u8; 18] {
    let mut b = Buf::<18>::new();
    b.u64(REQ_TAG);
    b.u8(kind);
    b.u8(action);
    b.u64(amount);
    b.b
}

// ---------------------------------------------------------------- runtime models

/// calls of other programs: how many, and how many of them moved tokens
pub static mut CALLS: usize = 0;
/// bytes written through the retbuf program
pub static mut RET: [u8; 64] = [0; 64];
pub static mut RETLEN: usize = 0;

fn find(infos: &[AccountInfo], k: &Pubkey) -> Option<usize> {
    let mut i = 0;
    while i < infos.len() { if infos[i].key == k { return Some(i); } i += 1; }
    None
}
fn u64at(d: &[u8], o: usize) -> u64 { u64::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3], d[o + 4], d[o + 5], d[o + 6], d[o + 7]]) }
fn u32at(d: &[u8], o: usize) -> u32 { u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]) }
const TOKEN_ERR: ProgramError = ProgramError::Custom(1);

/// owner or delegate of a token account may spend `amount`; true through the delegate
fn may_spend(d: &mut [u8], auth: &Pubkey, amount: u64) -> bool {
    if d[32..64] == auth.to_bytes()[..] { return true; }
    if u32at(d, 72) == 1 && d[76..108] == auth.to_bytes()[..] {
        let left = u64at(d, 121);
        if left < amount { return false; }
        d[121..129].copy_from_slice(&(left - amount).to_le_bytes());
        if left == amount { d[72..76].copy_from_slice(&[0; 4]); }
        return true;
    }
    false
}
/// SPL-token Transfer, MintTo and Burn, and a program that stores what it is given (retbuf)
pub fn model_invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    unsafe { CALLS += 1; }
    if ix.program_id == pk(RETPROG) {
        if ix.accounts.len() != 1 || ix.accounts[0].pubkey != pk(RETBUF) || ix.data.len() < 8 || ix.data.len() > 64 { return Err(ProgramError::InvalidArgument); }
        unsafe {
            RETLEN = ix.data.len();
            let mut i = 0;
            while i < ix.data.len() { RET[i] = ix.data[i]; i += 1; }
        }
        return Ok(());
    }
    if ix.program_id != spl_token::ID || ix.data.len() != 9 || ix.accounts.len() != 3 { return Err(ProgramError::InvalidInstructionData); }
    if find(infos, &spl_token::ID).is_none() { return Err(ProgramError::NotEnoughAccountKeys); }
    let amount = u64at(&ix.data, 1);
    let (a, b, c) = match (find(infos, &ix.accounts[0].pubkey), find(infos, &ix.accounts[1].pubkey), find(infos, &ix.accounts[2].pubkey)) {
        (Some(a), Some(b), Some(c)) => (&infos[a], &infos[b], &infos[c]),
        _ => return Err(ProgramError::NotEnoughAccountKeys),
    };
    let auth = c.key;
    let pda = seeds.len() == 1 && match Pubkey::create_program_address(seeds[0], &pk(PROGRAM)) { Ok(k) => k == *auth, Err(_) => false };
    if !(c.is_signer || pda) || !ix.accounts[2].is_signer { return Err(ProgramError::MissingRequiredSignature); }
    if ix.data[0] == 4 {
        // Approve: account, delegate, owner
        if *a.owner != spl_token::ID || a.data_len() != 165 { return Err(TOKEN_ERR); }
        let mut t = a.try_borrow_mut_data()?;
        if t[108] != 1 || t[32..64] != auth.to_bytes()[..] { return Err(TOKEN_ERR); }
        t[72..76].copy_from_slice(&[1, 0, 0, 0]);
        t[76..108].copy_from_slice(&b.key.to_bytes());
        t[121..129].copy_from_slice(&amount.to_le_bytes());
        return Ok(());
    }
    if *a.owner != spl_token::ID || *b.owner != spl_token::ID { return Err(ProgramError::IncorrectProgramId); }
    match ix.data[0] {
        3 => {
            if a.data_len() != 165 || b.data_len() != 165 { return Err(TOKEN_ERR); }
            let same = a.key == b.key;
            let mut s = a.try_borrow_mut_data()?;
            if s[108] != 1 || u64at(&s, 64) < amount { return Err(TOKEN_ERR); }
            if same { return if may_spend(&mut s, auth, 0) { Ok(()) } else { Err(TOKEN_ERR) }; }
            let mut t = b.try_borrow_mut_data()?;
            if t[108] != 1 || s[0..32] != t[0..32] || !may_spend(&mut s, auth, amount) { return Err(TOKEN_ERR); }
            let nt = match u64at(&t, 64).checked_add(amount) { Some(v) => v, None => return Err(TOKEN_ERR) };
            let ns = u64at(&s, 64) - amount;
            s[64..72].copy_from_slice(&ns.to_le_bytes());
            t[64..72].copy_from_slice(&nt.to_le_bytes());
            Ok(())
        }
        7 => {
            // MintTo: mint, account, authority
            if a.data_len() != 82 || b.data_len() != 165 { return Err(TOKEN_ERR); }
            let mut m = a.try_borrow_mut_data()?;
            let mut t = b.try_borrow_mut_data()?;
            if m[45] != 1 || t[108] != 1 || t[0..32] != a.key.to_bytes()[..] || u32at(&m, 0) != 1 || m[4..36] != auth.to_bytes()[..] { return Err(TOKEN_ERR); }
            let (ns, nt) = match (u64at(&m, 36).checked_add(amount), u64at(&t, 64).checked_add(amount)) { (Some(x), Some(y)) => (x, y), _ => return Err(TOKEN_ERR) };
            m[36..44].copy_from_slice(&ns.to_le_bytes());
            t[64..72].copy_from_slice(&nt.to_le_bytes());
            Ok(())
        }
        8 => {
            // Burn: account, mint, authority
            if a.data_len() != 165 || b.data_len() != 82 { return Err(TOKEN_ERR); }
            let mut t = a.try_borrow_mut_data()?;
            let mut m = b.try_borrow_mut_data()?;
            if m[45] != 1 || t[108] != 1 || t[0..32] != b.key.to_bytes()[..] || u64at(&t, 64) < amount || !may_spend(&mut t, auth, amount) { return Err(TOKEN_ERR); }
            let ns = match u64at(&m, 36).checked_sub(amount) { Some(v) => v, None => return Err(TOKEN_ERR) };
            let nt = u64at(&t, 64) - amount;
            t[64..72].copy_from_slice(&nt.to_le_bytes());
            m[36..44].copy_from_slice(&ns.to_le_bytes());
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}
struct S;
impl solana_program::program_stubs::SyscallStubs for S {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> ProgramResult { model_invoke(ix, a, s) }
}
pub fn install() { solana_program::program_stubs::set_syscall_stubs(Box::new(S)); }

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$d:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[no_mangle] #[inline(never)]
            pub extern "C" fn $name() { $crate::world::install(); $body }
        )*
        pub const ALL: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}

// ---------------------------------------------------------------- a pool with n assets and one user

pub struct W {
    pub st: [u8; STATE_LEN], pub vs: Pubkey, pub mint: MintAcc, pub vault: [Tok; 2], pub user_pool: Tok, pub user: [Tok; 2],
    pub lqd: Tok, pub initr: Tok, pub rf: Tok, pub n: usize, pub retbuf: [u8; 64],
}
impl W {
    pub fn new(n: usize, params: u8, fee_rate: u32) -> W {
        let vs = vsigner();
        W { st: state(n as u8, params, fee_rate, &vs), vs, mint: mint_acc(vs.to_bytes(), 1_000_000), vault: [tok(ASSET0, vs.to_bytes(), 0), tok(ASSET0 + 1, vs.to_bytes(), 0)],
            user_pool: tok(MINT, [USER; 32], 0), user: [tok(ASSET0, [USER; 32], 0), tok(ASSET0 + 1, [USER; 32], 0)],
            lqd: tok(MINT, FEE_OWNER, 0), initr: tok(MINT, [STRANGER; 32], 0), rf: tok(MINT, [STRANGER + 1; 32], 0), n, retbuf: [0; 64] }
    }
    /// accounts of Execute without account_params
    pub fn exec_accounts(&mut self, signer: bool) -> Vec<A> {
        let mut v = vec![A::new(pk(POOL), &mut self.st, pk(PROGRAM)), A::spl(MINT, &mut self.mint)];
        let mut i = 0;
        while i < self.n { v.push(A::spl(VAULT0 + i as u8, &mut self.vault[i])); i += 1; }
        v.push(A::bare(self.vs));
        v.push(A::spl(USER_POOL, &mut self.user_pool));
        let mut i = 0;
        while i < self.n { v.push(A::spl(USER0 + i as u8, &mut self.user[i])); i += 1; }
        v.push(A::bare(pk(USER)).sign(signer));
        v.push(A::spl(LQD, &mut self.lqd));
        v.push(A::spl(INITR, &mut self.initr));
        v.push(A::spl(REFERRER, &mut self.rf));
        v.push(A::bare(spl_token::ID));
        v
    }
    pub fn basket_accounts(&mut self) -> Vec<A> {
        let mut v = vec![A::new(pk(POOL), &mut self.st, pk(PROGRAM)), A::spl(MINT, &mut self.mint)];
        let mut i = 0;
        while i < self.n { v.push(A::spl(VAULT0 + i as u8, &mut self.vault[i])); i += 1; }
        v.push(A::bare(self.vs));
        v.push(A::new(pk(RETBUF), &mut self.retbuf, pk(RETPROG)));
        v.push(A::bare(pk(RETPROG)));
        v
    }
    pub fn exec(&mut self, signer: bool, action: u8, amount: u64) -> bool {
        let mut a = self.exec_accounts(signer);
        let r = process(&mut a, &request(EXECUTE, action, amount));
        std::mem::forget(a);
        r
    }
    pub fn balances(&self) -> [u64; 9] {
        [self.mint.supply, self.vault[0].amount, self.vault[1].amount, self.user_pool.amount, self.user[0].amount, self.user[1].amount,
            self.lqd.amount, self.initr.amount, self.rf.amount]
    }
    pub fn observe(&self) { let b = self.balances(); let mut i = 0; while i < 9 { observe(b[i]); i += 1; } }
}

//! Fixture of a proxied market: the accounts of one transaction, and a model of the runtime's
//! cross-program invocation that records every call and enforces the signer-privilege rule.
use crate::rt::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

pub const fn pk(n: u8) -> Pubkey { Pubkey::new_from_array([n; 32]) }
pub const PROXY: u8 = 200;
pub const MARKET: u8 = 10;
pub const USER: u8 = 30;
pub const USER2: u8 = 31;
pub const PAYER: u8 = 40;
pub const REFERRER: u8 = 42;
pub const REFERRAL: u8 = 99; // the wallet entitled to referral fees
/// base58 9xQeWvG816bUx9EPjHmaT23yvVM2ZWbrrpZb9PusVFin
pub const DEX: Pubkey = Pubkey::new_from_array(include!("dex_id.in"));

pub struct A { pub key: Pubkey, pub signer: bool, pub lamports: u64, pub data: *mut u8, pub len: usize, pub owner: Pubkey }
static mut NODATA: [u8; 0] = [];
impl A {
    pub fn new(key: Pubkey, data: &mut [u8], owner: Pubkey) -> A { A { key, signer: false, lamports: 5, data: data.as_mut_ptr(), len: data.len(), owner } }
    pub fn bare(key: Pubkey) -> A { A::new(key, unsafe { &mut NODATA }, pk(0)) }
    pub fn sign(mut self, s: bool) -> A { self.signer = s; self }
}

#[derive(Clone, Copy)]
pub struct Call {
    pub prog: Pubkey, pub data: [u8; 128], pub len: usize, pub n: usize, pub keys: [Pubkey; 16], pub signer: [bool; 16],
    pub pda: [Pubkey; 2], pub npda: usize,
}
pub const C0: Call = Call { prog: pk(0), data: [0; 128], len: 0, n: 0, keys: [pk(0); 16], signer: [false; 16], pda: [pk(0); 2], npda: 0 };
pub static mut CALLS: [Call; 6] = [C0; 6];
pub static mut NCALLS: usize = 0;
/// accounts that signed the transaction
pub static mut SIGNERS: [Pubkey; 4] = [pk(0); 4];
pub static mut NSIGN: usize = 0;
/// which call the other program refuses (usize::MAX: none)
pub static mut FAIL: usize = usize::MAX;
pub fn call(i: usize) -> &'static Call { unsafe { &CALLS[i] } }
pub fn ncalls() -> usize { unsafe { NCALLS } }

fn model_invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let mut c = C0;
    c.prog = ix.program_id;
    if ix.data.len() > 128 || ix.accounts.len() > 16 || seeds.len() > 2 { return Err(ProgramError::InvalidArgument); }
    c.len = ix.data.len();
    let mut i = 0;
    while i < c.len { c.data[i] = ix.data[i]; i += 1; }
    i = 0;
    while i < seeds.len() {
        match Pubkey::create_program_address(seeds[i], &pk(PROXY)) { Ok(k) => c.pda[i] = k, Err(_) => return Err(ProgramError::InvalidSeeds) }
        i += 1;
    }
    c.npda = seeds.len();
    c.n = ix.accounts.len();
    i = 0;
    while i < c.n {
        let m = &ix.accounts[i];
        c.keys[i] = m.pubkey;
        c.signer[i] = m.is_signer;
        let mut found = false;
        let mut j = 0;
        while j < infos.len() { if *infos[j].key == m.pubkey { found = true; } j += 1; }
        if !found { return Err(ProgramError::NotEnoughAccountKeys); }
        if m.is_signer {
            let mut ok = false;
            j = 0;
            while j < c.npda { if c.pda[j] == m.pubkey { ok = true; } j += 1; }
            j = 0;
            while j < unsafe { NSIGN } { if unsafe { SIGNERS[j] } == m.pubkey { ok = true; } j += 1; }
            if !ok { return Err(ProgramError::MissingRequiredSignature); } // the runtime's privilege escalation error
        }
        i += 1;
    }
    unsafe {
        if NCALLS >= 6 { return Err(ProgramError::Custom(99)); }
        if NCALLS == FAIL { return Err(ProgramError::Custom(98)); }
        if c.prog == pk(0) { system(&c, infos)?; }
        CALLS[NCALLS] = c;
        NCALLS += 1;
    }
    Ok(())
}
/// the system program: creating, funding and assigning accounts that nobody owns yet
fn system(c: &Call, infos: &[AccountInfo]) -> ProgramResult {
    let find = |k: &Pubkey| { let mut j = 0; while j < infos.len() { if infos[j].key == k { break; } j += 1; } j };
    let rd = |o: usize| u64::from_le_bytes([c.data[o], c.data[o + 1], c.data[o + 2], c.data[o + 3], c.data[o + 4], c.data[o + 5], c.data[o + 6], c.data[o + 7]]);
    let own = |o: usize| { let mut b = [0u8; 32]; b.copy_from_slice(&c.data[o..o + 32]); Pubkey::new_from_array(b) };
    let kind = c.data[0];
    let t = &infos[find(&c.keys[if kind == 0 || kind == 2 { 1 } else { 0 }])];
    if kind == 2 {
        **t.lamports.borrow_mut() = t.lamports().wrapping_add(rd(4));
        return Ok(());
    }
    if *t.owner != pk(0) || (kind == 0 && t.lamports() != 0) { return Err(ProgramError::Custom(0)); }
    if kind == 0 { **t.lamports.borrow_mut() = rd(4); }
    // the runtime changes the owner in place
    if kind != 8 { unsafe { std::ptr::write_volatile(t.owner as *const Pubkey as *mut Pubkey, own(if kind == 0 { 20 } else { 4 })); } }
    Ok(())
}
struct S;
impl solana_program::program_stubs::SyscallStubs for S {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> ProgramResult { model_invoke(ix, a, s) }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { *(p as *mut solana_program::rent::Rent) = Default::default(); } 0 }
}
pub fn install() { solana_program::program_stubs::set_syscall_stubs(Box::new(S)); }

/// runs `f` on the AccountInfos of one transaction
pub fn with_infos(a: &mut [A], f: impl FnOnce(&[AccountInfo]) -> bool) -> bool {
    let mut v: Vec<AccountInfo> = Vec::with_capacity(a.len());
    let p: *mut A = a.as_mut_ptr();
    let n = a.len();
    unsafe { NSIGN = 0; NCALLS = 0; }
    let mut i = 0;
    while i < n {
        let x = unsafe { &mut *p.add(i) };
        let d = unsafe { std::slice::from_raw_parts_mut(x.data, x.len) };
        if x.signer { unsafe { SIGNERS[NSIGN] = x.key; NSIGN += 1; } }
        v.push(AccountInfo::new(&x.key, x.signer, true, &mut x.lamports, d, &x.owner, false, 0));
        i += 1;
    }
    let r = f(&v);
    std::mem::forget(v);
    r
}

#[macro_export]
macro_rules! harnesses {
    ($( $(#[$d:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[no_mangle] #[inline(never)]
            pub extern "C" fn $name() { $crate::world::install(); $body }
        )*
        pub const ALL: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}

//! Fixture: typed account memory laid out exactly as the on-chain accounts, plus the environment
//! models (SPL-token transfer, clock, rent, PDA derivation) used in place of the Solana runtime.
use crate::rt::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

/// Wire layout of a market account (independent of the crate's own struct).
#[repr(C, packed)]
#[derive(Clone, Copy, PartialEq)]
pub struct Mkt {
    pub account_flags: u64, pub own_address: [u64; 4], pub vault_signer_nonce: u64, pub coin_mint: [u64; 4],
    pub pc_mint: [u64; 4], pub coin_vault: [u64; 4], pub coin_deposits_total: u64, pub coin_fees_accrued: u64,
    pub pc_vault: [u64; 4], pub pc_deposits_total: u64, pub pc_fees_accrued: u64, pub pc_dust_threshold: u64,
    pub req_q: [u64; 4], pub event_q: [u64; 4], pub bids: [u64; 4], pub asks: [u64; 4],
    pub coin_lot_size: u64, pub pc_lot_size: u64, pub fee_rate_bps: u64, pub referrer_rebates_accrued: u64,
}
/// Wire layout of a permissioned market account.
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Mkt2 { pub inner: Mkt, pub oo_auth: [u64; 4], pub prune_auth: [u64; 4], pub crank_auth: [u64; 4], pub pad: [u8; 992] }
/// Wire layout of an open-orders account.
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Oo {
    pub account_flags: u64, pub market: [u64; 4], pub owner: [u64; 4],
    pub native_coin_free: u64, pub native_coin_total: u64, pub native_pc_free: u64, pub native_pc_total: u64,
    pub free_slot_bits: u128, pub is_bid_bits: u128, pub orders: [u128; 128], pub client_order_ids: [u64; 128],
    pub referrer_rebates_accrued: u64,
}

/// One account of an instruction.
pub struct A { pub key: Pubkey, pub signer: bool, pub lamports: u64, pub data: *mut u8, pub len: usize, pub owner: Pubkey }
pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
static mut NODATA: [u8; 0] = [];
impl A {
    pub fn new(key: Pubkey, data: &mut [u8], owner: Pubkey) -> A {
        A { key, signer: false, lamports: 1_000_000_000_000, data: data.as_mut_ptr(), len: data.len(), owner }
    }
    /// account of the dex program
    pub fn dex(id: u8, data: &mut [u8]) -> A { A::new(pk(id), data, pk(PROGRAM)) }
    pub fn tok(id: u8, t: &mut Tok) -> A { A::new(pk(id), t.bytes(), spl_token::ID) }
    /// account without data
    pub fn bare(key: Pubkey) -> A { A::new(key, unsafe { &mut NODATA }, SYS) }
    pub fn sign(mut self, s: bool) -> A { self.signer = s; self }
    pub fn lamports(mut self, l: u64) -> A { self.lamports = l; self }
}
/// Runs the program's instruction processor; true iff it succeeded. Lamport changes are written back.
pub fn process(prog: &Pubkey, a: &mut [A], data: &[u8]) -> bool {
    let mut v: Vec<AccountInfo> = Vec::with_capacity(a.len());
    let p: *mut A = a.as_mut_ptr();
    let n = a.len();
    let mut i = 0;
    while i < n {
        let x = unsafe { &mut *p.add(i) };
        // the runtime passes a repeated account as another reference to the same cells
        let mut dup = usize::MAX;
        let mut j = 0;
        while j < i { if x.len > 0 && v[j].data.borrow().as_ptr() == x.data as *const u8 && x.len == unsafe { (*p.add(j)).len } { dup = j; } j += 1; }
        if dup != usize::MAX {
            let mut c = v[dup].clone();
            c.is_signer = c.is_signer || x.signer;
            v.push(c);
        } else {
            let d = unsafe { std::slice::from_raw_parts_mut(x.data, x.len) };
            v.push(AccountInfo::new(&x.key, x.signer, true, &mut x.lamports, d, &x.owner, false, 0));
        }
        i += 1;
    }
    let r = serum_dex::state::State::process(prog, &v, data);
    #[cfg(not(sx))]
    if std::env::var("SX_SHOW").is_ok() { println!("process: {:?}", r); }
    let r = r.is_ok();
    std::mem::forget(v);
    r
}
pub fn call(a: &mut [A], data: &[u8]) -> bool { process(&pk(PROGRAM), a, data) }
/// as `call`, but a panic where the instruction is due to succeed is a violation, not just a failed transaction
pub fn call_due(due: bool, a: &mut [A], data: &[u8]) -> bool {
    forbid_panic(due);
    let r = call(a, data);
    forbid_panic(false);
    r
}

pub const HEAD: [u8; 5] = *b"serum";
pub const TAIL: [u8; 7] = *b"padding";

pub const fn pk(n: u8) -> Pubkey {
    Pubkey::new_from_array(key(n))
}
/// two accounts of a kind have keys that are alike in all but one byte
pub const fn key(n: u8) -> [u8; 32] {
    let mut k = [if n == OO2 || n == OO3 { OO } else if n == OWNER2 { OWNER } else { n }; 32];
    if n == OO2 || n == OWNER2 { k[31] = n; }
    if n == OO3 { k[0] = n; }
    k
}
pub const fn k4(n: u8) -> [u64; 4] {
    let k = key(n);
    let w = u64::from_le_bytes([k[8]; 8]);
    let (b, t) = ([k[0], k[1], k[1], k[1], k[1], k[1], k[1], k[1]], [k[30], k[30], k[30], k[30], k[30], k[30], k[30], k[31]]);
    [u64::from_le_bytes(b), w, w, u64::from_le_bytes(t)]
}
pub fn to4(k: &Pubkey) -> [u64; 4] {
    let b = k.to_bytes();
    let mut o = [0u64; 4];
    let mut i = 0;
    while i < 4 {
        o[i] = u64::from_le_bytes([
            b[8 * i], b[8 * i + 1], b[8 * i + 2], b[8 * i + 3],
            b[8 * i + 4], b[8 * i + 5], b[8 * i + 6], b[8 * i + 7],
        ]);
        i += 1;
    }
    o
}

/// the sequence number of the next order
pub const SEQ: u64 = 0x4d4c_4b4a_4948_4746;
// account ids: the key of account `n` is key(n)
pub const PROGRAM: u8 = 200;
pub const MARKET: u8 = 10;
pub const REQ_Q: u8 = 11;
pub const EVENT_Q: u8 = 12;
pub const BIDS: u8 = 13;
pub const ASKS: u8 = 14;
pub const COIN_VAULT: u8 = 15;
pub const PC_VAULT: u8 = 16;
pub const COIN_MINT: u8 = 17;
pub const PC_MINT: u8 = 18;
pub const OO: u8 = 20;
pub const OO2: u8 = 21;
pub const OO3: u8 = 22;
pub const OWNER: u8 = 30;
pub const OWNER2: u8 = 31;
pub const COIN_WALLET: u8 = 40;
pub const PC_WALLET: u8 = 41;
pub const REFERRER: u8 = 42;
pub const SRM_WALLET: u8 = 43;
pub const RENT_ACC: u8 = 50;
pub const OO_AUTH: u8 = 60;
pub const PRUNE_AUTH: u8 = 61;
pub const CRANK_AUTH: u8 = 62;
pub const STRANGER: u8 = 70;
pub const DEST: u8 = 71;
pub const VSIGNER_ID: u8 = VSIGNER_BYTES[0];

pub const NONCE: u64 = 0;
/// create_program_address([pk(MARKET), NONCE_LE], pk(PROGRAM)) of the real implementation
/// (`replay --selftest` compares it with the real derivation).
pub const VSIGNER_BYTES: [u8; 32] = include!("vsigner.in");
pub const VSIGNER: Pubkey = Pubkey::new_from_array(VSIGNER_BYTES);

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Acc<T: Copy> {
    pub head: [u8; 5],
    pub v: T,
    pub tail: [u8; 7],
}
impl<T: Copy> Acc<T> {
    pub fn new(v: T) -> Self { Acc { head: HEAD, v, tail: TAIL } }
    pub fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self as *mut Self as *mut u8, std::mem::size_of::<Self>()) }
    }
}

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct QHdr { pub flags: u64, pub head: u64, pub count: u64, pub seq: u64 }

/// Wire layout of one event-queue entry.
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Ev {
    pub flags: u8, pub owner_slot: u8, pub fee_tier: u8, pub pad: [u8; 5],
    pub released: u64, pub paid: u64, pub fee: u64,
    pub order_id: u128, pub owner: [u64; 4], pub client: u64,
}
pub const EV0: Ev = Ev { flags: 0, owner_slot: 0, fee_tier: 0, pad: [0; 5], released: 0, paid: 0, fee: 0,
    order_id: 0, owner: [0; 4], client: 0 };
pub const EF_FILL: u8 = 1;
pub const EF_OUT: u8 = 2;
pub const EF_BID: u8 = 4;
pub const EF_MAKER: u8 = 8;
pub const EF_RELEASE: u8 = 16;

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct EvQ<const N: usize> { pub h: QHdr, pub e: [Ev; N] }

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct ReqQ { pub h: QHdr, pub buf: [u8; 80] }

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct SlabHdr { pub bump: u64, pub free_len: u64, pub free_head: u32, pub root: u32, pub leaves: u64 }

/// Wire layout of one slab node (leaf view; inner/free nodes reuse the words).
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Leaf {
    pub tag: u32, pub owner_slot: u8, pub fee_tier: u8, pub pad: [u8; 2],
    pub key: u128, pub owner: [u64; 4], pub qty: u64, pub client: u64,
}
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Inner { pub tag: u32, pub prefix_len: u32, pub key: u128, pub children: [u32; 2], pub pad: [u64; 5] }
pub type Node = [u32; 18];
pub fn node_of_leaf(l: Leaf) -> Node { unsafe { std::mem::transmute(l) } }
pub fn node_of_inner(l: Inner) -> Node { unsafe { std::mem::transmute(l) } }
pub fn leaf_of_node(n: Node) -> Leaf { unsafe { std::mem::transmute(n) } }
pub fn inner_of_node(n: Node) -> Inner { unsafe { std::mem::transmute(n) } }

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Book<const N: usize> { pub flags: u64, pub h: SlabHdr, pub n: [Node; N] }
pub const F_INIT: u64 = 1;
pub const F_MARKET: u64 = 2;
pub const F_OO: u64 = 4;
pub const F_REQQ: u64 = 8;
pub const F_EVQ: u64 = 16;
pub const F_BIDS: u64 = 32;
pub const F_ASKS: u64 = 64;
pub const F_DISABLED: u64 = 128;
pub const F_CLOSED: u64 = 256;
pub const F_PERM: u64 = 512;
pub const F_CRANK: u64 = 1024;

#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Tok {
    pub mint: [u8; 32], pub owner: [u8; 32], pub amount: u64,
    pub delegate_tag: u32, pub delegate: [u8; 32], pub state: u8,
    pub native_tag: u32, pub native: u64, pub delegated: u64,
    pub close_tag: u32, pub close: [u8; 32],
}
pub fn tok(mint: u8, owner: [u8; 32], amount: u64) -> Tok {
    Tok { mint: [mint; 32], owner, amount, delegate_tag: 0, delegate: [0; 32], state: 1, native_tag: 0,
        native: 0, delegated: 0, close_tag: 0, close: [0; 32] }
}
impl Tok {
    pub fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self as *mut Self as *mut u8, 165) }
    }
}

pub const Z4: [u64; 4] = [0; 4];
pub const MKT0: Mkt = Mkt { account_flags: 0, own_address: Z4, vault_signer_nonce: 0, coin_mint: Z4, pc_mint: Z4, coin_vault: Z4,
    coin_deposits_total: 0, coin_fees_accrued: 0, pc_vault: Z4, pc_deposits_total: 0, pc_fees_accrued: 0, pc_dust_threshold: 0,
    req_q: Z4, event_q: Z4, bids: Z4, asks: Z4, coin_lot_size: 0, pc_lot_size: 0, fee_rate_bps: 0, referrer_rebates_accrued: 0 };
pub fn market() -> Mkt {
    let mut m = MKT0;
    m.account_flags = F_INIT | F_MARKET;
    m.own_address = k4(MARKET);
    m.vault_signer_nonce = NONCE;
    m.coin_mint = k4(COIN_MINT);
    m.pc_mint = k4(PC_MINT);
    m.coin_vault = k4(COIN_VAULT);
    m.pc_vault = k4(PC_VAULT);
    m.req_q = k4(REQ_Q);
    m.event_q = k4(EVENT_Q);
    m.bids = k4(BIDS);
    m.asks = k4(ASKS);
    m.coin_lot_size = 1;
    m.pc_lot_size = 1;
    // nothing may depend on these
    m.pc_dust_threshold = u64_();
    m.fee_rate_bps = u64_();
    m.coin_fees_accrued = u64_();
    m
}
pub fn market_v2(m: Mkt) -> Mkt2 {
    let mut v = Mkt2 { inner: m, oo_auth: k4(OO_AUTH), prune_auth: k4(PRUNE_AUTH), crank_auth: k4(CRANK_AUTH), pad: [0; 992] };
    v.inner.account_flags |= F_PERM;
    v
}
pub const OO0: Oo = Oo { account_flags: 0, market: Z4, owner: Z4, native_coin_free: 0, native_coin_total: 0, native_pc_free: 0,
    native_pc_total: 0, free_slot_bits: 0, is_bid_bits: 0, orders: [0; 128], client_order_ids: [0; 128], referrer_rebates_accrued: 0 };
pub fn open_orders(owner: u8) -> Oo {
    let mut o = OO0;
    o.account_flags = F_INIT | F_OO;
    o.market = to4(&mkey());
    o.owner = k4(owner);
    o.free_slot_bits = u128::MAX;
    o
}
pub fn reqq() -> Acc<ReqQ> {
    Acc::new(ReqQ { h: QHdr { flags: F_INIT | F_REQQ, head: 0, count: 0, seq: 0 }, buf: [0; 80] })
}
pub fn evq<const N: usize>() -> Acc<EvQ<N>> {
    Acc::new(EvQ { h: QHdr { flags: F_INIT | F_EVQ, head: 0, count: 0, seq: 0 }, e: [EV0; N] })
}
pub fn book<const N: usize>(side_flag: u64) -> Acc<Book<N>> {
    Acc::new(Book {
        flags: F_INIT | side_flag,
        h: SlabHdr { bump: 0, free_len: 0, free_head: 0, root: 0, leaves: 0 },
        n: [[0u32; 18]; N],
    })
}

// ---------------------------------------------------------------- environment models

#[derive(Clone, Copy)]
pub struct Xfer { pub src: u8, pub dst: u8, pub auth: u8, pub amount: u64, pub signed_by_pda: bool }
pub const XF0: Xfer = Xfer { src: 0, dst: 0, auth: 0, amount: 0, signed_by_pda: false };
pub static mut XF: [Xfer; 4] = [XF0; 4];
pub static mut NXF: usize = 0;
pub static mut NOW: i64 = 0;
/// when set, transfers may fail nondeterministically (decided by this flag)
pub static mut FAIL_XFER: bool = false;

pub fn xf(i: usize) -> Xfer { unsafe { XF[i] } }
pub fn nxf() -> usize { unsafe { NXF } }

/// total moved out of account `src` into `dst`
pub fn moved(src: u8, dst: u8) -> u64 {
    let mut s = 0u64;
    let mut i = 0;
    while i < 4 {
        if i < nxf() && xf(i).src == src && xf(i).dst == dst { s += xf(i).amount; }
        i += 1;
    }
    s
}

fn rd_amount(d: &[u8]) -> u64 {
    u64::from_le_bytes([d[64], d[65], d[66], d[67], d[68], d[69], d[70], d[71]])
}

/// SPL-token `Transfer` contract: source owner must be the authority and must have signed (directly, or
/// through PDA seeds of the calling program); same mint; sufficient balance.
pub fn model_invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    if ix.program_id != spl_token::ID || ix.data.len() != 9 || ix.data[0] != 3 || ix.accounts.len() != 3 {
        return Err(ProgramError::InvalidInstructionData);
    }
    let d = &ix.data;
    let amount = u64::from_le_bytes([d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]]);
    let mut idx = [usize::MAX; 3];
    let mut a = 0;
    while a < 3 {
        let mut i = 0;
        while i < infos.len() {
            if idx[a] == usize::MAX && *infos[i].key == ix.accounts[a].pubkey { idx[a] = i; }
            i += 1;
        }
        if idx[a] == usize::MAX { return Err(ProgramError::NotEnoughAccountKeys); }
        a += 1;
    }
    let (src, dst, auth) = (&infos[idx[0]], &infos[idx[1]], &infos[idx[2]]);
    let pda = !seeds.is_empty() && match Pubkey::create_program_address(seeds[0], &pk(PROGRAM)) {
        Ok(k) => k == *auth.key,
        Err(_) => false,
    };
    if !(auth.is_signer || pda) { return Err(ProgramError::MissingRequiredSignature); }
    if unsafe { FAIL_XFER } { return Err(ProgramError::Custom(17)); }
    if src.key != dst.key {
        let mut s = src.try_borrow_mut_data().map_err(|_| ProgramError::AccountBorrowFailed)?;
        let mut t = dst.try_borrow_mut_data().map_err(|_| ProgramError::AccountBorrowFailed)?;
        if s.len() != 165 || t.len() != 165 { return Err(ProgramError::InvalidAccountData); }
        if s[0..32] != t[0..32] { return Err(ProgramError::Custom(3)); }
        if s[32..64] != auth.key.to_bytes()[..] { return Err(ProgramError::Custom(4)); }
        let (sb, tb) = (rd_amount(&s), rd_amount(&t));
        if sb < amount { return Err(ProgramError::Custom(1)); }
        let nt = match tb.checked_add(amount) { Some(v) => v, None => return Err(ProgramError::Custom(14)) };
        s[64..72].copy_from_slice(&(sb - amount).to_le_bytes());
        t[64..72].copy_from_slice(&nt.to_le_bytes());
    }
    unsafe {
        if NXF < 4 {
            XF[NXF] = Xfer { src: src.key.to_bytes()[0], dst: dst.key.to_bytes()[0], auth: auth.key.to_bytes()[0],
                amount, signed_by_pda: pda };
        }
        NXF += 1;
    }
    Ok(())
}

pub fn stub_clock(p: *mut u8) -> u64 {
    let c = p as *mut solana_program::clock::Clock;
    unsafe { (*c).unix_timestamp = NOW; }
    0
}
/// Rent model: the default parameters' exemption threshold (exact for the default Rent).
pub fn stub_rent(p: *mut u8) -> u64 {
    let r = p as *mut solana_program::rent::Rent;
    unsafe { *r = solana_program::rent::Rent::default(); }
    0
}
/// float-free equivalent of Rent::is_exempt for the default parameters
pub fn min_balance(len: usize) -> u64 { (128 + len as u64) * 3480 * 2 }
struct S;
impl solana_program::program_stubs::SyscallStubs for S {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> ProgramResult {
        model_invoke(ix, a, s)
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 { stub_clock(p) }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { stub_rent(p) }
}
/// installs the environment models behind the SDK's own syscall-stub interface
pub fn install() { solana_program::program_stubs::set_syscall_stubs(Box::new(S)); }

/// Declares harnesses: symbolically an entry point `h_<name>`, natively also listed in ALL for replay.
#[macro_export]
macro_rules! harnesses {
    ($( fn $name:ident() $body:block )*) => {
        $(
            #[no_mangle] #[inline(never)]
            pub extern "C" fn $name() { $crate::world::install(); $body }
        )*
        pub const ALL: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}

/// byte-wise equality of two values of the same wire type
pub fn same<T: Copy>(a: &T, b: &T) -> bool { raw(a) == raw(b) }
pub fn raw<T: Copy>(a: &T) -> &[u8] { unsafe { std::slice::from_raw_parts(a as *const T as *const u8, std::mem::size_of::<T>()) } }
pub fn raw_mut<T: Copy>(a: &mut T) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(a as *mut T as *mut u8, std::mem::size_of::<T>()) } }

pub static mut MKEY: Pubkey = pk(MARKET);
/// address of the market account
pub fn mkey() -> Pubkey { unsafe { MKEY } }
/// A market account in either version.
#[derive(Clone)]
pub enum MAcc { V1(Acc<Mkt>), V2(Acc<Mkt2>) }
impl MAcc {
    pub fn v1(m: Mkt) -> MAcc { MAcc::V1(Acc::new(m)) }
    pub fn v2(m: Mkt) -> MAcc { MAcc::V2(Acc::new(market_v2(m))) }
    pub fn get(&self) -> Mkt { match self { MAcc::V1(a) => a.v, MAcc::V2(a) => { let v = a.v; v.inner } } }
    pub fn set(&mut self, m: Mkt) { match self { MAcc::V1(a) => a.v = m, MAcc::V2(a) => a.v.inner = m } }
    pub fn acc(&mut self) -> A { A::new(mkey(), self.bytes(), pk(PROGRAM)) }
    pub fn bytes(&mut self) -> &mut [u8] { match self { MAcc::V1(a) => a.bytes(), MAcc::V2(a) => a.bytes() } }
}
pub fn obs_oo(o: &Oo) {
    observe(o.native_coin_free); observe(o.native_coin_total); observe(o.native_pc_free); observe(o.native_pc_total);
    observe(o.free_slot_bits as u64); observe(o.is_bid_bits as u64); observe(o.referrer_rebates_accrued);
}
pub fn obs_mkt(m: &Mkt) {
    observe(m.account_flags); observe(m.coin_deposits_total); observe(m.pc_deposits_total); observe(m.pc_fees_accrued);
    observe(m.referrer_rebates_accrued);
}
/// a symbolic open-orders account with consistent balances
pub fn sym_oo_balances(o: &mut Oo) {
    o.native_coin_free = u64_();
    o.native_coin_total = u64_();
    o.native_pc_free = u64_();
    o.native_pc_total = u64_();
    assume(o.native_coin_free <= o.native_coin_total);
    assume(o.native_pc_free <= o.native_pc_total);
}

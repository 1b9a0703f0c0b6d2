//! Loads LLVM bitcode through the LLVM-C API and decodes functions into a compact form.
#![allow(non_snake_case, non_upper_case_globals)]
use crate::expr::{mask, sext};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{c_char, c_double, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::rc::Rc;

pub type L = *mut c_void;
extern "C" {
    fn LLVMContextCreate() -> L;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut L, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext(c: L, b: L, out: *mut L, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetModuleDataLayout(m: L) -> L;
    fn LLVMGetDataLayoutStr(m: L) -> *const c_char;
    fn LLVMSetDataLayout(m: L, s: *const c_char);
    fn LLVMGetFirstFunction(m: L) -> L;
    fn LLVMGetNextFunction(f: L) -> L;
    fn LLVMGetFirstGlobal(m: L) -> L;
    fn LLVMGetNextGlobal(m: L) -> L;
    fn LLVMGetInitializer(g: L) -> L;
    fn LLVMIsGlobalConstant(g: L) -> c_int;
    fn LLVMGlobalGetValueType(g: L) -> L;
    fn LLVMGetValueName2(v: L, n: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: L) -> c_int;
    fn LLVMCountParams(f: L) -> c_uint;
    fn LLVMGetParam(f: L, i: c_uint) -> L;
    fn LLVMGetFirstBasicBlock(f: L) -> L;
    fn LLVMGetNextBasicBlock(b: L) -> L;
    fn LLVMGetFirstInstruction(b: L) -> L;
    fn LLVMGetNextInstruction(i: L) -> L;
    fn LLVMGetInstructionOpcode(i: L) -> c_int;
    fn LLVMGetConstOpcode(i: L) -> c_int;
    fn LLVMGetNumOperands(v: L) -> c_int;
    fn LLVMGetOperand(v: L, i: c_uint) -> L;
    fn LLVMTypeOf(v: L) -> L;
    fn LLVMGetTypeKind(t: L) -> c_int;
    fn LLVMGetIntTypeWidth(t: L) -> c_uint;
    fn LLVMGetElementType(t: L) -> L;
    fn LLVMGetArrayLength2(t: L) -> u64;
    fn LLVMGetVectorSize(t: L) -> c_uint;
    fn LLVMCountStructElementTypes(t: L) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: L, i: c_uint) -> L;
    fn LLVMOffsetOfElement(d: L, t: L, i: c_uint) -> c_ulonglong;
    fn LLVMABISizeOfType(d: L, t: L) -> c_ulonglong;
    fn LLVMGetValueKind(v: L) -> c_int;
    fn LLVMConstIntGetZExtValue(v: L) -> c_ulonglong;
    fn LLVMConstRealGetDouble(v: L, l: *mut c_int) -> c_double;
    fn LLVMPrintValueToString(v: L) -> *mut c_char;
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMGetAggregateElement(v: L, i: c_uint) -> L;
    fn LLVMGetAsString(v: L, n: *mut usize) -> *const c_char;
    fn LLVMIsConstantString(v: L) -> c_int;
    fn LLVMGetGEPSourceElementType(v: L) -> L;
    fn LLVMGetICmpPredicate(i: L) -> c_int;
    fn LLVMGetFCmpPredicate(i: L) -> c_int;
    fn LLVMCountIncoming(p: L) -> c_uint;
    fn LLVMGetIncomingValue(p: L, i: c_uint) -> L;
    fn LLVMGetIncomingBlock(p: L, i: c_uint) -> L;
    fn LLVMGetNumSuccessors(t: L) -> c_uint;
    fn LLVMGetSuccessor(t: L, i: c_uint) -> L;
    fn LLVMIsConditional(b: L) -> c_int;
    fn LLVMGetCondition(b: L) -> L;
    fn LLVMGetCalledValue(c: L) -> L;
    fn LLVMGetNumArgOperands(c: L) -> c_uint;
    fn LLVMGetNormalDest(c: L) -> L;
    fn LLVMGetAllocatedType(a: L) -> L;
    fn LLVMGetNumIndices(v: L) -> c_uint;
    fn LLVMGetIndices(v: L) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: L) -> c_uint;
    fn LLVMGetMaskValue(v: L, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: L) -> c_int;
    fn LLVMAliasGetAliasee(v: L) -> L;
}

#[derive(Clone, Debug)]
pub enum Val { C(u16, u128), S(u16, u32), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Ty { Int(u16), Ptr, F32, F64, Agg(Rc<Vec<(Ty, u64)>>, u64), Vec(u32, Rc<Ty>), Void, Other }
impl Ty {
    /// scalar bit width
    pub fn w(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, _ => 0 } }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Agg(f, _) => Val::A(Rc::new(f.iter().map(|x| x.0.zero()).collect())),
            Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            t => Val::C(t.w(), 0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Ind(Opnd) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(c_int, Opnd, Opnd),
    ICmp(c_int, Opnd, Opnd),
    FCmp(c_int, Opnd, Opnd),
    Cast(Cast, Opnd, Ty, Ty),
    Select(Opnd, Opnd, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, u64, Vec<(Opnd, u64)>),
    Alloca(u64, Opnd),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Opnd, Opnd, Vec<u32>),
    ExtractElem(Opnd, Opnd),
    InsertElem(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<i32>),
    Call(Callee, Vec<Opnd>, Option<u32>, Ty),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, Vec<(u128, u32)>, u32),
    Ret(Option<Opnd>),
    Unreachable,
    Freeze(Opnd),
    Rmw(c_int, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Unsup(String),
}

pub struct Ins { pub i: I, pub dst: u32 }
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub ins: Vec<Ins> }
pub struct Func { pub name: String, pub nargs: u32, pub nregs: u32, pub blocks: Vec<Block>, pub idx: u32 }

pub const NONE: u32 = u32::MAX;
pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub const SLOT: u32 = 28;

pub struct Global { pub name: String, pub slot: u32, pub bytes: Vec<u8>, pub konst: bool }

pub struct Module {
    td: L,
    pub fns: Vec<(L, String, bool)>, // value, name, declaration
    fidx: HashMap<usize, u32>,
    gaddr: HashMap<usize, u64>,
    pub globals: Vec<Global>,
    cache: RefCell<HashMap<u32, Rc<Func>>>,
    pub next_slot: u32,
}

fn name_of(v: L) -> String {
    unsafe { let mut n = 0; let p = LLVMGetValueName2(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
}
fn print(v: L) -> String {
    unsafe { let p = LLVMPrintValueToString(v); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); LLVMDisposeMessage(p); s }
}

impl Module {
    pub fn load(path: &str) -> Module {
        unsafe {
            let c = LLVMContextCreate();
            let p = CString::new(path).unwrap();
            let (mut buf, mut m, mut msg) = (std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
            if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {}", path); }
            if LLVMParseIRInContext(c, buf, &mut m, &mut msg) != 0 { panic!("cannot parse {}: {:?}", path, CStr::from_ptr(msg)); }
            // LLVM 18 upgrades the layout string it reads with 16-byte alignment of i128, which rustc 1.72 did not use
            let dl = std::ffi::CStr::from_ptr(LLVMGetDataLayoutStr(m)).to_str().unwrap().replace("-i128:128", "");
            LLVMSetDataLayout(m, std::ffi::CString::new(dl).unwrap().as_ptr());
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module { td, fns: vec![], fidx: HashMap::new(), gaddr: HashMap::new(), globals: vec![], cache: RefCell::new(HashMap::new()), next_slot: 1 };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                md.fidx.insert(f as usize, md.fns.len() as u32);
                md.fns.push((f, name_of(f), LLVMIsDeclaration(f) != 0));
                f = LLVMGetNextFunction(f);
            }
            let mut gs = vec![];
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let t = LLVMGlobalGetValueType(g);
                let sz = LLVMABISizeOfType(td, t).max(1);
                let slot = md.next_slot;
                md.next_slot += 1 + (sz >> SLOT) as u32;
                md.gaddr.insert(g as usize, (slot as u64) << SLOT);
                md.globals.push(Global { name: name_of(g), slot, bytes: vec![0; sz as usize], konst: LLVMIsGlobalConstant(g) != 0 });
                gs.push((g, t));
                g = LLVMGetNextGlobal(g);
            }
            for (i, (g, _)) in gs.iter().enumerate() {
                let init = LLVMGetInitializer(*g);
                if !init.is_null() {
                    let mut b = std::mem::take(&mut md.globals[i].bytes);
                    md.write_const(init, &mut b, 0);
                    md.globals[i].bytes = b;
                }
            }
            md
        }
    }
    pub fn find(&self, name: &str) -> Option<u32> { self.fns.iter().position(|f| f.1 == name).map(|i| i as u32) }
    pub fn fn_addr(i: u32) -> u64 { FN_BASE + ((i as u64) << 4) }

    pub fn ty(&self, t: L) -> Ty {
        unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void, 2 => Ty::F32, 3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                10 => { let n = LLVMCountStructElementTypes(t); Ty::Agg(Rc::new((0..n).map(|i| (self.ty(LLVMStructGetTypeAtIndex(t, i)), LLVMOffsetOfElement(self.td, t, i))).collect()), LLVMABISizeOfType(self.td, t)) }
                11 => { let e = LLVMGetElementType(t); let s = LLVMABISizeOfType(self.td, e); let n = LLVMGetArrayLength2(t);
                    let et = self.ty(e); Ty::Agg(Rc::new((0..n).map(|i| (et.clone(), i * s)).collect()), n * s) }
                12 => Ty::Ptr,
                13 => Ty::Vec(LLVMGetVectorSize(t), Rc::new(self.ty(LLVMGetElementType(t)))),
                _ => Ty::Other,
            }
        }
    }
    fn const_int(&self, v: L, w: u16) -> u128 {
        unsafe {
            if w <= 64 { return LLVMConstIntGetZExtValue(v) as u128 & mask(w); }
            let s = print(v);
            let t = s.split_whitespace().last().unwrap().to_string();
            if w > 128 {
                if t == "0" { return 0; }
                if let Ok(x) = t.parse::<u128>() { return x; }
                panic!("wide constant {}", s);
            }
            if let Some(n) = t.strip_prefix('-') { (n.parse::<u128>().unwrap()).wrapping_neg() & mask(w) } else { t.parse::<u128>().unwrap() & mask(w) }
        }
    }
    /// constants are always concrete: addresses of globals and functions are fixed
    pub fn const_val(&self, v: L) -> Val {
        unsafe {
            let lt = LLVMTypeOf(v);
            let t = self.ty(lt);
            match LLVMGetValueKind(v) {
                5 => Val::C(64, Self::fn_addr(self.fidx[&(v as usize)]) as u128),
                6 => self.const_val(LLVMAliasGetAliasee(v)),
                8 => Val::C(64, self.gaddr[&(v as usize)] as u128),
                18 => { let w = t.w(); let x = self.const_int(v, w); if w > 128 { Val::C(w, x) } else { Val::C(w, x) } }
                19 => { let mut l = 0; let d = LLVMConstRealGetDouble(v, &mut l); match t { Ty::F32 => Val::C(32, (d as f32).to_bits() as u128), _ => Val::C(64, d.to_bits() as u128) } }
                20 => Val::C(64, 0),
                14 | 25 | 15 => t.zero(),
                11 | 12 | 13 | 16 | 17 => {
                    let n = match &t { Ty::Agg(f, _) => f.len() as u32, Ty::Vec(n, _) => *n, _ => panic!("agg const") };
                    Val::A(Rc::new((0..n).map(|i| self.const_val(LLVMGetAggregateElement(v, i))).collect()))
                }
                10 => self.const_expr(v, &t),
                k => panic!("constant kind {}: {}", k, print(v)),
            }
        }
    }
    fn cu(&self, v: L) -> u128 { match self.const_val(v) { Val::C(_, x) => x, _ => panic!("scalar const") } }
    fn const_expr(&self, v: L, t: &Ty) -> Val {
        unsafe {
            let op = LLVMGetConstOpcode(v);
            let o = |i| LLVMGetOperand(v, i);
            match op {
                29 => {
                    let (k, dynamic) = self.gep_parts(v, &mut |x| Opnd::K(self.const_val(x)));
                    let mut a = (self.cu(o(0)) as u64).wrapping_add(k);
                    for (d, s) in dynamic { if let Opnd::K(Val::C(w, x)) = d { a = a.wrapping_add((sext(x, w) as i64 as u64).wrapping_mul(s)); } }
                    Val::C(64, a as u128)
                }
                39 | 40 | 41 | 31 => { let x = self.cu(o(0)); Val::C(t.w(), x & mask(t.w())) }
                30 => Val::C(t.w(), self.cu(o(0)) & mask(t.w())),
                8 => Val::C(t.w(), self.cu(o(0)).wrapping_add(self.cu(o(1))) & mask(t.w())),
                10 => Val::C(t.w(), self.cu(o(0)).wrapping_sub(self.cu(o(1))) & mask(t.w())),
                42 => { let (a, b) = (self.cu(o(0)), self.cu(o(1))); let p = LLVMGetICmpPredicate(v); Val::C(1, match p { 32 => a == b, 33 => a != b, 34 => a > b, 35 => a >= b, 36 => a < b, 37 => a <= b, _ => panic!("ce icmp") } as u128) }
                46 => if self.cu(o(0)) != 0 { self.const_val(o(1)) } else { self.const_val(o(2)) },
                _ => panic!("constant expr opcode {}: {}", op, print(v)),
            }
        }
    }
    fn write_const(&self, v: L, b: &mut [u8], off: usize) {
        unsafe {
            let t = LLVMTypeOf(v);
            match LLVMGetValueKind(v) {
                15 | 14 | 25 => {}
                16 if LLVMIsConstantString(v) != 0 => {
                    let mut n = 0; let p = LLVMGetAsString(v, &mut n);
                    b[off..off + n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
                }
                11 | 12 | 13 | 16 | 17 => {
                    let offs: Vec<u64> = match self.ty(t) { Ty::Agg(f, _) => f.iter().map(|x| x.1).collect(), Ty::Vec(n, e) => (0..n as u64).map(|i| i * e.w() as u64 / 8).collect(), _ => panic!() };
                    for (i, o) in offs.iter().enumerate() { self.write_const(LLVMGetAggregateElement(v, i as u32), b, off + *o as usize); }
                }
                _ => {
                    if let Val::C(w, x) = self.const_val(v) { let n = (w as usize + 7) / 8; b[off..off + n.min(16)].copy_from_slice(&x.to_le_bytes()[..n.min(16)]); }
                    else { panic!("write_const {}", print(v)); }
                }
            }
        }
    }
    fn gep_parts(&self, v: L, f: &mut dyn FnMut(L) -> Opnd) -> (u64, Vec<(Opnd, u64)>) {
        unsafe {
            let n = LLVMGetNumOperands(v) as u32;
            let mut t = LLVMGetGEPSourceElementType(v);
            let (mut k, mut d) = (0u64, vec![]);
            for i in 1..n {
                let x = LLVMGetOperand(v, i);
                let is_int = LLVMGetValueKind(x) == 18;
                if i > 1 && LLVMGetTypeKind(t) == 10 {
                    let j = LLVMConstIntGetZExtValue(x) as u32;
                    k = k.wrapping_add(LLVMOffsetOfElement(self.td, t, j));
                    t = LLVMStructGetTypeAtIndex(t, j);
                    continue;
                }
                if i > 1 { t = LLVMGetElementType(t); }
                let s = LLVMABISizeOfType(self.td, t);
                if is_int { let w = self.ty(LLVMTypeOf(x)).w(); k = k.wrapping_add((sext(LLVMConstIntGetZExtValue(x) as u128, w) as i64 as u64).wrapping_mul(s)); }
                else { d.push((f(x), s)); }
            }
            (k, d)
        }
    }

    pub fn func(&self, idx: u32) -> Rc<Func> {
        if let Some(f) = self.cache.borrow().get(&idx) { return f.clone(); }
        let f = Rc::new(self.decode(idx));
        self.cache.borrow_mut().insert(idx, f.clone());
        f
    }
    fn decode(&self, idx: u32) -> Func {
        unsafe {
            let fv = self.fns[idx as usize].0;
            let nargs = LLVMCountParams(fv);
            let mut regs: HashMap<usize, u32> = HashMap::new();
            for i in 0..nargs { regs.insert(LLVMGetParam(fv, i) as usize, i); }
            let mut nregs = nargs;
            let mut blks: HashMap<usize, u32> = HashMap::new();
            let mut bb = LLVMGetFirstBasicBlock(fv);
            let mut order = vec![];
            while !bb.is_null() {
                blks.insert(bb as usize, order.len() as u32);
                order.push(bb);
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { regs.insert(i as usize, nregs); nregs += 1; }
                    i = LLVMGetNextInstruction(i);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            let opnd = |v: L| -> Opnd {
                match regs.get(&(v as usize)) {
                    Some(&r) => Opnd::R(r),
                    None => match LLVMGetValueKind(v) { 22 | 23 => Opnd::K(Val::C(64, 0)), _ => Opnd::K(self.const_val(v)) },
                }
            };
            let mut blocks = vec![];
            for &bb in &order {
                let mut blk = Block { phis: vec![], ins: vec![] };
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    let dst = regs.get(&(i as usize)).copied().unwrap_or(NONE);
                    let op = LLVMGetInstructionOpcode(i);
                    let o = |k: u32| opnd(LLVMGetOperand(i, k));
                    let ty = self.ty(LLVMTypeOf(i));
                    let ot = |k: u32| self.ty(LLVMTypeOf(LLVMGetOperand(i, k)));
                    let ins = match op {
                        44 => {
                            let n = LLVMCountIncoming(i);
                            let v = (0..n).map(|k| (blks[&(LLVMGetIncomingBlock(i, k) as usize)], opnd(LLVMGetIncomingValue(i, k)))).collect();
                            blk.phis.push((dst, v));
                            i = LLVMGetNextInstruction(i);
                            continue;
                        }
                        1 => I::Ret(if LLVMGetNumOperands(i) > 0 { Some(o(0)) } else { None }),
                        2 => if LLVMIsConditional(i) != 0 { I::CondBr(opnd(LLVMGetCondition(i)), blks[&(LLVMGetSuccessor(i, 0) as usize)], blks[&(LLVMGetSuccessor(i, 1) as usize)]) } else { I::Br(blks[&(LLVMGetSuccessor(i, 0) as usize)]) },
                        3 => {
                            let n = LLVMGetNumSuccessors(i);
                            let mut cs = vec![];
                            for k in 1..n { cs.push((self.cu(LLVMGetOperand(i, 2 * k)), blks[&(LLVMGetSuccessor(i, k) as usize)])); }
                            I::Switch(o(0), cs, blks[&(LLVMGetSuccessor(i, 0) as usize)])
                        }
                        7 => I::Unreachable,
                        8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 | 9 | 11 | 13 | 16 | 19 => I::Bin(op, o(0), o(1)),
                        26 => I::Alloca(LLVMABISizeOfType(self.td, LLVMGetAllocatedType(i)), o(0)),
                        27 => I::Load(ty, o(0)),
                        28 => I::Store(ot(0), o(0), o(1)),
                        29 => { let (k, d) = self.gep_parts(i, &mut |x| opnd(x)); I::Gep(o(0), k, d) }
                        30 => I::Cast(Cast::Trunc, o(0), ot(0), ty),
                        31 => I::Cast(Cast::ZExt, o(0), ot(0), ty),
                        32 => I::Cast(Cast::SExt, o(0), ot(0), ty),
                        33 => I::Cast(Cast::FPToUI, o(0), ot(0), ty),
                        34 => I::Cast(Cast::FPToSI, o(0), ot(0), ty),
                        35 => I::Cast(Cast::UIToFP, o(0), ot(0), ty),
                        36 => I::Cast(Cast::SIToFP, o(0), ot(0), ty),
                        37 => I::Cast(Cast::FPTrunc, o(0), ot(0), ty),
                        38 => I::Cast(Cast::FPExt, o(0), ot(0), ty),
                        39 => I::Cast(if ty.w() < 64 { Cast::Trunc } else { Cast::ZExt }, o(0), ot(0), ty),
                        40 => I::Cast(if ot(0).w() > 64 { Cast::Trunc } else { Cast::ZExt }, o(0), ot(0), ty),
                        41 | 60 => I::Cast(Cast::Bit, o(0), ot(0), ty),
                        42 => I::ICmp(LLVMGetICmpPredicate(i), o(0), o(1)),
                        43 => I::FCmp(LLVMGetFCmpPredicate(i), o(0), o(1)),
                        45 | 5 => {
                            let cv = LLVMGetCalledValue(i);
                            let n = LLVMGetNumArgOperands(i);
                            let args = (0..n).map(|k| o(k)).collect();
                            let c = match self.fidx.get(&(cv as usize)) { Some(&x) => Callee::Direct(x), None => if LLVMGetValueKind(cv) == 23 { Callee::Direct(NONE) } else { Callee::Ind(opnd(cv)) } };
                            I::Call(c, args, if op == 5 { Some(blks[&(LLVMGetNormalDest(i) as usize)]) } else { None }, ty)
                        }
                        46 => I::Select(o(0), o(1), o(2)),
                        50 => I::ExtractElem(o(0), o(1)),
                        51 => I::InsertElem(o(0), o(1), o(2)),
                        52 => I::Shuffle(o(0), o(1), (0..LLVMGetNumMaskElements(i)).map(|k| LLVMGetMaskValue(i, k)).collect()),
                        53 => I::ExtractValue(o(0), std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec()),
                        54 => I::InsertValue(o(0), o(1), std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec()),
                        55 => I::Nop,
                        56 => I::CmpXchg(ot(1), o(0), o(1), o(2)),
                        57 => I::Rmw(LLVMGetAtomicRMWBinOp(i), ot(1), o(0), o(1)),
                        68 => I::Freeze(o(0)),
                        58 | 59 => I::Unsup("unwind".into()),
                        _ => I::Unsup(print(i)),
                    };
                    blk.ins.push(Ins { i: ins, dst });
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(blk);
            }
            Func { name: self.fns[idx as usize].1.clone(), nargs, nregs, blocks, idx }
        }
    }
}

//! Path-forking symbolic executor over the decoded bitcode.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub bytes: Vec<u8>, pub sym: Option<Vec<(u32, u8)>>, pub konst: bool }

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, blk: u32, ip: u32, regs: Vec<Val>, allocas: Vec<u32>, ret: u32, normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Vec<E>,
    facts: Vec<E>, // conditions implied by pc (decided branches)
    model: Vec<u128>,
    draws: Vec<u32>, // variable numbers in draw order
    steps: u64,
    /// condition under which a panic is a violation
    no_panic: Val,
    obs: Vec<Val>,
}

#[derive(Clone, Debug)]
pub struct Violation { pub msg: String, pub draws: Vec<u128> }

#[derive(Default)]
pub struct Out {
    pub paths: u64, pub aborted: u64, pub pruned: u64, pub steps: u64, pub props_checked: u64, pub props_trivial: u64, pub branches: u64,
    pub panics: BTreeMap<String, u64>,
    pub witnesses: BTreeMap<String, bool>,
    pub props: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub errors: BTreeSet<String>,
    pub violation: Option<Violation>,
    pub samples: Vec<(Vec<u128>, String)>,
}

enum Step { Next, Jump(u32), End, Call }
/// why the current path stops
enum Stop { Pruned, Panic(String), Err(String), Done, Fork }
type R<T> = Result<T, Stop>;

pub struct Exec<'a> {
    pub m: &'a Module,
    pub p: Pool,
    pub s: Solver,
    pub work: Vec<State>,
    pub out: Out,
    special: Vec<Sp>,
    pub step_limit: u64,
    pub deadline: Instant,
    seen_q: u64,
    pub entered: Vec<bool>,
    pub redirect: HashMap<u32, u32>,
    pub fork_loc: HashMap<String, u64>,
    pub trace: bool,
    pub default_no_panic: bool,
    pub max_samples: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sp { Normal, Panic, Alloc, AllocZ, Dealloc, Realloc, Nop, Memcpy, Memset, Bcmp, Memcmp, Strlen, Draw(u16), Assume, Observe, Prop, Witness, Conc, ForbidPanic, FmtWrite, Intr(It), Extern }
#[derive(Clone, Copy, PartialEq, Debug)]
enum It { UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UMax, UMin, SMax, SMin, UAddSat, USubSat, Fshl, Fshr, Ctlz, Cttz, Ctpop, Bswap, Expect, LoadRel, FToUSat, RedAdd, RedOr, RedAnd, Abs, Trap, IsConst, ObjSize, Sqrt }

fn classify(n: &str, decl: bool) -> Sp {
    let st = |p: &str| n.starts_with(p);
    match n {
        "sx_u8" => return Sp::Draw(8), "sx_u16" => return Sp::Draw(16), "sx_u32" => return Sp::Draw(32), "sx_u64" => return Sp::Draw(64),
        "sx_assume" => return Sp::Assume, "sx_prop" => return Sp::Prop, "sx_witness" => return Sp::Witness, "sx_concretize" => return Sp::Conc, "sx_observe" => return Sp::Observe,
        "sx_forbid_panic" => return Sp::ForbidPanic,
        "__rust_alloc" => return Sp::Alloc, "__rust_alloc_zeroed" => return Sp::AllocZ, "__rust_dealloc" => return Sp::Dealloc, "__rust_realloc" => return Sp::Realloc,
        "bcmp" => return Sp::Bcmp, "memcmp" => return Sp::Memcmp, "strlen" => return Sp::Strlen,
        "abort" | "rust_begin_unwind" | "rust_panic" => return Sp::Panic,
        _ => {}
    }
    if n.contains("4core9panicking") || n.contains("3std9panicking11begin_panic") || n.contains("18handle_alloc_error") || n.contains("16capacity_overflow") || n.contains("rust_oom") { return Sp::Panic; }
    if n.contains("4core3fmt5write17h") || n.contains("3std2io5stdio6_print") || n.contains("3std2io5stdio7_eprint") { return Sp::FmtWrite; }
    if st("llvm.") {
        let i = |x| Sp::Intr(x);
        return if st("llvm.memcpy") || st("llvm.memmove") { Sp::Memcpy } else if st("llvm.memset") { Sp::Memset }
        else if st("llvm.lifetime") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.dbg") || st("llvm.prefetch") || st("llvm.x86.sse2.pause") || st("llvm.donothing") || st("llvm.stacksave") || st("llvm.stackrestore") { Sp::Nop }
        else if st("llvm.uadd.with") { i(It::UAddO) } else if st("llvm.usub.with") { i(It::USubO) } else if st("llvm.umul.with") { i(It::UMulO) }
        else if st("llvm.sadd.with") { i(It::SAddO) } else if st("llvm.ssub.with") { i(It::SSubO) } else if st("llvm.smul.with") { i(It::SMulO) }
        else if st("llvm.umax") { i(It::UMax) } else if st("llvm.umin") { i(It::UMin) } else if st("llvm.smax") { i(It::SMax) } else if st("llvm.smin") { i(It::SMin) }
        else if st("llvm.uadd.sat") { i(It::UAddSat) } else if st("llvm.usub.sat") { i(It::USubSat) }
        else if st("llvm.fshl") { i(It::Fshl) } else if st("llvm.fshr") { i(It::Fshr) }
        else if st("llvm.ctlz") { i(It::Ctlz) } else if st("llvm.cttz") { i(It::Cttz) } else if st("llvm.ctpop") { i(It::Ctpop) }
        else if st("llvm.bswap") { i(It::Bswap) } else if st("llvm.expect") { i(It::Expect) } else if st("llvm.load.relative") { i(It::LoadRel) }
        else if st("llvm.fptoui.sat") { i(It::FToUSat) } else if st("llvm.vector.reduce.add") { i(It::RedAdd) } else if st("llvm.vector.reduce.or") { i(It::RedOr) }
        else if st("llvm.vector.reduce.and") { i(It::RedAnd) }
        else if st("llvm.abs") { i(It::Abs) } else if st("llvm.trap") { i(It::Trap) } else if st("llvm.is.constant") { i(It::IsConst) } else if st("llvm.objectsize") { i(It::ObjSize) }
        else { Sp::Extern };
    }
    if decl { Sp::Extern } else { Sp::Normal }
}

pub fn demangle(n: &str) -> String {
    // legacy Rust mangling: _ZN<len><ident>...17h<hash>E
    let s = match n.strip_prefix("_ZN") { Some(s) => s, None => return n.to_string() };
    let b = s.as_bytes();
    let (mut i, mut parts) = (0, vec![]);
    while i < b.len() && b[i].is_ascii_digit() {
        let mut l = 0usize;
        while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1; }
        if i + l > b.len() { break; }
        parts.push(s[i..i + l].to_string());
        i += l;
    }
    if let Some(l) = parts.last() { if l.len() == 17 && l.starts_with('h') { parts.pop(); } }
    parts.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$RF$", "&").replace("$u20$", " ").replace("$C$", ",").replace("$u7b$", "{").replace("$u7d$", "}").replace("..", "::")
}

impl<'a> Exec<'a> {
    pub fn new(m: &'a Module) -> Exec<'a> {
        let special = m.fns.iter().map(|f| classify(&f.1, f.2)).collect();
        let entered = vec![false; m.fns.len()];
        Exec { m, p: Pool::new(), s: Solver::new(), work: vec![], out: Out::default(), special, step_limit: 50_000_000, seen_q: 0, deadline: Instant::now() + std::time::Duration::from_secs(100000), entered, redirect: HashMap::new(), fork_loc: HashMap::new(), trace: std::env::var("SX_TRACE").is_ok(), default_no_panic: false, max_samples: 6 }
    }
    pub fn start(&mut self, entry: u32) {
        let mut mem: Vec<Option<Rc<Obj>>> = vec![None; self.m.next_slot as usize];
        for g in &self.m.globals { mem[g.slot as usize] = Some(Rc::new(Obj { size: g.bytes.len() as u64, bytes: g.bytes.clone(), sym: None, konst: g.konst })); }
        let f = self.m.func(entry);
        let st = State { frames: vec![], mem, free: vec![], pc: vec![], facts: vec![], model: vec![], draws: vec![], steps: 0, no_panic: Val::C(1, self.default_no_panic as u128), obs: vec![] };
        let mut st = st;
        self.push_frame(&mut st, f, vec![], NONE, None);
        self.work.push(st);
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, ret: u32, normal: Option<u32>) {
        self.entered[f.idx as usize] = true;
        let mut regs = args;
        regs.resize(f.nregs as usize, Val::C(1, 0));
        st.frames.push(Rc::new(Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret, normal }));
    }

    // ------------------------------------------------------------ values
    fn e(&mut self, v: &Val) -> E {
        match v {
            Val::C(w, x) => if *w <= 128 { self.p.cst(*w, *x) } else { let z = self.p.zero(*w - 128); let l = self.p.cst(128, *x); self.p.concat(z, l) },
            Val::S(_, e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val { let w = self.p.w(e); match self.p.is_const(e) { Some(x) => Val::C(w, x), None => Val::S(w, e) } }
    fn get(&self, st: &State, o: &Opnd) -> Val {
        match o { Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opnd::K(v) => v.clone() }
    }
    fn top<'b>(st: &'b mut State) -> &'b mut Frame { Rc::make_mut(st.frames.last_mut().unwrap()) }
    fn set(st: &mut State, r: u32, v: Val) { if r != NONE { Self::top(st).regs[r as usize] = v; } }

    fn upd_model(st: &mut State, m: &[(u32, u128)]) {
        for &(v, x) in m { if st.model.len() <= v as usize { st.model.resize(v as usize + 1, 0); } st.model[v as usize] = x; }
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        // split conjunctions: finer slicing
        let n = self.p.n(c);
        if n.op == Op::And && n.w == 1 { self.add_pc(st, n.a); self.add_pc(st, n.b); return; }
        if self.p.is_const(c).is_none() && !st.pc.contains(&c) { st.pc.push(c); }
    }
    fn loc(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(3) { s += &format!("{}:{}:{} < ", demangle(&f.f.name), f.blk, f.ip); }
        s
    }
    /// follows one side of a symbolic condition, queueing the other when feasible
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.p.is_const(c) { return Ok(v != 0); }
        self.out.branches += 1;
        let side = self.p.eval1(c, &st.model);
        let nc = self.p.not(c);
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        if st.pc.contains(&mine) || st.facts.contains(&mine) { return Ok(side); }
        match self.s.check(&mut self.p, &st.pc, other) {
            Res::Unsat => st.facts.push(mine),
            Res::Sat(m) => {
                if self.trace { *self.fork_loc.entry(self.loc(st)).or_insert(0) += 1; }
                let mut o = st.clone();
                self.add_pc(&mut o, other);
                Self::upd_model(&mut o, &m);
                self.work.push(o);
                self.add_pc(st, mine);
            }
            Res::Unknown => return Err(Stop::Err(format!("solver timeout at {}", self.loc(st)))),
        }
        Ok(side)
    }
    /// the value of `v` as a concrete number, forking over its feasible values
    fn conc(&mut self, st: &mut State, v: &Val, o: Option<&Opnd>) -> R<u128> {
        let e = match v { Val::C(_, x) => return Ok(*x), Val::S(_, e) => *e, _ => return Err(Stop::Err("concretize aggregate".into())) };
        let mut memo = HashMap::default();
        let x = self.p.eval(e, &st.model, &mut memo).lo();
        let w = self.p.w(e);
        let k = self.p.cst(w, x);
        let eq = self.p.bin(Op::Eq, e, k);
        if self.p.is_const(eq).is_none() {
            let ne = self.p.not(eq);
            match self.s.check(&mut self.p, &st.pc, ne) {
                Res::Unsat => {}
                Res::Sat(m) => {
                    if self.trace { *self.fork_loc.entry(format!("conc {}", self.loc(st))).or_insert(0) += 1; }
                    let mut s2 = st.clone();
                    self.add_pc(&mut s2, ne);
                    Self::upd_model(&mut s2, &m);
                    self.work.push(s2);
                    self.add_pc(st, eq);
                }
                Res::Unknown => return Err(Stop::Err(format!("solver timeout (value) at {}", self.loc(st)))),
            }
        }
        if let Some(Opnd::R(r)) = o { Self::set(st, *r, Val::C(w, x)); }
        Ok(x)
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64) -> (u32, u64) {
        let o = Rc::new(Obj { size, bytes: vec![0; size as usize], sym: None, konst: false });
        let span = 1 + (size >> SLOT) as u32;
        if span == 1 { if let Some(s) = st.free.pop() { st.mem[s as usize] = Some(o); return (s, (s as u64) << SLOT); } }
        let s = st.mem.len() as u32;
        st.mem.push(Some(o));
        for _ in 1..span { st.mem.push(None); }
        (s, (s as u64) << SLOT)
    }
    fn obj<'b>(st: &'b State, a: u64, n: u64) -> R<(usize, u64)> {
        let s = (a >> SLOT) as usize;
        let off = a & ((1 << SLOT) - 1);
        match st.mem.get(s) {
            Some(Some(o)) if off + n <= o.size => Ok((s, off)),
            Some(Some(o)) => Err(Stop::Err(format!("MEM out of bounds access: offset {} len {} of object of size {}", off, n, o.size))),
            _ => Err(Stop::Err(format!("MEM access to unmapped address {:#x} ({} bytes)", a, n))),
        }
    }
    fn load_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Val> {
        if n == 0 { return Ok(Val::C(0, 0)); }
        let (s, off) = Self::obj(st, a, n)?;
        let o = st.mem[s].as_ref().unwrap();
        let (off, n) = (off as usize, n as usize);
        let concrete = match &o.sym { None => true, Some(v) => v[off..off + n].iter().all(|x| x.0 == 0) };
        if concrete && n <= 16 {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.bytes[off..off + n]);
            return Ok(Val::C(n as u16 * 8, u128::from_le_bytes(b)));
        }
        let sym = o.sym.clone();
        let bytes = o.bytes[off..off + n].to_vec();
        let sv = |i: usize| sym.as_ref().map(|v| v[off + i]).unwrap_or((0, 0));
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            let (e, k) = sv(i);
            let mut j = i + 1;
            let piece = if e == 0 {
                while j < n && sv(j).0 == 0 && j - i < 16 { j += 1; }
                let mut b = [0u8; 16]; b[..j - i].copy_from_slice(&bytes[i..j]);
                self.p.cst((j - i) as u16 * 8, u128::from_le_bytes(b))
            } else {
                while j < n && sv(j) == (e, k + (j - i) as u8) { j += 1; }
                self.p.extract(e, k as u16 * 8, (j - i) as u16 * 8)
            };
            acc = Some(match acc { None => piece, Some(l) => self.p.concat(piece, l) });
            i = j;
        }
        Ok(self.v(acc.unwrap()))
    }
    fn store_bytes(&mut self, st: &mut State, a: u64, n: u64, v: &Val) -> R<()> {
        if n == 0 { return Ok(()); }
        let (s, off) = Self::obj(st, a, n)?;
        let o = Rc::make_mut(st.mem[s].as_mut().unwrap());
        if o.konst { return Err(Stop::Err("MEM store to constant".into())); }
        let (off, n) = (off as usize, n as usize);
        match v {
            Val::C(_, x) => {
                let b = x.to_le_bytes();
                for i in 0..n { o.bytes[off + i] = if i < 16 { b[i] } else { 0 }; }
                if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + n] { *x = (0, 0); } }
            }
            Val::S(w, e) => {
                let mut e = *e;
                if *w as usize != n * 8 { e = self.p.zext(e, n as u16 * 8); }
                let mut pieces: Vec<(E, usize)> = vec![];
                // store concat pieces separately when byte aligned, so that constants stay concrete
                let mut cur = e;
                loop {
                    let nd = self.p.n(cur);
                    if nd.op == Op::Concat && self.p.w(nd.b) % 8 == 0 { pieces.push((nd.b, self.p.w(nd.b) as usize / 8)); cur = nd.a; }
                    else { pieces.push((cur, self.p.w(cur) as usize / 8)); break; }
                }
                let sz = o.size as usize;
                let mut at = off;
                for (pe, pn) in pieces {
                    if let Some(x) = self.p.is_const(pe) {
                        let b = x.to_le_bytes();
                        for i in 0..pn { o.bytes[at + i] = b[i]; }
                        if let Some(sy) = &mut o.sym { for x in &mut sy[at..at + pn] { *x = (0, 0); } }
                    } else {
                        // an extract that is byte aligned refers to its base term
                        let nd = self.p.n(pe);
                        let (be, bk) = if nd.op == Op::Extract && nd.c % 8 == 0 && nd.c / 8 + pn as u32 <= 255 { (nd.a, (nd.c / 8) as u8) } else { (pe, 0) };
                        let sy = o.sym.get_or_insert_with(|| vec![(0, 0); sz]);
                        for i in 0..pn { sy[at + i] = (be, bk + i as u8); }
                    }
                    at += pn;
                }
            }
            Val::A(_) => return Err(Stop::Err("store aggregate bytes".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Agg(fs, _) => { let mut v = vec![]; for (ft, o) in fs.iter() { v.push(self.load(st, a + o, ft)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Vec(n, et) => {
                let b = et.w() as u64 / 8;
                if b == 0 || et.w() % 8 != 0 { return Err(Stop::Err("vector of bits load".into())); }
                let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(st, a + i * b, et)?); } Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = t.w(); let n = (w as u64 + 7) / 8;
                let r = self.load_bytes(st, a, n)?;
                if w as u64 == n * 8 { return Ok(r); }
                Ok(match r { Val::C(_, x) => Val::C(w, x & mask(w)), Val::S(_, e) => { let x = self.p.extract(e, 0, w); self.v(x) } v => v })
            }
        }
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Agg(fs, _), Val::A(x)) => { for (i, (ft, o)) in fs.iter().enumerate() { self.store(st, a + o, ft, &x[i])?; } Ok(()) }
            (Ty::Vec(_, et), Val::A(x)) => { let b = et.w() as u64 / 8; for (i, y) in x.iter().enumerate() { self.store(st, a + i as u64 * b, et, y)?; } Ok(()) }
            _ => { let n = (t.w() as u64 + 7) / 8; self.store_bytes(st, a, n, v) }
        }
    }

    // ------------------------------------------------------------ operators
    fn op2(&mut self, op: Op, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => { let v = x.iter().zip(y.iter()).map(|(p, q)| self.op2(op, p, q)).collect(); Val::A(Rc::new(v)) }
            (Val::C(w, x), Val::C(_, y)) if *w <= 128 => { let r = fold(op, *w, *x, *y); Val::C(if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { *w }, r) }
            _ => { let (x, y) = (self.e(a), self.e(b)); let r = self.p.bin(op, x, y); self.v(r) }
        }
    }
    fn icmp(&mut self, p: i32, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) { let v = x.iter().zip(y.iter()).map(|(m, n)| self.icmp(p, m, n)).collect(); return Val::A(Rc::new(v)); }
        match p {
            32 => self.op2(Op::Eq, a, b),
            33 => { let r = self.op2(Op::Eq, a, b); self.not(&r) }
            34 => self.op2(Op::Ult, b, a), 35 => self.op2(Op::Ule, b, a), 36 => self.op2(Op::Ult, a, b), 37 => self.op2(Op::Ule, a, b),
            38 => self.op2(Op::Slt, b, a), 39 => self.op2(Op::Sle, b, a), 40 => self.op2(Op::Slt, a, b), _ => self.op2(Op::Sle, a, b),
        }
    }
    fn not(&mut self, v: &Val) -> Val { self.op2(Op::Xor, v, &Val::C(1, 1)) }
    fn cast(&mut self, c: Cast, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        if c == Cast::Bit { return self.bitcast(v, from, to); }
        if let Val::A(x) = v {
            let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) else { return Err(Stop::Err("vector cast".into())) };
            let mut o = vec![]; for y in x.iter() { o.push(self.cast(c, y, f, t)?); } return Ok(Val::A(Rc::new(o)));
        }
        let w = to.w();
        Ok(match c {
            Cast::Trunc => match v { Val::C(_, x) if w <= 128 => Val::C(w, x & mask(w)), _ => { let e = self.e(v); let r = self.p.extract(e, 0, w); self.v(r) } },
            Cast::ZExt => match v { Val::C(_, x) => Val::C(w, *x), _ => { let e = self.e(v); let r = self.p.zext(e, w); self.v(r) } },
            Cast::SExt => match v { Val::C(fw, x) if w <= 128 => Val::C(w, sext(*x, *fw) as u128 & mask(w)), _ => { let e = self.e(v); let r = self.p.sext_(e, w); self.v(r) } },
            _ => {
                let Val::C(fw, x) = v else { return Err(Stop::Err("symbolic floating point".into())) };
                let f = |t: &Ty, x: u128| -> f64 { match t { Ty::F32 => f32::from_bits(x as u32) as f64, _ => f64::from_bits(x as u64) } };
                let g = |t: &Ty, d: f64| -> Val { match t { Ty::F32 => Val::C(32, (d as f32).to_bits() as u128), _ => Val::C(64, d.to_bits() as u128) } };
                match c {
                    Cast::UIToFP => g(to, *x as f64), Cast::SIToFP => g(to, sext(*x, *fw) as f64),
                    Cast::FPToUI => Val::C(w, (f(from, *x) as u128) & mask(w)), Cast::FPToSI => Val::C(w, (f(from, *x) as i128 as u128) & mask(w)),
                    Cast::FPExt | Cast::FPTrunc => g(to, f(from, *x)), _ => unreachable!(),
                }
            }
        })
    }
    fn flat(&mut self, v: &Val, t: &Ty) -> E {
        match (v, t) {
            (Val::A(x), Ty::Vec(_, _)) => { let x = x.clone(); let mut acc = self.e(&x[0]); for y in &x[1..] { let h = self.e(y); acc = self.p.concat(h, acc); } acc }
            _ => self.e(v),
        }
    }
    fn bitcast(&mut self, v: &Val, from: &Ty, to: &Ty) -> R<Val> {
        match (from, to) {
            (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                let e = self.flat(v, from);
                if let Ty::Vec(n, t) = to { let w = t.w(); let mut o = vec![]; for i in 0..*n as u16 { let x = self.p.extract(e, i * w, w); o.push(self.v(x)); } Ok(Val::A(Rc::new(o))) } else { Ok(self.v(e)) }
            }
            _ => Ok(v.clone()),
        }
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        if let Val::A(cs) = c {
            if let (Val::A(x), Val::A(y)) = (a, b) { let v = (0..cs.len()).map(|i| self.select(&cs[i], &x[i], &y[i])).collect(); return Val::A(Rc::new(v)); }
        }
        match c {
            Val::C(_, x) => if *x != 0 { a.clone() } else { b.clone() },
            Val::S(_, ce) => match (a, b) {
                (Val::A(x), Val::A(y)) => { let v = x.iter().zip(y.iter()).map(|(p, q)| self.select(c, p, q)).collect(); Val::A(Rc::new(v)) }
                _ => { let (x, y) = (self.e(a), self.e(b)); let r = self.p.ite(*ce, x, y); self.v(r) }
            },
            _ => unreachable!(),
        }
    }

    /// is this point one where the harness promises that nothing fails?
    fn forbidden(&mut self, st: &mut State) -> Option<bool> {
        match st.no_panic.clone() {
            Val::C(_, x) => Some(x != 0),
            v => {
                let e = self.e(&v);
                match self.s.check(&mut self.p, &st.pc, e) {
                    Res::Sat(m) => { Self::upd_model(st, &m); Some(true) }
                    Res::Unsat => Some(false),
                    Res::Unknown => None,
                }
            }
        }
    }
    // ------------------------------------------------------------ main loop
    pub fn run_one(&mut self, mut st: State) {
        loop {
            st.steps += 1;
            self.out.steps += 1;
            if st.steps > self.step_limit {
                let l = self.loc(&st);
                if self.forbidden(&mut st) == Some(true) { let d = self.draws(&st); self.out.violation = Some(Violation { msg: format!("does not end: {}", l), draws: d }); }
                else { self.out.errors.insert(format!("step limit at {}", l)); }
                return;
            }
            if (st.steps & 0xfff == 0 || self.s.st.queries != self.seen_q) && { self.seen_q = self.s.st.queries; Instant::now() > self.deadline } { self.out.errors.insert("time limit".into()); return; }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Done) => {
                    self.out.paths += 1;
                    if self.out.paths.is_power_of_two() && self.out.samples.len() < self.max_samples { let d = self.draws(&st); let o = self.observed(&st); self.out.samples.push((d, o)); }
                    return;
                }
                Err(Stop::Pruned) => { self.out.pruned += 1; return; }
                Err(Stop::Fork) => return,
                Err(Stop::Panic(m)) => {
                    self.out.aborted += 1;
                    let first = { let n = self.out.panics.entry(m.clone()).or_insert(0); *n += 1; *n == 1 };
                    if first && self.out.panics.len() < 4 { let d = self.draws(&st); self.out.samples.push((d, "PANIC".into())); }
                    let bad = match self.forbidden(&mut st) { Some(b) => b, None => { self.out.errors.insert(format!("solver timeout (panic: {})", m)); return; } };
                    if bad { let d = self.draws(&st); self.out.violation = Some(Violation { msg: format!("unexpected panic: {}", m), draws: d }); }
                    return;
                }
                Err(Stop::Err(m)) => {
                    let l = self.loc(&st);
                    if m.starts_with("MEM") { let d = self.draws(&st); self.out.violation = Some(Violation { msg: format!("memory safety: {} at {}", m, l), draws: d }); return; }
                    self.out.errors.insert(format!("{} at {}", m, l));
                    return;
                }
            }
            if self.out.violation.is_some() { return; }
        }
    }
    fn draws(&self, st: &State) -> Vec<u128> { st.draws.iter().map(|&v| st.model.get(v as usize).copied().unwrap_or(0) & mask(self.p.vars[v as usize].0)).collect() }

    /// the values passed to `sx_observe` on this path, under the path's model
    fn observed(&mut self, st: &State) -> String {
        let mut memo = HashMap::default();
        let mut o = String::new();
        for v in &st.obs { let x = match v { Val::C(_, x) => *x, Val::S(_, e) => self.p.eval(*e, &st.model, &mut memo).lo(), _ => 0 }; o += &format!("{:x} ", x as u64); }
        o.trim_end().to_string()
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap().clone();
        let blk = &fr.f.blocks[to as usize];
        let mut vals = vec![];
        for (dst, inc) in &blk.phis {
            let mut found = false;
            for (b, o) in inc { if *b == fr.blk { vals.push((*dst, self.get(st, o))); found = true; break; } }
            if !found { panic!("phi without incoming edge"); }
        }
        drop(fr);
        let t = Self::top(st);
        t.blk = to; t.ip = 0;
        for (d, v) in vals { t.regs[d as usize] = v; }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        let dst = ins.dst;
        match self.exec(st, &ins.i, dst)? {
            Step::Next => { Self::top(st).ip += 1; }
            Step::Jump(b) => self.jump(st, b),
            Step::Call => {}
            Step::End => return Err(Stop::Done),
        }
        Ok(())
    }
    /// x >= y follows from the path condition by a recorded comparison
    fn known_ge(&mut self, st: &mut State, x: &Val, y: &Val) -> bool {
        if !matches!((x, y), (Val::S(w, _), _) | (_, Val::S(w, _)) if *w <= 128 && *w > 1) { return false; }
        let (a, b) = (self.e(x), self.e(y));
        let le = self.p.bin(Op::Ule, b, a);
        if let Some(v) = self.p.is_const(le) { return v == 1; }
        if st.pc.contains(&le) || st.facts.contains(&le) { return true; }
        let lt = self.p.bin(Op::Ult, b, a);
        if st.pc.contains(&lt) || st.facts.contains(&lt) { return true; }
        if self.p.w(a) < 32 || self.p.is_const(a).is_some() { return false; }
        // cheap refutation first: the current model
        let other = self.p.bin(Op::Ult, a, b);
        if self.p.eval1(other, &st.model) { return false; }
        match self.s.check(&mut self.p, &st.pc, other) { Res::Unsat => { st.facts.push(le); true } _ => false }
    }
    /// a minimum or maximum of two symbolic amounts: explored case by case, which keeps terms linear
    fn min_like(&self, c: &Val, a: &Val, b: &Val) -> Option<E> {
        let (Val::S(1, ce), Val::S(w, x), Val::S(_, y)) = (c, a, b) else { return None };
        if *w < 16 || *w > 64 { return None; }
        let n = self.p.n(*ce);
        if !matches!(n.op, Op::Ult | Op::Ule) { return None; }
        let u = |e: E| self.p.unzext(e);
        if (u(n.a) == u(*x) && u(n.b) == u(*y)) || (u(n.a) == u(*y) && u(n.b) == u(*x)) { Some(*ce) } else { None }
    }
    /// picks the smaller or larger operand; ties are broken the same way wherever the pair is compared
    fn pick(&mut self, st: &mut State, c: E, x: &Val, y: &Val) -> R<Val> {
        let n = self.p.n(c);
        // select(a < b, a, b) and select(a < b, b, a) both take the first value when a is the smaller
        let (lo, hi) = if n.a < n.b { (n.a, n.b) } else { (n.b, n.a) };
        let cc = self.p.bin(Op::Ule, lo, hi);
        let le = self.branch(st, cc)?; // lo <= hi
        let small_is_first = (lo == n.a) == le;
        Ok(if small_is_first { x.clone() } else { y.clone() })
    }
    fn addr(&mut self, st: &mut State, o: &Opnd) -> R<u64> { let v = self.get(st, o); Ok(self.conc(st, &v, Some(o))? as u64) }

    fn exec(&mut self, st: &mut State, i: &I, dst: u32) -> R<Step> {
        match i {
            I::Bin(op, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let o = match op { 8 => Op::Add, 10 => Op::Sub, 12 => Op::Mul, 14 => Op::UDiv, 15 => Op::SDiv, 17 => Op::URem, 18 => Op::SRem, 20 => Op::Shl, 21 => Op::LShr, 22 => Op::AShr, 23 => Op::And, 24 => Op::Or, 25 => Op::Xor,
                    _ => {
                        let (Val::C(w, p), Val::C(_, q)) = (&x, &y) else { return Err(Stop::Err("symbolic floating point".into())) };
                        if *w != 64 { return Err(Stop::Err("f32 arithmetic".into())); }
                        let (p, q) = (f64::from_bits(*p as u64), f64::from_bits(*q as u64));
                        let r = match op { 9 => p + q, 11 => p - q, 13 => p * q, 16 => p / q, _ => p % q };
                        Self::set(st, dst, Val::C(64, r.to_bits() as u128));
                        return Ok(Step::Next);
                    }
                };
                if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    if let Val::C(_, 0) = y { return Err(Stop::Err("MEM division by zero (undefined behaviour)".into())); }
                }
                let o = if o == Op::Sub && self.known_ge(st, &x, &y) { Op::SubN } else { o };
                let r = self.op2(o, &x, &y);
                Self::set(st, dst, r);
            }
            I::ICmp(p, a, b) => { let (x, y) = (self.get(st, a), self.get(st, b)); let r = self.icmp(*p, &x, &y); Self::set(st, dst, r); }
            I::FCmp(p, a, b) => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (Val::C(_, x), Val::C(_, y)) = (x, y) else { return Err(Stop::Err("symbolic floating point".into())) };
                let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                let r = match p { 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => x < y || x > y, 7 => !x.is_nan() && !y.is_nan(), 8 => x.is_nan() || y.is_nan(),
                    9 => !(x < y || x > y), 10 => !(x <= y), 11 => !(x < y), 12 => !(x >= y), 13 => !(x > y), 14 => x != y, 15 => true, _ => false };
                Self::set(st, dst, Val::C(1, r as u128));
            }
            I::Cast(c, a, f, t) => { let x = self.get(st, a); let r = self.cast(*c, &x, f, t)?; Self::set(st, dst, r); }
            I::Select(c, a, b) => {
                let (c, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b));
                let r = match self.min_like(&c, &x, &y) { Some(ce) => self.pick(st, ce, &x, &y)?, None => self.select(&c, &x, &y) };
                Self::set(st, dst, r);
            }
            I::Freeze(a) => { let x = self.get(st, a); Self::set(st, dst, x); }
            I::Load(t, a) => { let a = self.addr(st, a)?; let r = self.load(st, a, t)?; Self::set(st, dst, r); }
            I::Store(t, v, a) => { let a = self.addr(st, a)?; let v = self.get(st, v); self.store(st, a, t, &v)?; }
            I::Gep(b, k, d) => {
                let mut r = self.get(st, b);
                if *k != 0 { r = self.op2(Op::Add, &r, &Val::C(64, *k as u128)); }
                for (o, s) in d {
                    let x = self.get(st, o);
                    let x = match x { Val::C(w, v) => Val::C(64, sext(v, w) as u64 as u128), Val::S(_, e) => { let y = if self.p.w(e) > 64 { self.p.extract(e, 0, 64) } else { self.p.sext_(e, 64) }; self.v(y) } v => v };
                    let x = self.op2(Op::Mul, &x, &Val::C(64, *s as u128));
                    r = self.op2(Op::Add, &r, &x);
                }
                Self::set(st, dst, r);
            }
            I::Alloca(sz, n) => {
                let c = self.get(st, n); let c = self.conc(st, &c, Some(n))? as u64;
                let (s, a) = self.alloc(st, sz * c);
                let t = Self::top(st); t.allocas.push(s);
                Self::set(st, dst, Val::C(64, a as u128));
            }
            I::ExtractValue(a, ix) => { let mut v = self.get(st, a); for k in ix { v = match v { Val::A(x) => x[*k as usize].clone(), _ => return Err(Stop::Err("extractvalue".into())) }; } Self::set(st, dst, v); }
            I::InsertValue(a, b, ix) => {
                let v = self.get(st, a); let x = self.get(st, b);
                fn ins(v: &Val, x: &Val, ix: &[u32]) -> Val { if ix.is_empty() { return x.clone(); } match v { Val::A(o) => { let mut o = (**o).clone(); o[ix[0] as usize] = ins(&o[ix[0] as usize], x, &ix[1..]); Val::A(Rc::new(o)) } _ => panic!("insertvalue") } }
                let r = ins(&v, &x, ix);
                Self::set(st, dst, r);
            }
            I::ExtractElem(a, k) => { let v = self.get(st, a); let k0 = self.get(st, k); let k = self.conc(st, &k0, Some(k))? as usize; if let Val::A(x) = v { let r = x[k].clone(); Self::set(st, dst, r); } }
            I::InsertElem(a, b, k) => { let v = self.get(st, a); let x = self.get(st, b); let k0 = self.get(st, k); let k = self.conc(st, &k0, Some(k))? as usize; if let Val::A(o) = v { let mut o = (*o).clone(); o[k] = x; Self::set(st, dst, Val::A(Rc::new(o))); } }
            I::Shuffle(a, b, m) => {
                let (Val::A(x), Val::A(y)) = (self.get(st, a), self.get(st, b)) else { return Err(Stop::Err("shuffle".into())) };
                let z = match &x[0] { Val::C(w, _) | Val::S(w, _) => Val::C(*w, 0), v => v.clone() };
                let r = m.iter().map(|&k| if k < 0 { z.clone() } else if (k as usize) < x.len() { x[k as usize].clone() } else { y[k as usize - x.len()].clone() }).collect();
                Self::set(st, dst, Val::A(Rc::new(r)));
            }
            I::Br(b) => return Ok(Step::Jump(*b)),
            I::CondBr(c, t, f) => {
                let v = self.get(st, c);
                let b = match v { Val::C(_, x) => x != 0, Val::S(_, e) => { let b = self.branch(st, e)?; if let Opnd::R(r) = c { Self::set(st, *r, Val::C(1, b as u128)); } b } _ => return Err(Stop::Err("vector branch".into())) };
                return Ok(Step::Jump(if b { *t } else { *f }));
            }
            I::Switch(v, cs, d) => {
                let x = self.get(st, v);
                match x {
                    Val::C(_, x) => { for (k, b) in cs { if *k == x { return Ok(Step::Jump(*b)); } } return Ok(Step::Jump(*d)); }
                    Val::S(w, e) => {
                        // group the cases by destination so that equal targets do not fork
                        let mut by: Vec<(u32, E)> = vec![];
                        for (k, b) in cs {
                            let kk = self.p.cst(w, *k); let q = self.p.bin(Op::Eq, e, kk);
                            match by.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 = self.p.bin(Op::Or, x.1, q), None => by.push((*b, q)) }
                        }
                        for (b, q) in by { if b == *d { continue; } if self.branch(st, q)? { return Ok(Step::Jump(b)); } }
                        return Ok(Step::Jump(*d));
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(st, o));
                let fr = st.frames.pop().unwrap();
                for s in &fr.allocas { st.mem[*s as usize] = None; st.free.push(*s); }
                if st.frames.is_empty() { return Ok(Step::End); }
                if let Some(r) = r { Self::set(st, fr.ret, r); }
                match fr.normal { Some(b) => self.jump(st, b), None => Self::top(st).ip += 1 }
                return Ok(Step::Call);
            }
            I::Unreachable => return Err(Stop::Err("MEM unreachable executed (undefined behaviour)".into())),
            I::Rmw(op, t, a, b) => {
                let a = self.addr(st, a)?; let old = self.load(st, a, t)?; let x = self.get(st, b);
                let new = match op { 0 => x, 1 => self.op2(Op::Add, &old, &x), 2 => self.op2(Op::Sub, &old, &x), 3 => self.op2(Op::And, &old, &x), 5 => self.op2(Op::Or, &old, &x), 6 => self.op2(Op::Xor, &old, &x), _ => return Err(Stop::Err("atomicrmw".into())) };
                self.store(st, a, t, &new)?;
                Self::set(st, dst, old);
            }
            I::CmpXchg(t, a, c, n) => {
                let a = self.addr(st, a)?; let old = self.load(st, a, t)?; let (c, n) = (self.get(st, c), self.get(st, n));
                let eq = self.op2(Op::Eq, &old, &c);
                let new = self.select(&eq, &n, &old);
                self.store(st, a, t, &new)?;
                Self::set(st, dst, Val::A(Rc::new(vec![old, eq])));
            }
            I::Nop => {}
            I::Unsup(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
            I::Call(c, args, normal, rt) => return self.call(st, c, args, *normal, rt, dst),
        }
        Ok(Step::Next)
    }

    fn panic_msg(&mut self, st: &mut State, name: &str, args: &[Val]) -> String {
        // the last pointer argument is usually a core::panic::Location {file, len, line, col}
        let mut s = demangle(name);
        for a in args.iter().rev() {
            if let Val::C(64, x) = a {
                let a = *x as u64;
                let r = (|| -> Option<String> {
                    let g = |me: &mut Self, at: u64, n: u64| match me.load_bytes(st, at, n) { Ok(Val::C(_, x)) => Some(x as u64), _ => None };
                    let p = g(self, a, 8)?; let n = g(self, a + 8, 8)?; let line = g(self, a + 16, 4)?;
                    if n == 0 || n > 300 { return None; }
                    let mut o = String::new();
                    for i in 0..n { let c = g(self, p + i, 1)?; o.push(c as u8 as char); }
                    Some(format!("{}:{}", o, line))
                })();
                if let Some(r) = r { if r.contains(".rs") { s = format!("{} at {}", s, r); break; } }
            }
        }
        s
    }
    fn read_str(&mut self, st: &State, p: &Val, n: &Val) -> String {
        let (Val::C(_, p), Val::C(_, n)) = (p, n) else { return "?".into() };
        let mut o = vec![];
        for i in 0..*n as u64 { if let Ok(Val::C(_, c)) = self.load_bytes(st, *p as u64 + i, 1) { o.push(c as u8); } }
        String::from_utf8_lossy(&o).into_owned()
    }

    fn call(&mut self, st: &mut State, c: &Callee, args: &[Opnd], normal: Option<u32>, rt: &Ty, dst: u32) -> R<Step> {
        let mut idx = match c {
            Callee::Direct(NONE) => { Self::set(st, dst, rt.zero()); return Ok(match normal { Some(b) => Step::Jump(b), None => Step::Next }); } // inline asm barriers
            Callee::Direct(i) => *i,
            Callee::Ind(o) => {
                let a = self.addr(st, o)?;
                if a < FN_BASE { return Err(Stop::Err(format!("MEM call of non-function address {:#x}", a))); }
                ((a - FN_BASE) >> 4) as u32
            }
        };
        if let Some(&r) = self.redirect.get(&idx) { idx = r; }
        let sp = self.special[idx as usize];
        let av: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
        let next = |_: &mut Self| match normal { Some(b) => Step::Jump(b), None => Step::Next };
        macro_rules! k { ($i:expr) => {{ let v = self.get(st, &args[$i]); self.conc(st, &v, Some(&args[$i]))? }}; }
        match sp {
            Sp::Normal => {
                let f = self.m.func(idx);
                if f.nargs as usize != av.len() { return Err(Stop::Err(format!("argument count of {}", f.name))); }
                if st.frames.len() > 400 { return Err(Stop::Err("call depth".into())); }
                self.push_frame(st, f, av, dst, normal);
                return Ok(Step::Call);
            }
            Sp::Panic => { let n = self.m.fns[idx as usize].1.clone(); let m = self.panic_msg(st, &n, &av); return Err(Stop::Panic(m)); }
            Sp::Nop => {}
            Sp::FmtWrite => { Self::set(st, dst, rt.zero()); }
            Sp::Alloc | Sp::AllocZ => { let n = k!(0) as u64; if n > 1 << 26 { return Err(Stop::Err(format!("allocation of {} bytes", n))); } let (_, a) = self.alloc_heap(st, n); Self::set(st, dst, Val::C(64, a as u128)); }
            Sp::Dealloc => { let a = k!(0) as u64; let s = (a >> SLOT) as usize; if s < st.mem.len() { st.mem[s] = None; } }
            Sp::Realloc => {
                let a = k!(0) as u64; let old = k!(1) as u64; let n = k!(3) as u64;
                let (_, b) = self.alloc_heap(st, n);
                self.copy(st, b, a, old.min(n))?;
                st.mem[(a >> SLOT) as usize] = None;
                Self::set(st, dst, Val::C(64, b as u128));
            }
            Sp::Memcpy => { let n = k!(2) as u64; if n > 0 { let d = k!(0) as u64; let s = k!(1) as u64; self.copy(st, d, s, n)?; } }
            Sp::Memset => {
                let n = k!(2) as u64;
                if n > 0 { let d = k!(0) as u64; let v = av[1].clone();
                    if let Val::C(_, x) = v { let (s, off) = Self::obj(st, d, n)?; let o = Rc::make_mut(st.mem[s].as_mut().unwrap()); for i in 0..n as usize { o.bytes[off as usize + i] = x as u8; } if let Some(sy) = &mut o.sym { for i in 0..n as usize { sy[off as usize + i] = (0, 0); } } }
                    else { for i in 0..n { self.store_bytes(st, d + i, 1, &v)?; } } }
            }
            Sp::Bcmp => {
                let n = k!(2) as u64;
                let mut acc = Val::C(1, 1);
                if n > 0 { let a = k!(0) as u64; let b = k!(1) as u64; let mut i = 0; while i < n { let c = (n - i).min(8); let x = self.load_bytes(st, a + i, c)?; let y = self.load_bytes(st, b + i, c)?; let q = self.op2(Op::Eq, &x, &y); acc = self.op2(Op::And, &acc, &q); i += c; } }
                let r = self.select(&acc, &Val::C(32, 0), &Val::C(32, 1));
                Self::set(st, dst, r);
            }
            Sp::Memcmp => {
                let n = k!(2) as u64;
                let mut acc = Val::C(32, 0);
                if n > 0 { let a = k!(0) as u64; let b = k!(1) as u64;
                    for i in (0..n).rev() { let x = self.load_bytes(st, a + i, 1)?; let y = self.load_bytes(st, b + i, 1)?; let q = self.op2(Op::Eq, &x, &y); let l = self.op2(Op::Ult, &x, &y); let d = self.select(&l, &Val::C(32, 0xffff_ffff), &Val::C(32, 1)); acc = self.select(&q, &acc, &d); } }
                Self::set(st, dst, acc);
            }
            Sp::Strlen => { let a = k!(0) as u64; let mut n = 0; loop { match self.load_bytes(st, a + n, 1)? { Val::C(_, 0) => break, Val::C(..) => n += 1, _ => return Err(Stop::Err("symbolic strlen".into())) } } Self::set(st, dst, Val::C(64, n as u128)); }
            Sp::Draw(w) => {
                let i = st.draws.len() as u32;
                let e = self.p.var(i, w, &format!("d{}_{}", i, w));
                let v = self.p.n(e).a;
                st.draws.push(v);
                if st.model.len() <= v as usize { st.model.resize(v as usize + 1, 0); }
                Self::set(st, dst, Val::S(w, e));
            }
            Sp::Assume => match &av[0] {
                Val::C(_, x) => if *x == 0 { return Err(Stop::Pruned); },
                v => {
                    let e = self.e(v);
                    if !self.p.eval1(e, &st.model) {
                        match self.s.check(&mut self.p, &st.pc, e) {
                            Res::Sat(m) => Self::upd_model(st, &m),
                            Res::Unsat => return Err(Stop::Pruned),
                            Res::Unknown => return Err(Stop::Err(format!("solver timeout (assume) at {}", self.loc(st)))),
                        }
                    }
                    self.add_pc(st, e);
                }
            },
            Sp::Prop => {
                let msg = self.read_str(st, &av[1], &av[2]);
                *self.out.props.entry(msg.clone()).or_insert(0) += 1;
                self.out.props_checked += 1;
                match &av[0] {
                    Val::C(_, x) => { self.out.props_trivial += 1; if *x == 0 { let d = self.draws(st); self.out.violation = Some(Violation { msg, draws: d }); } }
                    v => {
                        let e = self.e(v);
                        let ne = self.p.not(e);
                        match self.s.check(&mut self.p, &st.pc, ne) {
                            Res::Unsat => {}
                            Res::Sat(m) => { Self::upd_model(st, &m); let d = self.draws(st); self.out.violation = Some(Violation { msg, draws: d }); }
                            Res::Unknown => return Err(Stop::Err(format!("solver timeout (property: {})", msg))),
                        }
                    }
                }
            }
            Sp::Witness => {
                let msg = self.read_str(st, &av[1], &av[2]);
                if !self.out.witnesses.get(&msg).copied().unwrap_or(false) {
                    let ok = match &av[0] { Val::C(_, x) => *x != 0, v => { let e = self.e(v); self.p.eval1(e, &st.model) || matches!(self.s.check(&mut self.p, &st.pc, e), Res::Sat(_)) } };
                    self.out.witnesses.insert(msg, ok);
                }
            }
            Sp::Observe => { st.obs.push(av[0].clone()); }
            Sp::Conc => { let x = k!(0); Self::set(st, dst, Val::C(64, x)); }
            Sp::ForbidPanic => { st.no_panic = av[0].clone(); }
            Sp::Intr(it) => { let r = self.intrinsic(st, it, &av, args, rt)?; if let Some(r) = r { Self::set(st, dst, r); } }
            Sp::Extern => return Err(Stop::Err(format!("call of external function {}", self.m.fns[idx as usize].1))),
        }
        Ok(next(self))
    }
    fn alloc_heap(&mut self, st: &mut State, n: u64) -> (u32, u64) {
        // heap slots are never reused within a path
        let s = st.mem.len() as u32;
        st.mem.push(Some(Rc::new(Obj { size: n, bytes: vec![0; n as usize], sym: None, konst: false })));
        (s, (s as u64) << SLOT)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        let (so, soff) = Self::obj(st, s, n)?;
        let (d_, doff) = Self::obj(st, d, n)?;
        let src = st.mem[so].as_ref().unwrap().clone();
        let (soff, doff, n) = (soff as usize, doff as usize, n as usize);
        let bytes = &src.bytes[soff..soff + n];
        let sym = src.sym.as_ref().map(|v| v[soff..soff + n].to_vec()).filter(|v| v.iter().any(|x| x.0 != 0));
        let tmp;
        let bytes = if so == d_ { tmp = bytes.to_vec(); &tmp[..] } else { bytes };
        let o = Rc::make_mut(st.mem[d_].as_mut().unwrap());
        if o.konst { return Err(Stop::Err("MEM copy to constant".into())); }
        o.bytes[doff..doff + n].copy_from_slice(bytes);
        let sz = o.size as usize;
        match sym {
            Some(v) => { let sy = o.sym.get_or_insert_with(|| vec![(0, 0); sz]); sy[doff..doff + n].copy_from_slice(&v); }
            None => if let Some(sy) = &mut o.sym { for x in &mut sy[doff..doff + n] { *x = (0, 0); } },
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, it: It, a: &[Val], _args: &[Opnd], rt: &Ty) -> R<Option<Val>> {
        // element-wise on vectors
        if let (Val::A(x), false) = (&a[0], matches!(it, It::RedAdd | It::RedOr | It::RedAnd)) {
            let mut o = vec![];
            let et = match rt { Ty::Vec(_, t) => (**t).clone(), _ => return Err(Stop::Err("vector intrinsic".into())) };
            for i in 0..x.len() {
                let b: Vec<Val> = a.iter().map(|v| match v { Val::A(y) => y[i].clone(), v => v.clone() }).collect();
                o.push(self.intrinsic(st, it, &b, _args, &et)?.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(o))));
        }
        let w = match &a.get(0) { Some(Val::C(w, _)) | Some(Val::S(w, _)) => *w, _ => 0 };
        let pair = |x, y| Val::A(Rc::new(vec![x, y]));
        Ok(Some(match it {
            It::UAddO => { let s = self.op2(Op::Add, &a[0], &a[1]); if let (Val::S(..), true) = (&s, w <= 64) { let (x, y) = (self.e(&a[0]), self.e(&a[1])); if self.p.range(x).1 + self.p.range(y).1 <= mask(w) { return Ok(Some(pair(s, Val::C(1, 0)))); } } let o = self.op2(Op::Ult, &s, &a[0]); pair(s, o) }
            It::USubO => {
                let o = self.op2(Op::Ult, &a[0], &a[1]);
                // both outcomes of a checked subtraction are branched on anyway
                let o = match o { Val::S(_, e) if w > 8 => Val::C(1, self.branch(st, e)? as u128), o => o };
                let op = if matches!(o, Val::C(_, 0)) { Op::SubN } else { Op::Sub };
                let s = self.op2(op, &a[0], &a[1]); pair(s, o)
            }
            It::UMulO => {
                let s = self.op2(Op::Mul, &a[0], &a[1]);
                let (x, y) = (self.e(&a[0]), self.e(&a[1]));
                let o = match (&a[0], &a[1]) {
                    (Val::C(_, p), Val::C(_, q)) => Val::C(1, match p.checked_mul(*q) { Some(r) => r > mask(w), None => true } as u128),
                    (_, Val::C(_, k)) | (Val::C(_, k), _) => { if *k == 0 { Val::C(1, 0) } else { let lim = self.p.cst(w, mask(w) / k); let v = if matches!(a[0], Val::C(..)) { y } else { x }; let r = self.p.bin(Op::Ult, lim, v); self.v(r) } }
                    _ => {
                        let (xx, yy) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                        let m = self.p.bin(Op::Mul, xx, yy); let h = self.p.extract(m, w, w); let z = self.p.zero(w);
                        let q = self.p.bin(Op::Eq, h, z); let r = self.p.not(q); self.v(r)
                    }
                };
                pair(s, o)
            }
            It::SAddO | It::SSubO | It::SMulO => {
                let op = match it { It::SAddO => Op::Add, It::SSubO => Op::Sub, _ => Op::Mul };
                let s = self.op2(op, &a[0], &a[1]);
                let ww = if it == It::SMulO { 2 * w } else { w + 1 };
                let (x, y) = (self.e(&a[0]), self.e(&a[1]));
                let (xx, yy) = (self.p.sext_(x, ww), self.p.sext_(y, ww));
                let m = self.p.bin(op, xx, yy); let se = self.e(&s); let sx = self.p.sext_(se, ww);
                let q = self.p.bin(Op::Eq, m, sx); let r = self.p.not(q);
                pair(s, self.v(r))
            }
            It::UMax => { let c = self.op2(Op::Ult, &a[0], &a[1]); self.select(&c, &a[1], &a[0]) }
            It::UMin => {
                let c = self.op2(Op::Ult, &a[0], &a[1]);
                match self.min_like(&c, &a[0], &a[1]) { Some(ce) => self.pick(st, ce, &a[0], &a[1])?, None => self.select(&c, &a[0], &a[1]) }
            }
            It::SMax => { let c = self.op2(Op::Slt, &a[0], &a[1]); self.select(&c, &a[1], &a[0]) }
            It::SMin => { let c = self.op2(Op::Slt, &a[0], &a[1]); self.select(&c, &a[0], &a[1]) }
            It::UAddSat => { let s = self.op2(Op::Add, &a[0], &a[1]); let o = self.op2(Op::Ult, &s, &a[0]); self.select(&o, &Val::C(w, mask(w)), &s) }
            It::USubSat => { let op = if self.known_ge(st, &a[0], &a[1]) { Op::SubN } else { Op::Sub }; let s = self.op2(op, &a[0], &a[1]); let o = self.op2(Op::Ult, &a[0], &a[1]); self.select(&o, &Val::C(w, 0), &s) }
            It::Fshl | It::Fshr => {
                let Val::C(_, k) = a[2] else { return Err(Stop::Err("symbolic funnel shift".into())) };
                let k = (k % w as u128) as u16;
                let (h, l) = (self.e(&a[0]), self.e(&a[1]));
                let c = self.p.concat(h, l);
                let lo = if it == It::Fshl { w - k } else { k };
                let r = self.p.extract(c, lo, w); self.v(r)
            }
            It::Ctlz | It::Cttz | It::Ctpop => match &a[0] {
                Val::C(_, x) => Val::C(w, match it { It::Ctlz => (x.leading_zeros() as u128) - (128 - w as u128), It::Cttz => if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 }, _ => x.count_ones() as u128 }),
                v => {
                    let e = self.e(v);
                    let mut r = if it == It::Ctpop { self.p.zero(w) } else { self.p.cst(w, w as u128) };
                    for i in 0..w {
                        // the last bit considered wins: lowest for cttz, highest for ctlz
                        let bit = if it == It::Cttz { w - 1 - i } else { i };
                        let b = self.p.extract(e, bit, 1);
                        if it == It::Ctpop { let z = self.p.zext(b, w); r = self.p.bin(Op::Add, r, z); }
                        else { let k = self.p.cst(w, if it == It::Cttz { bit } else { w - 1 - bit } as u128); r = self.p.ite(b, k, r); }
                    }
                    self.v(r)
                }
            },
            It::Bswap => {
                let e = self.e(&a[0]);
                let mut acc = self.p.extract(e, 0, 8);
                for i in 1..w / 8 { let b = self.p.extract(e, i * 8, 8); acc = self.p.concat(acc, b); }
                self.v(acc)
            }
            It::Expect => a[0].clone(),
            It::LoadRel => {
                let b = self.conc(st, &a[0], None)? as u64; let o = self.conc(st, &a[1], None)? as u64;
                let r = self.load_bytes(st, b.wrapping_add(o), 4)?;
                match r { Val::C(_, x) => Val::C(64, b.wrapping_add(sext(x, 32) as u64) as u128), _ => return Err(Stop::Err("load.relative".into())) }
            }
            It::FToUSat => { let Val::C(_, x) = a[0] else { return Err(Stop::Err("symbolic floating point".into())) }; let d = f64::from_bits(x as u64); Val::C(rt.w(), (d as u128).min(mask(rt.w()))) }
            It::RedAdd | It::RedOr | It::RedAnd => { let Val::A(x) = &a[0] else { return Err(Stop::Err("reduce".into())) }; let op = match it { It::RedAdd => Op::Add, It::RedOr => Op::Or, _ => Op::And }; let mut r = x[0].clone(); for y in &x[1..] { r = self.op2(op, &r, y); } r }
            It::Abs => { let n = self.op2(Op::Slt, &a[0], &Val::C(w, 0)); let m = self.op2(Op::Sub, &Val::C(w, 0), &a[0]); self.select(&n, &m, &a[0]) }
            It::Trap => return Err(Stop::Panic("trap".into())),
            It::IsConst => Val::C(1, 0),
            It::ObjSize => Val::C(rt.w(), mask(rt.w())),
            It::Sqrt => return Err(Stop::Err("sqrt".into())),
        }))
    }
}

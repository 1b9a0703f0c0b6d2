//! Hash-consed bit-vector terms with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub,
    SubN, // difference known not to borrow on every path where the term is used
    Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, // a = high, b = low
    Ite,    // a = cond, b = then, c = else
    Extract, // a, lo = c, width = w
    SExt,
    Const, // value in consts[a]
    Var,   // variable index a
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, BuildH>,
    pub consts: Vec<u128>,
    cmap: HashMap<u128, u32, BuildH>,
    pub vars: Vec<(u16, String)>, // width, name
    vmap: HashMap<(u32, u16), E>,
    vsets: HashMap<E, std::rc::Rc<Vec<u32>>, BuildH>,
    /// unsigned bounds of every term (terms wider than 128 bits: unknown)
    rng: Vec<(u128, u128)>,
}

#[derive(Default, Clone)]
pub struct BuildH;
impl std::hash::BuildHasher for BuildH {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx { Fx(0) }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
    fn write_isize(&mut self, v: isize) { self.write_u64(v as u64) }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 { let s = 128 - w.min(128) as u32; ((v << s) as i128) >> s }

/// concrete semantics of the binary operators (division by zero is checked by the caller)
pub fn fold(op: Op, w: u16, x: u128, y: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub | Op::SubN => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a >= 0 { u128::MAX } else { 1 } } else { a.wrapping_div(b) as u128 } }
        Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { x << y },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let a = sext(x, w); let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; (a >> s) as u128 }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    }) & m
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool { nodes: vec![], map: HashMap::default(), consts: vec![], cmap: HashMap::default(), vars: vec![], vmap: HashMap::new(), vsets: HashMap::default(), rng: vec![] };
        p.cst(1, 0); // id 0 is reserved (marks a concrete byte in memory)
        p
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as u32;
        let r = self.bounds(&n);
        debug_assert!(r.0 <= r.1);
        self.nodes.push(n);
        self.rng.push(r);
        self.map.insert(n, e);
        e
    }
    pub fn range(&self, e: E) -> (u128, u128) { self.rng[e as usize] }
    fn bounds(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        if n.w > 128 { return (0, u128::MAX); }
        let g = |e: u32| self.rng[e as usize];
        let wide = |e: u32| self.nodes[e as usize].w > 128;
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; (v, v) }
            Op::Var => full,
            Op::Ite => { let (x, y) = (g(n.b), g(n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Concat => { let (x, y) = (g(n.a), g(n.b)); let s = self.nodes[n.b as usize].w as u32; if s >= 128 { return full; } ((x.0 << s) | y.0, (x.1 << s) | y.1) }
            Op::Extract => {
                if wide(n.a) { return full; }
                let x = g(n.a);
                let (l, h) = (x.0 >> n.c, x.1 >> n.c);
                if h <= m { (l, h) } else { full }
            }
            Op::SExt => { let x = g(n.a); let iw = self.nodes[n.a as usize].w; if x.1 >> (iw - 1) == 0 { x } else { full } }
            Op::Add => {
                let (x, y) = (g(n.a), g(n.b));
                let (lo, c0) = x.0.overflowing_add(y.0);
                let (hi, c1) = x.1.overflowing_add(y.1);
                let (o0, o1) = (c0 || lo > m, c1 || hi > m);
                if o0 == o1 { (lo & m, hi & m) } else { full }
            }
            Op::Sub => { let (x, y) = (g(n.a), g(n.b)); if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full } }
            Op::SubN => { let (x, y) = (g(n.a), g(n.b)); (x.0.saturating_sub(y.1), x.1.saturating_sub(y.0)) }
            Op::Mul => { let (x, y) = (g(n.a), g(n.b)); match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => full } }
            Op::UDiv => { let (x, y) = (g(n.a), g(n.b)); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full } }
            Op::URem => { let (x, y) = (g(n.a), g(n.b)); if y.0 > 0 { if x.1 < y.0 { x } else { (0, x.1.min(y.1 - 1)) } } else { (0, x.1) } }
            Op::And => { let (x, y) = (g(n.a), g(n.b)); (0, x.1.min(y.1)) }
            Op::Or | Op::Xor => {
                if wide(n.a) { return full; }
                let (x, y) = (g(n.a), g(n.b));
                let h = x.1 | y.1;
                let h = if h == 0 { 0 } else { u128::MAX >> h.leading_zeros() };
                (if n.op == Op::Or { x.0.max(y.0) } else { 0 }, h)
            }
            Op::LShr => { let x = g(n.a); (0, x.1) }
            Op::Shl | Op::AShr | Op::SDiv | Op::SRem => full,
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => (0, 1),
        }
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        assert!(w <= 128);
        let v = v & mask(w);
        let i = match self.cmap.get(&v) { Some(&i) => i, None => { let i = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, i); i } };
        self.mk(Node { op: Op::Const, w, a: i, b: 0, c: 0 })
    }
    pub fn var(&mut self, idx: u32, w: u16, name: &str) -> E {
        if let Some(&e) = self.vmap.get(&(idx, w)) { return e; }
        let i = self.vars.len() as u32;
        self.vars.push((w, name.to_string()));
        let e = self.mk(Node { op: Op::Var, w, a: i, b: 0, c: 0 });
        self.vmap.insert((idx, w), e);
        e
    }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    /// zero constant of any width (wide zeros are concats)
    pub fn zero(&mut self, w: u16) -> E {
        if w <= 128 { self.cst(w, 0) } else { let lo = self.cst(128, 0); let hi = self.zero(w - 128); self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 }) }
    }

    pub fn not(&mut self, e: E) -> E {
        debug_assert!(self.w(e) == 1);
        let o = self.cst(1, 1);
        self.bin(Op::Xor, e, o)
    }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if w <= 128 { if let (Some(x), Some(y)) = (self.is_const(hi), self.is_const(lo)) { return self.cst(w, (x << nl.w) | y); } }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.c + nl.w as u32 {
            return self.extract(nh.a, nl.c as u16, w);
        }
        // right-assoc normalisation: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat { let t = self.concat(nh.b, lo); return self.concat(nh.a, t); }
        if nl.op == Op::Concat {
            // merge hi with the top piece of lo where possible
            let top = self.n(nl.a);
            let mergeable = (nh.op == Op::Const && top.op == Op::Const && nh.w + top.w <= 128)
                || (nh.op == Op::Extract && top.op == Op::Extract && nh.a == top.a && nh.c == top.c + top.w as u32);
            if mergeable { let t = self.concat(hi, nl.a); return self.concat(t, nl.b); }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n(e);
        debug_assert!(lo + w <= n.w && w > 0);
        if lo == 0 && w == n.w { return e; }
        match n.op {
            Op::Const => { let v = self.consts[n.a as usize]; self.cst(w, v >> lo) }
            Op::Extract => self.extract(n.a, lo + n.c as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { self.extract(n.a, lo - lw, w) }
                else if lo + w <= lw { self.extract(n.b, lo, w) }
                else { let h = self.extract(n.a, 0, lo + w - lw); let l = self.extract(n.b, lo, lw - lo); self.concat(h, l) }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { self.extract(n.a, lo, w) } else { self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: lo as u32 }) }
            }
            Op::Ite => {
                let (tb, tc) = (self.n(n.b).op, self.n(n.c).op);
                if matches!(tb, Op::Const | Op::Concat) || matches!(tc, Op::Const | Op::Concat) {
                    let b = self.extract(n.b, lo, w); let c = self.extract(n.c, lo, w); self.ite(n.a, b, c)
                } else { self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: lo as u32 }) }
            }
            Op::And | Op::Or | Op::Xor if self.n(n.b).op == Op::Const || matches!(self.n(n.a).op, Op::Concat) || matches!(self.n(n.b).op, Op::Concat) => {
                let a = self.extract(n.a, lo, w); let b = self.extract(n.b, lo, w); self.bin(n.op, a, b)
            }
            Op::Add | Op::Sub | Op::SubN | Op::Mul if lo == 0 && w >= 64 => {
                let (na, nb) = (self.n(n.a), self.n(n.b));
                let simple = |x: &Node| matches!(x.op, Op::Const | Op::Concat | Op::SExt);
                if simple(&na) || simple(&nb) {
                    let a = self.extract(n.a, 0, w); let b = self.extract(n.b, 0, w);
                    // the truncated difference keeps the no-borrow fact only while nothing is cut off
                    let op = if n.op == Op::SubN && self.range(n.a).1 > mask(w) { Op::Sub } else { n.op };
                    self.bin(op, a, b)
                } else { self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0 }) }
            }
            _ => self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: lo as u32 }),
        }
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        let z = self.zero(w - ew);
        self.concat(z, e)
    }
    pub fn sext_(&mut self, e: E, w: u16) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        if let Some(v) = self.is_const(e) { if w <= 128 { return self.cst(w, sext(v, ew) as u128); } }
        // a leading constant-zero piece makes it a zero extension
        let n = self.n(e);
        if n.op == Op::Concat { if self.is_const(n.a) == Some(0) { return self.zext(e, w); } }
        self.mk(Node { op: Op::SExt, w, a: e, b: 0, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(v) = self.is_const(c) { return if v != 0 { a } else { b }; }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let n = self.n(c);
        if n.op == Op::Xor && self.is_const(n.b) == Some(1) { return self.ite(n.a, b, a); }
        let na = self.n(a); if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.n(b); if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // canonical minimum: ite(x <= y, x, y) with x older than y
        if n.op == Op::Ult || n.op == Op::Ule {
            let (x, y) = (n.a, n.b);
            let ww = self.w(x);
            if ww > 1 && ww <= w && (ww..=w).contains(&ww) {
                let (xz, yz) = (self.zext(x, w), self.zext(y, w));
                if (a == xz && b == yz) && (n.op == Op::Ult || x > y) {
                    return if x > y { let c2 = self.bin(Op::Ule, y, x); self.ite(c2, b, a) } else { let c2 = self.bin(Op::Ule, x, y); self.ite(c2, a, b) };
                }
            }
        }
        // keep zero-extension structure visible
        if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a && self.w(na.b) == self.w(nb.b) {
            let l = self.ite(c, na.b, nb.b); return self.concat(na.a, l);
        }
        if na.op == Op::Concat && nb.op == Op::Const && self.is_const(na.a) == Some(0) {
            let lw = self.w(na.b); let k = self.consts[nb.a as usize];
            if lw < 128 && k >> lw == 0 { let kk = self.cst(lw, k); let l = self.ite(c, na.b, kk); return self.concat(na.a, l); }
        }
        if nb.op == Op::Concat && na.op == Op::Const && self.is_const(nb.a) == Some(0) {
            let lw = self.w(nb.b); let k = self.consts[na.a as usize];
            if lw < 128 && k >> lw == 0 { let kk = self.cst(lw, k); let l = self.ite(c, kk, nb.b); return self.concat(nb.a, l); }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }
    /// number of known-zero leading bits
    fn lead_zeros(&self, e: E) -> u16 {
        let w = self.w(e);
        if w > 128 { let n = self.n(e); return if n.op == Op::Concat && self.is_const(n.a) == Some(0) { self.w(n.a) + self.lead_zeros(n.b) } else { 0 }; }
        (self.range(e).1.leading_zeros() as u16 + w).saturating_sub(128)
    }
    /// width left after stripping a literal zero top piece
    fn swidth(&self, e: E) -> u16 {
        let n = self.n(e);
        match n.op {
            Op::Const => (128 - self.consts[n.a as usize].leading_zeros() as u16).max(1),
            Op::Concat if self.is_const(n.a) == Some(0) => self.swidth(n.b),
            Op::Concat => match self.is_const(n.a) { Some(_) => self.w(n.b) + self.swidth(n.a), None => n.w },
            _ => n.w,
        }
    }
    /// constant, or a value whose top bits are a literal zero piece
    fn structured(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op { Op::Const => true, Op::Concat => self.is_const(n.a).is_some(), _ => false }
    }
    /// recognises the canonical minimum
    pub fn is_min(&self, e: E) -> Option<(E, E)> {
        let n = self.n(e);
        if n.op != Op::Ite { return None; }
        let c = self.n(n.a);
        if c.op != Op::Ule { return None; }
        let f = |x: E, y: E| self.unzext(x) == self.unzext(y);
        if f(c.a, n.b) && f(c.b, n.c) { Some((n.b, n.c)) } else { None }
    }
    /// strips a zero extension
    pub fn unzext(&self, e: E) -> E {
        let n = self.n(e);
        if n.op == Op::Concat && self.is_const(n.a) == Some(0) { self.unzext(n.b) } else { e }
    }
    /// e = zext(x) << s with no bits lost
    fn unshift(&self, e: E) -> (E, u16) {
        let z = self.unzext(e);
        let n = self.n(z);
        if n.op == Op::Concat && self.is_const(n.b) == Some(0) && z != e { return (n.a, self.w(n.b)); }
        (e, 0)
    }
    /// the operation cannot leave its width
    pub fn no_wrap(&self, e: E) -> bool {
        let n = self.n(e);
        if n.w > 128 { return false; }
        let m = mask(n.w);
        match n.op {
            Op::Add => self.range(n.a).1.checked_add(self.range(n.b).1).map_or(false, |h| h <= m),
            Op::Mul => self.range(n.a).1.checked_mul(self.range(n.b).1).map_or(false, |h| h <= m),
            Op::Sub => self.range(n.a).0 >= self.range(n.b).1,
            Op::SubN => true,
            _ => false,
        }
    }
    /// x + y that leaves its width for every value of x and y (a subtraction written as an addition)
    fn always_wraps(&self, n: &Node) -> bool {
        n.op == Op::Add && n.w < 128 && self.range(n.a).0 + self.range(n.b).0 > mask(n.w)
    }
    /// Adds k * e (e read as zero-extended) to a linear form over atoms, valid mod 2^w, and over the integers
    /// as long as `exact` stays true.
    fn lin(&self, e: E, k: i128, w: u16, out: &mut Vec<(E, i128)>, c: &mut i128, depth: u32, exact: &mut bool) {
        let n = self.n(e);
        let add = |x: i128, y: i128, exact: &mut bool| -> i128 { let (r, o) = x.overflowing_add(y); if o { *exact = false; } r };
        let mul = |x: i128, y: u128, exact: &mut bool| -> i128 { let (r, o) = x.overflowing_mul(y as i128); if o || y >> 127 != 0 { *exact = false; } r };
        // operators may be opened only at full width or when they cannot wrap
        let aw = self.always_wraps(&n);
        let nw = self.no_wrap(e) || aw;
        let open = (n.w >= w || nw) && depth > 0;
        if open && !nw && matches!(n.op, Op::Add | Op::Sub | Op::SubN | Op::Mul) { *exact = false; }
        match n.op {
            Op::Const => { let t = mul(k, self.consts[n.a as usize], exact); *c = add(*c, t, exact); return; }
            Op::Add if open => {
                self.lin(n.a, k, w, out, c, depth - 1, exact); self.lin(n.b, k, w, out, c, depth - 1, exact);
                if aw { let t = mul(k, 1u128 << n.w, exact); *c = add(*c, -t, exact); }
                return;
            }
            Op::Sub | Op::SubN if open => { self.lin(n.a, k, w, out, c, depth - 1, exact); if k == i128::MIN { *exact = false; } self.lin(n.b, k.wrapping_neg(), w, out, c, depth - 1, exact); return; }
            Op::Mul if open => if let Some(k1) = self.is_const(n.b) { let k2 = mul(k, k1, exact); self.lin(n.a, k2, w, out, c, depth - 1, exact); return; },
            Op::Concat if self.is_const(n.a) == Some(0) => { self.lin(n.b, k, w, out, c, depth, exact); return; }
            Op::Concat if self.is_const(n.b) == Some(0) && depth > 0 && self.w(n.b) < 127 => {
                let k2 = mul(k, 1u128 << self.w(n.b), exact);
                self.lin(n.a, k2, w, out, c, depth - 1, exact);
                return;
            }
            _ => {}
        }
        for (x, q) in out.iter_mut() { if *x == e { *q = add(*q, k, exact); return; } }
        out.push((e, k));
    }
    /// a sum or difference in which terms cancel, rebuilt from its linear form
    fn cancel(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let compound = |p: &Pool, e: E| matches!(p.n(p.unzext(e)).op, Op::Add | Op::Sub | Op::SubN | Op::Mul);
        if !compound(self, a) && !compound(self, b) { return None; }
        let w = self.w(a);
        if w > 120 { return None; }
        let m = mask(w);
        let (mut o, mut c) = (vec![], 0i128);
        let mut exact = true;
        self.lin(a, 1, w, &mut o, &mut c, 24, &mut exact);
        let n1 = o.len();
        if n1 > 24 { return None; }
        let (mut o2, mut c2) = (vec![], 0i128);
        self.lin(b, if op == Op::Add { 1 } else { -1 }, w, &mut o2, &mut c2, 24, &mut exact);
        let n2 = o2.len();
        let both_const = c != 0 && c2 != 0;
        for &(e, k) in &o2 { match o.iter_mut().find(|x| x.0 == e) { Some(x) => x.1 = x.1.wrapping_add(k), None => o.push((e, k)) } }
        c = c.wrapping_add(c2);
        o.retain(|x| (x.1 as u128) & m != 0);
        if o.len() > 1 && o.len() >= n1.min(n2) { return None; }
        if o.len() == 1 && n1 + n2 <= 1 && !both_const { return None; }
        // the value as an integer: the form itself, if neither operand nor the operation wraps
        let mut int = exact && match op {
            Op::SubN => true,
            Op::Sub => self.range(a).0 >= self.range(b).1,
            _ => self.range(a).1.checked_add(self.range(b).1).map_or(false, |h| h <= m),
        };
        // and every partial sum stays within the width
        let mut sum: Option<u128> = Some(c.unsigned_abs());
        for x in &o { sum = sum.and_then(|s| self.range(x.0).1.checked_mul(x.1.unsigned_abs()).and_then(|v| v.checked_add(s))); }
        int &= sum.map_or(false, |s| s <= m);
        if !int {
            // mod 2^w: coefficients by smallest magnitude
            let norm = |k: i128| { let v = k as u128 & m; if v >> (w - 1) == 0 { v as i128 } else { -((v.wrapping_neg() & m) as i128) } };
            for x in o.iter_mut() { x.1 = norm(x.1); }
            c = norm(c);
        }
        o.sort_unstable();
        // a common factor is pulled out: 3x + 3 is built as (x + 1) * 3
        let mut g = c.unsigned_abs();
        for x in &o { let (mut p, mut q) = (g, x.1.unsigned_abs()); while q != 0 { (p, q) = (q, p % q); } g = p; }
        let g = if g > 1 && int { g } else { 1 };
        let (mut pos, mut neg): (Option<E>, Option<E>) = (None, None);
        let mut terms: Vec<(Option<E>, i128)> = o.iter().map(|&(e, k)| (Some(e), k / g as i128)).collect();
        if c != 0 { terms.push((None, c / g as i128)); }
        for (e, k) in terms {
            let kc = self.cst(w, k.unsigned_abs());
            let t = match e {
                None => kc,
                Some(e) => { let z = if self.w(e) <= w { self.zext(e, w) } else { self.extract(e, 0, w) }; self.bin(Op::Mul, z, kc) }
            };
            let slot = if k > 0 { &mut pos } else { &mut neg };
            *slot = Some(match *slot { None => t, Some(s) => self.raw_add(s, t) });
        }
        let r = match (pos, neg) {
            (None, None) => self.zero(w),
            (Some(p), None) => p,
            (None, Some(n)) => { let z = self.zero(w); self.raw_sub(Op::Sub, z, n) }
            (Some(p), Some(n)) => self.raw_sub(if int { Op::SubN } else { Op::Sub }, p, n),
        };
        if g > 1 { let k = self.cst(w, g); return Some(self.bin(Op::Mul, r, k)); }
        Some(r)
    }
    fn raw_add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.cst(w, x.wrapping_add(y)); }
        let (a, b) = if self.is_const(a).is_some() || (self.is_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if self.structured(a) && self.structured(b) {
            if let Some(h) = self.range(a).1.checked_add(self.range(b).1) {
                let need = (128 - h.leading_zeros() as u16).max(self.swidth(a)).max(self.swidth(b));
                if need < w && need > 1 {
                    let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                    let m = self.mk(Node { op: Op::Add, w: need, a: x, b: y, c: 0 });
                    return self.zext(m, w);
                }
            }
        }
        self.mk(Node { op: Op::Add, w, a, b, c: 0 })
    }
    fn raw_sub(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.cst(w, x.wrapping_sub(y)); }
        if op == Op::SubN && self.structured(a) && self.structured(b) {
            let need = (w - self.lead_zeros(a)).max(self.swidth(a)).max(self.swidth(b));
            if need < w && need > 1 {
                let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                let m = self.mk(Node { op, w: need, a: x, b: y, c: 0 });
                return self.zext(m, w);
            }
        }
        if let (Op::Sub, Some(k)) = (op, self.is_const(b)) { let c = self.cst(w, k.wrapping_neg()); return self.mk(Node { op: Op::Add, w, a, b: c, c: 0 }); }
        self.mk(Node { op, w, a, b, c: 0 })
    }
    /// equality of two sums decided by their linear forms
    fn lin_eq(&self, a: E, b: E) -> Option<bool> {
        let w = self.w(a);
        if w > 128 || w == 1 { return None; }
        let (mut o, mut c) = (vec![], 0i128);
        let mut x = true;
        self.lin(a, 1, w, &mut o, &mut c, 24, &mut x);
        if o.len() > 40 { return None; }
        self.lin(b, -1, w, &mut o, &mut c, 24, &mut x);
        if o.iter().all(|x| x.1 as u128 & mask(w) == 0) { Some(c as u128 & mask(w) == 0) } else { None }
    }
    fn pieces(&self, e: E, out: &mut Vec<E>) {
        // low to high
        let n = self.n(e);
        if n.op == Op::Concat { self.pieces(n.b, out); self.pieces(n.a, out); } else { out.push(e); }
    }
    /// or/xor/add of values whose non-zero pieces do not overlap, as one concat
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        if self.n(a).op != Op::Concat && self.n(b).op != Op::Concat { return None; }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa); self.pieces(b, &mut pb);
        let (mut i, mut j, mut oa, mut ob) = (0usize, 0usize, 0u16, 0u16);
        let mut res: Vec<E> = vec![];
        while i < pa.len() && j < pb.len() {
            let (wa, wb) = (self.w(pa[i]) - oa, self.w(pb[j]) - ob);
            let w = wa.min(wb);
            let x = self.extract(pa[i], oa, w); let y = self.extract(pb[j], ob, w);
            let r = if self.is_const(x) == Some(0) { y } else if self.is_const(y) == Some(0) { x } else { return None };
            res.push(r);
            oa += w; ob += w;
            if oa == self.w(pa[i]) { i += 1; oa = 0; }
            if ob == self.w(pb[j]) { j += 1; ob = 0; }
        }
        let mut acc = res[0];
        for &r in &res[1..] { acc = self.concat(r, acc); }
        Some(acc)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        let (mut ca, mut cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let v = fold(op, w, x, y); return self.cst(rw, v); }
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        }
        if matches!(op, Op::Add | Op::Sub | Op::SubN) && w > 8 && w <= 128 { if let Some(r) = self.cancel(op, a, b) { return r; } }
        let (na, nb) = (self.n(a), self.n(b));
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if na.op == Op::Add { if let Some(k2) = self.is_const(na.b) { let c = self.cst(w, k.wrapping_add(k2)); return self.bin(Op::Add, na.a, c); } }
                }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(r) = self.disjoint(a, b) { return r; }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b { return na.a; }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if w > 8 && w <= 128 && self.structured(a) && self.structured(b) {
                    if let Some(h) = self.range(a).1.checked_add(self.range(b).1) {
                        let need = (128 - h.leading_zeros() as u16).max(self.swidth(a)).max(self.swidth(b));
                        if need < w && need > 0 {
                            let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                            let m = self.bin(Op::Add, x, y);
                            return self.zext(m, w);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.zero(w); }
                if let Some(k) = cb { let c = self.cst(w, k.wrapping_neg()); return self.bin(Op::Add, a, c); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                if w == 1 { return self.bin(Op::Xor, a, b); }
            }
            Op::SubN => {
                if a == b { return self.zero(w); }
                if cb == Some(0) { return a; }
                if na.op == Op::Add && self.no_wrap(a) { if na.a == b { return na.b; } if na.b == b { return na.a; } }
                let need = (w - self.lead_zeros(a)).max(self.swidth(a)).max(self.swidth(b));
                if w > 8 && w <= 128 && need > 0 && need < w && self.structured(a) && self.structured(b) {
                    let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                    let m = self.bin(Op::SubN, x, y);
                    return self.zext(m, w);
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let (Some(k), true) = (cb, w <= 128) {
                    // gather constant factors: (x * k1) * k2, also through a zero extension or a shift
                    let (x, sh) = self.unshift(a);
                    if sh > 0 {
                        let (k2, o) = k.overflowing_mul(1u128 << sh);
                        if !o || w < 128 { let c = self.cst(w, k2); let x = self.zext(x, w); return self.bin(Op::Mul, x, c); }
                    }
                    if na.op == Op::Mul { if let Some(k1) = self.is_const(na.b) { let c = self.cst(w, k.wrapping_mul(k1)); return self.bin(Op::Mul, na.a, c); } }
                    let z = self.unzext(a);
                    let nz = self.n(z);
                    if z != a && nz.op == Op::Mul && self.no_wrap(z) { if let Some(k1) = self.is_const(nz.b) {
                        let c = self.cst(w, k.wrapping_mul(k1)); let x = self.zext(nz.a, w); return self.bin(Op::Mul, x, c);
                    } }
                }
                if let Some(k) = cb { if k.is_power_of_two() { let c = self.cst(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, c); } }
                if w == 1 { return self.bin(Op::And, a, b); }
                // narrow a product of zero-extended operands when it cannot overflow
                let (sa, sb) = (self.swidth(a), self.swidth(b));
                let mut need = sa + sb;
                if w <= 128 { if let Some(h) = self.range(a).1.checked_mul(self.range(b).1) { need = need.min(128 - h.leading_zeros() as u16); } }
                need = need.max(sa).max(sb);
                if need < w && need >= 2 && w > 8 {
                    let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                    let (x, y) = if x > y && self.is_const(y).is_none() || self.is_const(x).is_some() { (y, x) } else { (x, y) };
                    let m = self.mk(Node { op: Op::Mul, w: need, a: x, b: y, c: 0 });
                    return self.zext(m, w);
                }
            }
            Op::UDiv | Op::URem => {
                if cb == Some(1) { return if op == Op::UDiv { a } else { self.zero(w) }; }
                if let Some(k) = cb { if k.is_power_of_two() {
                    let s = k.trailing_zeros() as u16;
                    return if op == Op::UDiv { let c = self.cst(w, s as u128); self.bin(Op::LShr, a, c) } else { let l = self.extract(a, 0, s); self.zext(l, w) };
                } }
                if let Some(k) = cb { if w <= 128 && k > self.range(a).1 { return if op == Op::UDiv { self.zero(w) } else { a }; } }
                if let (Op::UDiv, Some(k @ 1..)) = (op, cb) {
                    // (x / k1) / k2
                    let z = self.unzext(a); let z = { let nz = self.n(z); if nz.op == Op::Extract && nz.c == 0 && self.range(nz.a).1 <= mask(nz.w) { nz.a } else { z } };
                    let nz = self.n(z);
                    if nz.op == Op::UDiv { if let Some(k1) = self.is_const(nz.b) { if let (1.., Some(kk)) = (k1, k1.checked_mul(k)) {
                        if kk <= mask(nz.w) {
                            let c = self.cst(nz.w, kk); let d = self.bin(Op::UDiv, nz.a, c);
                            return if nz.w <= w { self.zext(d, w) } else { self.extract(d, 0, w) };
                        }
                    } } }
                }
                let nw = self.swidth(a).max(self.swidth(b));
                let nw = nw.max(2);
                if nw < w && cb != Some(0) && (cb.is_some()) {
                    let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw);
                    let r = self.bin(op, x, y); return self.zext(r, w);
                }
                // symbolic divisor: narrow, keeping the bit-vector meaning of a division by zero
                if nw < w && cb.is_none() && w <= 128 {
                    let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw);
                    let r = self.bin(op, x, y); let r = self.zext(r, w);
                    let z = self.zero(w); let c = self.bin(Op::Eq, b, z);
                    let d = if op == Op::UDiv { self.cst(w, mask(w)) } else { a };
                    return self.ite(c, d, r);
                }
            }
            Op::And => {
                if a == b { return a; }
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == mask(w) && w <= 128 { return a; }
                    // contiguous mask: extract and shift back
                    let t = k.trailing_zeros() as u16; let l = (k >> t).trailing_ones() as u16;
                    if (k >> t) == mask(l) && w > 1 {
                        let mut r = self.extract(a, t, l);
                        if t > 0 { let z = self.zero(t); r = self.concat(r, z); }
                        return self.zext(r, w);
                    }
                }
                if w == 1 {
                    if na.op == Op::Xor && self.is_const(na.b) == Some(1) && na.a == b { return self.cst(1, 0); }
                    if nb.op == Op::Xor && self.is_const(nb.b) == Some(1) && nb.a == a { return self.cst(1, 0); }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if w <= 128 && cb == Some(mask(w)) { return b; }
                if w > 1 { if let Some(r) = self.disjoint(a, b) { return r; } }
                if w == 1 {
                    if na.op == Op::Xor && self.is_const(na.b) == Some(1) && na.a == b { return self.cst(1, 1); }
                    if nb.op == Op::Xor && self.is_const(nb.b) == Some(1) && nb.a == a { return self.cst(1, 1); }
                }
            }
            Op::Xor => {
                if a == b { return self.zero(w); }
                if cb == Some(0) { return a; }
                if w > 1 && cb.is_none() { if let Some(r) = self.disjoint(a, b) { return r; } }
                if let Some(k) = cb {
                    if na.op == Op::Xor { if let Some(k2) = self.is_const(na.b) { let c = self.cst(w, k ^ k2); return self.bin(Op::Xor, na.a, c); } }
                    if w == 1 && k == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                    if na.op == Op::Ite && (self.is_const(na.b).is_some() && self.is_const(na.c).is_some()) {
                        let x = self.bin(Op::Xor, na.b, b); let y = self.bin(Op::Xor, na.c, b); return self.ite(na.a, x, y);
                    }
                }
            }
            Op::Shl => if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.zero(w); }
                let k = k as u16;
                let h = self.extract(a, 0, w - k); let z = self.zero(k); return self.concat(h, z);
            },
            Op::LShr => if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.zero(w); }
                let k = k as u16;
                let h = self.extract(a, k, w - k); return self.zext(h, w);
            },
            Op::AShr => if let Some(k) = cb {
                if k == 0 { return a; }
                let k = (k.min(w as u128 - 1)) as u16;
                let h = self.extract(a, k, w - k); return self.sext_(h, w);
            },
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if w <= 128 { let ((al, ah), (bl, bh)) = (self.range(a), self.range(b)); if ah < bl || bh < al { return self.cst(1, 0); } }
                if let Some(r) = self.lin_eq(a, b) { return self.cst(1, r as u128); }
                // min(x, y) == x  <=>  x <= y
                for (i, o) in [(a, b), (b, a)] {
                    let i = self.unzext(i); let o = self.unzext(o);
                    let ni = self.n(i);
                    if ni.op == Op::Ite && ni.w > 1 {
                        if let Some((x, y)) = self.is_min(i) {
                            let wi = ni.w;
                            let wo = self.w(o);
                            let oz = if wo <= wi { self.zext(o, wi) } else { continue };
                            if oz == x { return self.bin(Op::Ule, x, y); }
                            if oz == y { return self.bin(Op::Ule, y, x); }
                        }
                    }
                }
                if w == 1 {
                    if let Some(k) = cb { return if k == 1 { a } else { self.not(a) }; }
                }
                if w > 128 || (na.op == Op::Concat && (nb.op == Op::Const || nb.op == Op::Concat)) || (nb.op == Op::Concat && na.op == Op::Const) {
                    // piecewise
                    let cut = if na.op == Op::Concat { self.w(na.b) } else if nb.op == Op::Concat { self.w(nb.b) } else { 64 };
                    let worthwhile = nb.op == Op::Const || w > 128 || (nb.op == Op::Concat && self.w(nb.b) == cut);
                    if worthwhile {
                        let (al, bl) = (self.extract(a, 0, cut), self.extract(b, 0, cut));
                        let (ah, bh) = (self.extract(a, cut, w - cut), self.extract(b, cut, w - cut));
                        let h = self.bin(Op::Eq, ah, bh);
                        if self.is_const(h) == Some(0) { return h; }
                        let l = self.bin(Op::Eq, al, bl);
                        return self.bin(Op::And, l, h);
                    }
                }
                if cb.is_some() {
                    if na.op == Op::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                        let x = self.bin(Op::Eq, na.b, b); let y = self.bin(Op::Eq, na.c, b); return self.ite(na.a, x, y);
                    }
                    if na.op == Op::Add { if let Some(k2) = self.is_const(na.b) { let c = self.cst(w, cb.unwrap().wrapping_sub(k2)); return self.bin(Op::Eq, na.a, c); } }
                    if na.op == Op::Xor && w > 1 { if let Some(k2) = self.is_const(na.b) { let c = self.cst(w, cb.unwrap() ^ k2); return self.bin(Op::Eq, na.a, c); } if cb == Some(0) { return self.bin(Op::Eq, na.a, na.b); } }
                    if na.op == Op::Sub && cb == Some(0) { return self.bin(Op::Eq, na.a, na.b); }
                    if na.op == Op::Or && cb == Some(0) { let x = self.bin(Op::Eq, na.a, b); let y = self.bin(Op::Eq, na.b, b); return self.bin(Op::And, x, y); }
                    if na.op == Op::SExt { let iw = self.w(na.a); let lo = self.extract(b, 0, iw); let back = self.sext_(lo, w); return if back == b { self.bin(Op::Eq, na.a, lo) } else { self.cst(1, 0) }; }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.cst(1, (op == Op::Ule) as u128); }
                if op == Op::Ult && cb == Some(0) { return self.cst(1, 0); }
                if op == Op::Ule && ca == Some(0) { return self.cst(1, 1); }
                if op == Op::Ult && cb == Some(1) { let z = self.zero(w); return self.bin(Op::Eq, a, z); }
                if op == Op::Ule && cb == Some(0) { return self.bin(Op::Eq, a, b); }
                if op == Op::Ult && ca == Some(0) { let z = self.zero(w); let q = self.bin(Op::Eq, b, z); return self.not(q); }
                if w <= 128 && op == Op::Ule && cb == Some(mask(w)) { return self.cst(1, 1); }
                if w <= 128 {
                    let ((al, ah), (bl, bh)) = (self.range(a), self.range(b));
                    if op == Op::Ult { if ah < bl { return self.cst(1, 1); } if al >= bh { return self.cst(1, 0); } }
                    else { if ah <= bl { return self.cst(1, 1); } if al > bh { return self.cst(1, 0); } }
                }
                if w == 1 { let na_ = self.not(a); return if op == Op::Ult { self.bin(Op::And, na_, b) } else { self.bin(Op::Or, na_, b) }; }
                if self.lin_eq(a, b) == Some(true) { return self.cst(1, (op == Op::Ule) as u128); }
                let nw = self.swidth(a).max(self.swidth(b));
                if nw < w { let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw); return self.bin(op, x, y); }
                // x + y < x
                for (t, o, less) in [(a, b, true), (b, a, false)] {
                    let z = self.unzext(t); let nz = self.n(z);
                    if nz.op == Op::Add && self.no_wrap(z) {
                        let u = self.unzext(o);
                        if self.unzext(nz.a) == u || self.unzext(nz.b) == u {
                            // sum < part is false, part <= sum is true
                            if less && op == Op::Ult { return self.cst(1, 0); }
                            if !less && op == Op::Ule { return self.cst(1, 1); }
                        }
                    }
                }
                // same high pieces
                if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a && self.w(na.b) == self.w(nb.b) { return self.bin(op, na.b, nb.b); }
                if cb.is_some() && na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                    let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.cst(1, (op == Op::Sle) as u128); }
                if self.lead_zeros(a) > 0 && self.lead_zeros(b) > 0 { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if w > 1 && op == Op::Slt && cb == Some(0) { return self.extract(a, w - 1, 1); }
            }
            _ => {}
        }
        let e = self.mk(Node { op, w: rw, a, b, c: 0 });
        if rw <= 128 {
            let (l, h) = self.range(e);
            if l == h { return self.cst(rw, l); }
            if matches!(op, Op::UDiv | Op::URem) {
                let nw = 128 - h.leading_zeros() as u16;
                if nw < rw { let x = self.mk(Node { op: Op::Extract, w: nw, a: e, b: 0, c: 0 }); return self.zext(x, rw); }
            }
        }
        e
    }

    /// evaluates under an assignment (indexed by variable number)
    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, Big, BuildH>) -> Big {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return Big::from(self.consts[n.a as usize]),
            Op::Var => return Big::from(model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w)),
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return v.clone(); }
        let r = match n.op {
            Op::Ite => if self.eval(n.a, model, memo).lo() & 1 == 1 { self.eval(n.b, model, memo) } else { self.eval(n.c, model, memo) },
            Op::Concat => { let h = self.eval(n.a, model, memo); let l = self.eval(n.b, model, memo); h.shl_or(self.w(n.b), &l) }
            Op::Extract => self.eval(n.a, model, memo).extract(n.c as u16, n.w),
            Op::SExt => { let iw = self.w(n.a); let v = self.eval(n.a, model, memo); assert!(n.w <= 128); Big::from((sext(v.lo(), iw) as u128) & mask(n.w)) }
            op => {
                let x = self.eval(n.a, model, memo); let y = self.eval(n.b, model, memo);
                let w = self.w(n.a);
                if w > 128 {
                    match op {
                        Op::Eq => Big::from((x == y) as u128),
                        Op::And | Op::Or | Op::Xor => x.bitop(&y, op),
                        _ => panic!("wide {:?}", op),
                    }
                } else { Big::from(fold(op, w, x.lo(), y.lo()) & mask(n.w)) }
            }
        };
        memo.insert(e, r.clone());
        r
    }
    pub fn eval1(&self, e: E, model: &[u128]) -> bool {
        let mut m = HashMap::default();
        self.eval(e, model, &mut m).lo() & 1 == 1
    }
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vsets.get(&e) { return v.clone(); }
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        let mut vs = std::collections::BTreeSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => { vs.insert(n.a); }
                Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
                Op::Extract | Op::SExt => st.push(n.a),
                _ => { st.push(n.a); st.push(n.b); }
            }
        }
        let r = std::rc::Rc::new(vs.into_iter().collect::<Vec<_>>());
        self.vsets.insert(e, r.clone());
        r
    }
}

/// little-endian multi-limb value used by evaluation of wide terms
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Big { S(u128), L(Vec<u8>) }
impl Big {
    pub fn from(v: u128) -> Big { Big::S(v) }
    pub fn lo(&self) -> u128 { match self { Big::S(v) => *v, Big::L(b) => { let mut x = [0u8; 16]; let n = b.len().min(16); x[..n].copy_from_slice(&b[..n]); u128::from_le_bytes(x) } } }
    fn bits(&self) -> Vec<u8> { match self { Big::S(v) => v.to_le_bytes().to_vec(), Big::L(b) => b.clone() } }
    fn norm(mut b: Vec<u8>) -> Big { while b.len() > 16 && *b.last().unwrap() == 0 { b.pop(); } if b.len() <= 16 { let mut x = [0u8; 16]; x[..b.len()].copy_from_slice(&b); Big::S(u128::from_le_bytes(x)) } else { Big::L(b) } }
    fn bit(b: &[u8], i: usize) -> u8 { if i / 8 < b.len() { (b[i / 8] >> (i % 8)) & 1 } else { 0 } }
    fn shl_or(&self, s: u16, l: &Big) -> Big {
        if let (Big::S(h), Big::S(l)) = (self, l) { if s < 128 && (s == 0 || h.leading_zeros() as u16 >= s) { return Big::S((h << s) | l); } }
        let (h, lb) = (self.bits(), l.bits());
        let n = h.len() + s as usize / 8 + 1;
        let mut o = vec![0u8; n.max(lb.len())];
        if s % 8 == 0 { for (i, x) in h.iter().enumerate() { o[i + s as usize / 8] |= x; } }
        else { for i in 0..h.len() * 8 { let k = i + s as usize; if Self::bit(&h, i) == 1 { o[k / 8] |= 1 << (k % 8); } } }
        for (i, x) in lb.iter().enumerate() { o[i] |= x; }
        Self::norm(o)
    }
    fn extract(&self, lo: u16, w: u16) -> Big {
        if let Big::S(v) = self { return Big::S(if lo >= 128 { 0 } else { (v >> lo) & mask(w) }); }
        let b = self.bits();
        let mut o = vec![0u8; (w as usize + 7) / 8];
        for i in 0..w as usize { if Self::bit(&b, i + lo as usize) == 1 { o[i / 8] |= 1 << (i % 8); } }
        Self::norm(o)
    }
    fn bitop(&self, y: &Big, op: Op) -> Big {
        let (mut a, mut b) = (self.bits(), y.bits());
        let n = a.len().max(b.len()); a.resize(n, 0); b.resize(n, 0);
        Self::norm(a.iter().zip(&b).map(|(x, y)| match op { Op::And => x & y, Op::Or => x | y, _ => x ^ y }).collect())
    }
}

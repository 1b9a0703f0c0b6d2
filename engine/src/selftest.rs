//! Random differential test of the term simplifier against the concrete semantics.
use crate::expr::*;
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn k(&mut self, m: u64) -> u64 { self.n() % m }
}

pub fn run(rounds: u64, seed: u64) -> u64 {
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let mut checked = 0;
    for round in 0..rounds {
        let mut p = Pool::new();
        let mut model = vec![];
        // (term, value)
        let mut ts: Vec<(E, u128)> = vec![];
        for i in 0..6u32 {
            let w = [8u16, 16, 32, 64][r.k(4) as usize];
            let e = p.var(i, w, &format!("v{}", i));
            let v = match r.k(4) { 0 => r.k(4), 1 => u64::MAX - r.k(3), _ => r.n() } as u128 & mask(w);
            model.push(v);
            ts.push((e, v));
            // bounded draws
            if r.k(2) == 0 { let b = 1 + r.k(w as u64 - 1) as u16; let m = p.cst(w, mask(b)); let x = p.bin(Op::And, e, m); ts.push((x, v & mask(b))); }
        }
        let mut seen = 0;
        #[allow(unused_assignments)]
        let mut desc = String::new();
        for _ in 0..120 {
            let (a, va) = ts[(if r.k(3) == 0 { r.k(ts.len() as u64) } else { let l = ts.len() as u64; l - 1 - r.k(l.min(8)) }) as usize];
            let w = p.w(a);
            let pickb = |r: &mut Rng, p: &mut Pool| -> (E, u128) {
                if r.k(4) == 0 {
                    let v = match r.k(5) { 0 => r.k(8) as u128, 1 => 1u128 << r.k(w as u64), 2 => [3u128, 5, 10, 100, 300, 100_000][r.k(6) as usize], 3 => mask(w) - r.k(3) as u128, _ => r.n() as u128 } & mask(w);
                    return (p.cst(w, v), v);
                }
                let same: Vec<(E, u128)> = ts.iter().copied().filter(|x| p.w(x.0) == w).collect();
                same[r.k(same.len() as u64) as usize]
            };
            desc.clear();
            let (e, v) = match r.k(14) {
                0 if w <= 64 => { let nw = w + 1 + r.k(64) as u16; (p.zext(a, nw), va) }
                1 if w > 8 => { let nw = 1 + r.k(w as u64 - 1) as u16; let lo = if r.k(2) == 0 { 0 } else { r.k((w - nw + 1) as u64) as u16 }; (p.extract(a, lo, nw), (va >> lo) & mask(nw)) }
                2 if w < 64 => { let nw = w + 1 + r.k(40) as u16; (p.sext_(a, nw), sext(va, w) as u128 & mask(nw)) }
                3 if w <= 64 => { let (b, vb) = ts[r.k(ts.len() as u64) as usize]; if p.w(b) > 64 { continue; } (p.concat(a, b), (va << p.w(b)) | vb) }
                4 => {
                    let (b, vb) = pickb(&mut r, &mut p);
                    let (x, vx) = pickb(&mut r, &mut p); let (y, vy) = if r.k(2) == 0 { (a, va) } else { pickb(&mut r, &mut p) };
                    let op = [Op::Ult, Op::Ule, Op::Eq, Op::Slt][r.k(4) as usize];
                    let c = p.bin(op, x, y);
                    let vc = fold(op, w, vx, vy);
                    let (b, vb) = if r.k(2) == 0 { (x, vx) } else { (b, vb) };
                    let (a, va) = if r.k(2) == 0 { (y, vy) } else { (a, va) };
                    let e = if r.k(2) == 0 { p.ite(c, a, b) } else { p.ite(c, b, a) };
                    let first = p.ite(c, a, b) == e;
                    let _ = first;
                    let want = { let mut m = HashMap::default(); p.eval(e, &model, &mut m).lo() };
                    let (t, f) = (va, vb);
                    let v = if want == t || want == f { want } else { u128::MAX }; // one of the two
                    // decide which one was asked for by rebuilding both
                    let e1 = p.ite(c, a, b); let v1 = if vc == 1 { va } else { vb };
                    let mut m = HashMap::default();
                    assert_eq!(p.eval(e1, &model, &mut m).lo(), v1, "ite round {}", round);
                    (e, v)
                }
                5 => {
                    let (b, vb) = pickb(&mut r, &mut p);
                    let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][r.k(5) as usize];
                    let e = p.bin(op, a, b);
                    let want = fold(op, w, va, vb);
                    let mut m = HashMap::default();
                    assert_eq!(p.eval(e, &model, &mut m).lo(), want, "cmp {:?} round {}", op, round);
                    let z = p.zext(e, 16);
                    (z, want)
                }
                _ => {
                    let (b, vb) = pickb(&mut r, &mut p);
                    let op = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::SubN, Op::SubN, Op::Add, Op::Sub, Op::Mul][r.k(16) as usize];
                    let (a, va, b, vb) = if op == Op::SubN && va < vb { (b, vb, a, va) } else { (a, va, b, vb) };
                    desc = format!("{:?} {:?} {:?} / {:?} | {:?} {:?}", op, p.n(a), p.range(a), p.n(b), p.range(b), w);
                    (p.bin(op, a, b), fold(op, w, va, vb))
                }
            };
            for i in seen..p.nodes.len() {
                let n = p.nodes[i];
                let mut m = HashMap::default();
                if n.w > 128 { continue; }
                let g = p.eval(i as E, &model, &mut m).lo();
                let (lo, hi) = p.range(i as E);
                let bad = !(lo <= g && g <= hi) || (n.op == Op::SubN && p.eval(n.a, &model, &mut m).lo() < p.eval(n.b, &model, &mut m).lo());
                if bad { panic!("round {} node {} {:?} value {:x} range {:x}..{:x} a {:?} {:?} b {:?} {:?}; last op {}", round, i, n, g, lo, hi, p.n(n.a), p.range(n.a), p.n(n.b), p.range(n.b), desc); }
            }
            seen = p.nodes.len();
            let mut m = HashMap::default();
            let got = p.eval(e, &model, &mut m).lo();
            assert_eq!(got, v, "round {} term {:?} last {}", round, p.n(e), desc);
            let (lo, hi) = p.range(e);
            if p.w(e) <= 128 { assert!(lo <= got && got <= hi, "range round {} {:?}", round, p.n(e)); }
            checked += 1;
            if p.w(e) > 1 && p.w(e) <= 128 { ts.push((e, v)); }
        }
    }
    checked
}

//! Query layer: constraint slicing, counterexample cache, in-process z3, external portfolio fallback.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_uint));
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_solver_from_string(c: P, s: P, t: *const c_char);
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}
extern "C" fn on_err(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(3);
}

#[derive(Clone)]
pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub cache_hits: u64, pub model_hits: u64, pub fallback: u64, pub time: f64, pub max_time: f64,
    pub crosschecked: u64, pub lia: u64, pub race: u64, pub lia_hits: u64,
}

pub struct Solver {
    c: P, s: P, si: P, params: P, ktimeout: P,
    tr: Vec<P>,
    cache: HashMap<Vec<E>, Res>,
    recent: Vec<std::rc::Rc<Vec<u128>>>,
    pub st: Stats,
    pub quick_ms: u32,
    pub full_s: u64,
    pub crosscheck: bool,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_LIA").unwrap();
            let si = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, si);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let t = CString::new("timeout").unwrap();
            let ktimeout = Z3_mk_string_symbol(c, t.as_ptr());
            Solver { c, s, si, params, ktimeout, tr: vec![], cache: HashMap::new(), recent: vec![], st: Stats::default(), quick_ms: 400, full_s: 300, crosscheck: false }
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w as u32)) }
    }
    /// 1-bit terms are Bool; as_bv turns them into vectors where needed
    fn as_bv(&mut self, p: &Pool, e: E) -> P {
        let t = self.tr(p, e);
        if p.w(e) == 1 { unsafe { Z3_mk_ite(self.c, t, self.num(1, 1), self.num(0, 1)) } } else { t }
    }
    fn tr(&mut self, p: &Pool, e: E) -> P {
        if self.tr.len() < p.nodes.len() { self.tr.resize(p.nodes.len(), std::ptr::null_mut()); }
        // iterative post-order (terms can be deep)
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if !self.tr[x as usize].is_null() { continue; }
            let n = p.n(x);
            if !done {
                st.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Op::Extract | Op::SExt => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            let r = self.tr1(p, n);
            self.tr[x as usize] = r;
        }
        self.tr[e as usize]
    }
    fn tr1(&mut self, p: &Pool, n: Node) -> P {
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => { let v = p.consts[n.a as usize]; if n.w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(v, n.w) } }
                Op::Var => { let s = CString::new(p.vars[n.a as usize].1.as_str()).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as u32)) }
                Op::Ite => { let (a, b, d) = (self.tr(p, n.a), self.tr(p, n.b), self.tr(p, n.c)); Z3_mk_ite(c, a, b, d) }
                Op::Extract => {
                    let a = self.tr(p, n.a);
                    let t = Z3_mk_extract(c, n.c + n.w as u32 - 1, n.c, a);
                    if n.w == 1 { Z3_mk_eq(c, t, self.num(1, 1)) } else { t }
                }
                Op::SExt => { let a = self.as_bv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, a) }
                Op::Concat => { let a = self.as_bv(p, n.a); let b = self.as_bv(p, n.b); Z3_mk_concat(c, a, b) }
                op => {
                    let (a, b) = (self.tr(p, n.a), self.tr(p, n.b));
                    if p.w(n.a) == 1 {
                        return match op {
                            Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            Op::Xor => Z3_mk_xor(c, a, b),
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Slt => Z3_mk_and(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                            Op::Sle => Z3_mk_or(c, 2, [a, Z3_mk_not(c, b)].as_ptr()),
                            _ => panic!("1-bit {:?}", op),
                        };
                    }
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub | Op::SubN => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b), Op::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }

    /// satisfiability of pc /\ cond; the model covers the variables connected to cond
    pub fn check(&mut self, p: &mut Pool, pc: &[E], cond: E) -> Res {
        if let Some(v) = p.is_const(cond) { if v == 0 { return Res::Unsat; } }
        // slice
        let mut vars: HashSet<u32> = p.varset(cond).iter().copied().collect();
        let mut pend: Vec<(E, std::rc::Rc<Vec<u32>>)> = pc.iter().map(|&e| (e, p.varset(e))).collect();
        let mut key = vec![cond];
        loop {
            let before = pend.len();
            let mut keep = vec![];
            for (e, vs) in pend {
                if vs.iter().any(|v| vars.contains(v)) { vars.extend(vs.iter().copied()); key.push(e); } else { keep.push((e, vs)); }
            }
            pend = keep;
            if pend.len() == before { break; }
        }
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.st.cache_hits += 1; return r.clone(); }
        let mut vlist: Vec<u32> = vars.into_iter().collect();
        vlist.sort_unstable();
        for m in self.recent.iter().rev() {
            let mut memo = HashMap::default();
            if key.iter().all(|&e| p.eval(e, m, &mut memo).lo() & 1 == 1) {
                self.st.model_hits += 1;
                let r = Res::Sat(vlist.iter().map(|&v| (v, m.get(v as usize).copied().unwrap_or(0))).collect());
                self.cache.insert(key, r.clone());
                return r;
            }
        }
        let t0 = Instant::now();
        self.st.queries += 1;
        let arith = arithmetic(p, &key);
        let mut r = Res::Unknown;
        if arith {
            r = self.lia(p, &key, &vlist, 150);
            if let Res::Unknown = r { self.st.race += 1; r = portfolio(p, &key, &vlist, 3, 2); }
        }
        if let Res::Unknown = r { r = self.z3(p, &key, &vlist, self.quick_ms); }
        if let Res::Unknown = r { self.st.fallback += 1; r = portfolio(p, &key, &vlist, self.full_s, 0); }
        if self.crosscheck {
            match (&r, portfolio(p, &key, &vlist, 20, 1)) {
                (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => { eprintln!("SOLVER DISAGREEMENT"); std::process::exit(3); }
                (_, Res::Unknown) => {}
                _ => self.st.crosschecked += 1,
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time { self.st.max_time = dt; }
        if std::env::var("SX_SLOW").map_or(false, |v| dt > v.parse().unwrap_or(2.0)) {
            let f = format!("/tmp/sx_slow_{}_{}.smt2", std::process::id(), self.st.queries);
            std::fs::write(&f, smt2(p, &key, &vlist)).ok();
            std::fs::write(f.replace("smt2", "lia"), format!("(set-logic QF_LIA)\n{}(check-sat)\n", smt_int(p, &key, &vlist))).ok();
            eprintln!("slow query {:.1}s {} ", dt, f);
        }
        match &r {
            Res::Sat(m) => {
                self.st.sat += 1;
                // a wrong model would be an encoding bug: check it with the evaluator
                let mut full = vec![0u128; p.vars.len()];
                for &(v, x) in m { full[v as usize] = x; }
                let mut memo = HashMap::default();
                for &e in &key { if p.eval(e, &full, &mut memo).lo() & 1 != 1 { eprintln!("model check failed"); std::process::exit(3); } }
                self.recent.push(std::rc::Rc::new(full));
                if self.recent.len() > 24 { self.recent.remove(0); }
            }
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn lia(&mut self, p: &Pool, key: &[E], vlist: &[u32], ms: u32) -> Res {
        self.st.lia += 1;
        let t = CString::new(smt_int(p, key, vlist)).unwrap();
        unsafe {
            Z3_solver_reset(self.c, self.si);
            Z3_params_set_uint(self.c, self.params, self.ktimeout, ms);
            Z3_solver_set_params(self.c, self.si, self.params);
            Z3_solver_from_string(self.c, self.si, t.as_ptr());
            match Z3_solver_check(self.c, self.si) {
                -1 => { self.st.lia_hits += 1; Res::Unsat }
                1 => {
                    let m = Z3_solver_get_model(self.c, self.si);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    let mut full = vec![0u128; p.vars.len()];
                    for &v in vlist {
                        let s = CString::new(p.vars[v as usize].1.as_str()).unwrap();
                        let a = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_int_sort(self.c));
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut r);
                        let t = CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_str().unwrap().to_string();
                        let x = t.parse::<u128>().unwrap_or(0);
                        full[v as usize] = x;
                        out.push((v, x));
                    }
                    Z3_model_dec_ref(self.c, m);
                    let mut memo = HashMap::default();
                    if key.iter().all(|&e| p.eval(e, &full, &mut memo).lo() & 1 == 1) { self.st.lia_hits += 1; Res::Sat(out) } else { Res::Unknown }
                }
                _ => Res::Unknown,
            }
        }
    }
    fn z3(&mut self, p: &Pool, key: &[E], vlist: &[u32], ms: u32) -> Res {
        unsafe {
            Z3_solver_reset(self.c, self.s);
            Z3_params_set_uint(self.c, self.params, self.ktimeout, ms);
            Z3_solver_set_params(self.c, self.s, self.params);
            for &e in key { let t = self.tr(p, e); Z3_solver_assert(self.c, self.s, t); }
            match Z3_solver_check(self.c, self.s) {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in vlist {
                        let (w, name) = (&p.vars[v as usize].0, &p.vars[v as usize].1);
                        let s = CString::new(name.as_str()).unwrap();
                        let a = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), Z3_mk_bv_sort(self.c, *w as u32));
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut r);
                        let t = CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_str().unwrap().to_string();
                        out.push((v, t.parse::<u128>().unwrap()));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            }
        }
    }
}

pub fn smt2(p: &Pool, key: &[E], vlist: &[u32]) -> String {
    use std::fmt::Write;
    let mut o = String::from("(set-logic QF_BV)\n(set-option :produce-models true)\n");
    for &v in vlist { writeln!(o, "(declare-const {} (_ BitVec {}))", p.vars[v as usize].1, p.vars[v as usize].0).unwrap(); }
    let mut done: HashSet<E> = HashSet::new();
    let nm = |p: &Pool, e: E| -> String {
        let n = p.n(e);
        match n.op {
            Op::Const => { let v = p.consts[n.a as usize]; if n.w == 1 { (if v == 1 { "true" } else { "false" }).into() } else { format!("(_ bv{} {})", v, n.w) } }
            Op::Var => p.vars[n.a as usize].1.clone(),
            _ => format!("t{}", e),
        }
    };
    for &k in key {
        let mut st = vec![(k, false)];
        while let Some((x, d)) = st.pop() {
            if done.contains(&x) { continue; }
            let n = p.n(x);
            if matches!(n.op, Op::Const | Op::Var) { continue; }
            if !d {
                st.push((x, true));
                match n.op {
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Op::Extract | Op::SExt => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            done.insert(x);
            let bv = |e: E| -> String { if p.w(e) == 1 { format!("(ite {} #b1 #b0)", nm(p, e)) } else { nm(p, e) } };
            let body = match n.op {
                Op::Ite => format!("(ite {} {} {})", nm(p, n.a), nm(p, n.b), nm(p, n.c)),
                Op::Extract => { let t = format!("((_ extract {} {}) {})", n.c + n.w as u32 - 1, n.c, nm(p, n.a)); if n.w == 1 { format!("(= {} #b1)", t) } else { t } }
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - p.w(n.a), bv(n.a)),
                Op::Concat => format!("(concat {} {})", bv(n.a), bv(n.b)),
                op => {
                    let one = p.w(n.a) == 1;
                    let s = if one { match op { Op::And => "and", Op::Or => "or", Op::Xor => "xor", Op::Eq => "=", _ => "?" } } else {
                        match op {
                            Op::Add => "bvadd", Op::Sub | Op::SubN => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::URem => "bvurem", Op::SDiv => "bvsdiv", Op::SRem => "bvsrem",
                            Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr",
                            Op::Eq => "=", Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", Op::Sle => "bvsle", _ => "?",
                        }
                    };
                    if one && op == Op::Slt { format!("(and {} (not {}))", nm(p, n.a), nm(p, n.b)) }
                    else if one && op == Op::Sle { format!("(or {} (not {}))", nm(p, n.a), nm(p, n.b)) }
                    else { format!("({} {} {})", s, nm(p, n.a), nm(p, n.b)) }
                }
            };
            let sort = if n.w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", n.w) };
            writeln!(o, "(define-fun t{} () {} {})", x, sort, body).unwrap();
        }
        writeln!(o, "(assert {})", nm(p, k)).unwrap();
    }
    o.push_str("(check-sat)\n");
    if !vlist.is_empty() {
        o.push_str("(get-value (");
        for &v in vlist { o.push_str(&p.vars[v as usize].1); o.push(' '); }
        o.push_str("))\n");
    }
    o
}

fn arithmetic(p: &Pool, key: &[E]) -> bool {
    let mut seen: HashSet<E> = HashSet::new();
    let mut st: Vec<E> = key.to_vec();
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        let n = p.n(x);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
            Op::Extract | Op::SExt => st.push(n.a),
            Op::Add | Op::Sub | Op::SubN | Op::Mul | Op::UDiv | Op::URem => return true,
            _ => { st.push(n.a); st.push(n.b); }
        }
    }
    false
}

/// The query over unbounded integers: terms that cannot wrap become exact linear arithmetic, wrapping or
/// truncating ones get an explicit quotient and remainder, anything else a bounded unknown. Unsat of this
/// over-approximation is unsat of the query; a model counts only after evaluation on the original terms.
pub fn smt_int(p: &Pool, key: &[E], vlist: &[u32]) -> String {
    use std::fmt::Write;
    let mut o = String::new();
    let mut asserts = String::new();
    let pw = |w: u16| -> String { pow2(w) };
    for &v in vlist {
        let n = &p.vars[v as usize];
        writeln!(o, "(declare-const {} Int)\n(assert (<= 0 {} {}))", n.1, n.1, mask(n.0)).unwrap();
    }
    let mut done: HashSet<E> = HashSet::new();
    let nm = |p: &Pool, e: E| -> String {
        let n = p.n(e);
        match n.op {
            Op::Const => { let v = p.consts[n.a as usize]; if n.w == 1 { (if v == 1 { "true" } else { "false" }).into() } else { v.to_string() } }
            Op::Var => p.vars[n.a as usize].1.clone(),
            _ => format!("t{}", e),
        }
    };
    for &k in key {
        let mut st = vec![(k, false)];
        while let Some((x, d)) = st.pop() {
            if done.contains(&x) { continue; }
            let n = p.n(x);
            if matches!(n.op, Op::Const | Op::Var) { continue; }
            if !d {
                st.push((x, true));
                match n.op {
                    Op::Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Op::Extract | Op::SExt => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            done.insert(x);
            let iv = |e: E| -> String { if p.w(e) == 1 { format!("(ite {} 1 0)", nm(p, e)) } else { nm(p, e) } };
            let nw = p.no_wrap(x);
            let kb = p.is_const(n.b);
            let fresh = |o: &mut String, s: &str| { writeln!(o, "(declare-const {}{} Int)", s, x).unwrap(); };
            let range = |o: &mut String| {
                let (l, h) = p.range(x);
                fresh(o, "t");
                if n.w <= 128 { writeln!(o, "(assert (<= {} t{} {}))", l, x, h).unwrap(); } else { writeln!(o, "(assert (<= 0 t{}))", x).unwrap(); }
            };
            let mut body = None;
            match n.op {
                Op::Ite => body = Some(format!("(ite {} {} {})", nm(p, n.a), nm(p, n.b), nm(p, n.c))),
                Op::Concat => body = Some(if p.is_const(n.a) == Some(0) { iv(n.b) } else { format!("(+ (* {} {}) {})", pw(p.w(n.b)), iv(n.a), iv(n.b)) }),
                Op::Extract => {
                    if n.w == 1 {
                        // bit c of a
                        writeln!(o, "(declare-const t{} Bool)", x).unwrap(); fresh(&mut o, "h"); fresh(&mut o, "l");
                        writeln!(o, "(assert (= {} (+ (* {} h{}) (ite t{} {} 0) l{})))\n(assert (<= 0 h{}))\n(assert (<= 0 l{}))\n(assert (< l{} {}))", iv(n.a), pw(n.c as u16 + 1), x, x, pw(n.c as u16), x, x, x, x, pw(n.c as u16)).unwrap();
                        if n.c as u16 + 1 == p.w(n.a) { writeln!(o, "(assert (= h{} 0))", x).unwrap(); }
                    } else if n.c == 0 && p.w(n.a) <= 128 && p.range(n.a).1 <= mask(n.w) { body = Some(iv(n.a)); }
                    else {
                        range(&mut o);
                        let top = n.c as u16 + n.w == p.w(n.a) || (p.w(n.a) <= 128 && n.c as u16 + n.w <= 127 && p.range(n.a).1 >> (n.c as u16 + n.w) == 0);
                        let mut t = String::new();
                        if !top { fresh(&mut o, "h"); writeln!(o, "(assert (<= 0 h{}))", x).unwrap(); write!(t, "(* {} h{}) ", pw(n.c as u16 + n.w), x).unwrap(); }
                        if n.c > 0 { fresh(&mut o, "l"); writeln!(o, "(assert (<= 0 l{}))\n(assert (< l{} {}))", x, x, pw(n.c as u16)).unwrap(); write!(t, "l{} ", x).unwrap(); }
                        writeln!(o, "(assert (= {} (+ {} (* {} t{}))))", iv(n.a), t, pw(n.c as u16), x).unwrap();
                    }
                }
                Op::Add | Op::Sub | Op::SubN => {
                    let s = if n.op == Op::Add { "+" } else { "-" };
                    if nw { body = Some(format!("({} {} {})", s, iv(n.a), iv(n.b))); }
                    else {
                        range(&mut o);
                        writeln!(o, "(declare-const c{} Bool)\n(assert (= (+ t{} (ite c{} {} 0)) ({} {} {})))", x, x, x, if n.op == Op::Add { pw(n.w) } else { format!("(- {})", pw(n.w)) }, s, iv(n.a), iv(n.b)).unwrap();
                    }
                }
                Op::Mul if kb.is_some() => {
                    if nw { body = Some(format!("(* {} {})", kb.unwrap(), iv(n.a))); }
                    else {
                        range(&mut o); fresh(&mut o, "q");
                        writeln!(o, "(assert (<= 0 q{}))\n(assert (= (+ (* {} q{}) t{}) (* {} {})))", x, pw(n.w), x, x, kb.unwrap(), iv(n.a)).unwrap();
                    }
                }
                Op::UDiv | Op::URem if kb.is_some() && kb != Some(0) => {
                    range(&mut o);
                    fresh(&mut o, "q");
                    let k = kb.unwrap();
                    let (q, r) = if n.op == Op::UDiv { (format!("t{}", x), format!("q{}", x)) } else { (format!("q{}", x), format!("t{}", x)) };
                    writeln!(o, "(assert (and (<= 0 {}) (<= 0 {}) (< {} {}) (= {} (+ (* {} {}) {}))))", q, r, r, k, iv(n.a), k, q, r).unwrap();
                }
                op if n.w == 1 => {
                    let one = p.w(n.a) == 1;
                    let (a, b) = (nm(p, n.a), nm(p, n.b));
                    body = match op {
                        Op::And if one => Some(format!("(and {} {})", a, b)), Op::Or if one => Some(format!("(or {} {})", a, b)), Op::Xor if one => Some(format!("(xor {} {})", a, b)),
                        Op::Eq => Some(format!("(= {} {})", a, b)),
                        Op::Ult if !one => Some(format!("(< {} {})", a, b)), Op::Ule if !one => Some(format!("(<= {} {})", a, b)),
                        _ => { writeln!(o, "(declare-const t{} Bool)", x).unwrap(); None }
                    };
                }
                _ => range(&mut o),
            }
            if let Some(b) = body { writeln!(o, "(define-fun t{} () {} {})", x, if n.w == 1 { "Bool" } else { "Int" }, b).unwrap(); }
        }
        writeln!(asserts, "(assert {})", nm(p, k)).unwrap();
    }
    o + &asserts
}
fn pow2(w: u16) -> String {
    // decimal of 2^w for any width
    if w < 128 { return (1u128 << w).to_string(); }
    let mut d = vec![1u8];
    for _ in 0..w { let mut c = 0; for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; } if c > 0 { d.push(c); } }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

/// races external solvers on the query; any `(error` output before an answer counts as no answer
fn portfolio(p: &Pool, key: &[E], vlist: &[u32], secs: u64, mode: u8) -> Res {
    use std::process::{Command, Stdio};
    let dir = std::env::temp_dir().join(format!("sxq_{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok();
    let f = dir.join("q.smt2");
    std::fs::write(&f, smt2(p, key, vlist)).unwrap();
    let fs = f.to_str().unwrap();
    let fl = dir.join("q.lia.smt2");
    let mut lt = format!("(set-logic QF_LIA)\n(set-option :produce-models true)\n{}(check-sat)\n", smt_int(p, key, vlist));
    if !vlist.is_empty() { lt.push_str("(get-value ("); for &v in vlist { lt.push_str(&p.vars[v as usize].1); lt.push(' '); } lt.push_str("))\n"); }
    std::fs::write(&fl, lt).unwrap();
    let fl = fl.to_str().unwrap();
    let t = secs.to_string();
    let tl = format!("--tlimit={}", secs * 1000);
    let zt = format!("-T:{}", secs);
    let cmds: Vec<(&str, Vec<&str>)> = if mode == 1 { vec![("cvc5", vec![tl.as_str(), fs])] } else if mode == 2 { vec![("cvc5", vec![tl.as_str(), fl]), ("z3-new", vec![zt.as_str(), fl])] } else {
        vec![
            ("cvc5", vec![tl.as_str(), "--solve-bv-as-int=sum", fs]),
            ("cvc5", vec![tl.as_str(), fs]),
            ("z3-new", vec![zt.as_str(), fs]),
            ("cvc5", vec![tl.as_str(), fl]),
            ("z3-new", vec![zt.as_str(), fl]),
        ]
    };
    let _ = t;
    let mut kids = vec![];
    for (i, (c, a)) in cmds.iter().enumerate() {
        let out = std::fs::File::create(dir.join(format!("o{}", i))).unwrap();
        if let Ok(k) = Command::new(c).args(a).stdout(Stdio::from(out)).stderr(Stdio::null()).spawn() { kids.push((i, k, false)); }
    }
    let t0 = Instant::now();
    let mut res = Res::Unknown;
    'outer: loop {
        let mut live = false;
        for (i, k, done) in kids.iter_mut() {
            if *done { continue; }
            match k.try_wait() {
                Ok(Some(_)) => {
                    *done = true;
                    let s = std::fs::read_to_string(dir.join(format!("o{}", i))).unwrap_or_default();
                    let first = s.lines().find(|l| !l.trim().is_empty()).unwrap_or("").trim().to_string();
                    if first == "unsat" { res = Res::Unsat; break 'outer; }
                    if first == "sat" { if let Some(m) = parse_model(p, &s, vlist) {
                        // (a model of the integer over-approximation may be spurious)
                        let mut full = vec![0u128; p.vars.len()];
                        for &(v, x) in &m { full[v as usize] = x; }
                        let mut memo = HashMap::default();
                        if key.iter().all(|&e| p.eval(e, &full, &mut memo).lo() & 1 == 1) { res = Res::Sat(m); break 'outer; }
                    } }
                }
                _ => live = true,
            }
        }
        if !live || t0.elapsed() > Duration::from_secs(secs + 5) { break; }
        std::thread::sleep(Duration::from_millis(3));
    }
    for (_, k, _) in kids.iter_mut() { k.kill().ok(); k.wait().ok(); }
    std::fs::remove_dir_all(&dir).ok();
    res
}

fn parse_model(p: &Pool, s: &str, vlist: &[u32]) -> Option<Vec<(u32, u128)>> {
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut m = HashMap::new();
    for i in 0..toks.len() {
        if toks[i] != "(" && toks[i] != ")" && i + 1 < toks.len() {
            let v = &toks[i + 1];
            if let Some(b) = v.strip_prefix("#b") { m.insert(toks[i].clone(), u128::from_str_radix(b, 2).ok()?); }
            else if let Some(h) = v.strip_prefix("#x") { m.insert(toks[i].clone(), u128::from_str_radix(h, 16).ok()?); }
            else if v.bytes().all(|c| c.is_ascii_digit()) && p.vars.iter().any(|x| x.1 == toks[i]) { m.insert(toks[i].clone(), v.parse().ok()?); }
            else if v == "(" && toks.get(i + 2).map(|x| x == "_").unwrap_or(false) { m.insert(toks[i].clone(), toks[i + 3].strip_prefix("bv")?.parse().ok()?); }
        }
    }
    vlist.iter().map(|&v| m.get(&p.vars[v as usize].1).map(|&x| (v, x))).collect()
}

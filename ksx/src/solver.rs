//! libz3 binding (C API) plus constraint slicing and query caching.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    ctx: P, s: P,
    bv: HashMap<Ex, usize>, bl: HashMap<Ex, usize>,
    cache: HashMap<Vec<Ex>, Answer>,
    dom_cache: HashMap<(Ex, u32), [u64; 4]>,
    pub queries: u64, pub cached: u64, pub unknown: u64, pub dom: u64, pub time: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, bv: HashMap::new(), bl: HashMap::new(), cache: HashMap::new(), dom_cache: HashMap::new(), queries: 0, cached: 0, unknown: 0, dom: 0, time: 0.0 }
        }
    }
    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
            else { let t = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(self.ctx, t.as_ptr(), s) }
        }
    }
    fn to_bool(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&x) = self.bl.get(&e) { return x as P; }
        let n = p.nodes[e as usize];
        let c = self.ctx;
        assert!(n.w == 1);
        let r = unsafe { match n.op {
            Op::Const => if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            Op::Not => { let a = self.to_bool(p, n.a); Z3_mk_not(c, a) }
            Op::And => { let a = [self.to_bool(p, n.a), self.to_bool(p, n.b)]; Z3_mk_and(c, 2, a.as_ptr()) }
            Op::Or => { let a = [self.to_bool(p, n.a), self.to_bool(p, n.b)]; Z3_mk_or(c, 2, a.as_ptr()) }
            Op::Xor => { let a = self.to_bool(p, n.a); let b = self.to_bool(p, n.b); Z3_mk_xor(c, a, b) }
            Op::Ite => { let a = self.to_bool(p, n.a); let b = self.to_bool(p, n.b); let d = self.to_bool(p, n.c); Z3_mk_ite(c, a, b, d) }
            Op::Eq => if p.w(n.a) == 1 { let a = self.to_bool(p, n.a); let b = self.to_bool(p, n.b); Z3_mk_eq(c, a, b) }
                      else { let a = self.to_bv(p, n.a); let b = self.to_bv(p, n.b); Z3_mk_eq(c, a, b) },
            Op::Ult => { let a = self.to_bv(p, n.a); let b = self.to_bv(p, n.b); Z3_mk_bvult(c, a, b) }
            Op::Ule => { let a = self.to_bv(p, n.a); let b = self.to_bv(p, n.b); Z3_mk_bvule(c, a, b) }
            Op::Slt => { let a = self.to_bv(p, n.a); let b = self.to_bv(p, n.b); Z3_mk_bvslt(c, a, b) }
            Op::Sle => { let a = self.to_bv(p, n.a); let b = self.to_bv(p, n.b); Z3_mk_bvsle(c, a, b) }
            _ => { let a = self.to_bv(p, e); let one = self.num(1, 1); Z3_mk_eq(c, a, one) }
        } };
        self.bl.insert(e, r as usize);
        r
    }
    fn to_bv(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&x) = self.bv.get(&e) { return x as P; }
        let n = p.nodes[e as usize];
        let c = self.ctx;
        let r = unsafe {
            if n.w == 1 && matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor | Op::Not) {
                let b = self.to_bool(p, e); let o = self.num(1, 1); let z = self.num(1, 0);
                Z3_mk_ite(c, b, o, z)
            } else { match n.op {
                Op::Const => self.num(n.w, n.v),
                Op::Var => { let t = CString::new(format!("v{}", n.v)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, t.as_ptr()), Z3_mk_bv_sort(c, 8)) }
                Op::Not => { let a = self.to_bv(p, n.a); Z3_mk_bvnot(c, a) }
                Op::Ite => { let a = self.to_bool(p, n.a); let b = self.to_bv(p, n.b); let d = self.to_bv(p, n.c); Z3_mk_ite(c, a, b, d) }
                Op::Extract => { let a = self.to_bv(p, n.a); Z3_mk_extract(c, (n.v as u16 + n.w - 1) as c_uint, n.v as c_uint, a) }
                Op::ZExt => { let a = self.to_bv(p, n.a); Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, a) }
                Op::SExt => { let a = self.to_bv(p, n.a); Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, a) }
                _ => {
                    let a = self.to_bv(p, n.a); let b = self.to_bv(p, n.b);
                    match n.op {
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!("{:?}", n),
                    }
                }
            } }
        };
        self.bv.insert(e, r as usize);
        r
    }
    /// Is pc && extra satisfiable? Constraints sharing no input (transitively) with `extra` are left out: they are
    /// satisfied by the path's current model and independent of the query.
    pub fn check(&mut self, p: &mut Pool, pc: &[Ex], extra: Ex) -> Answer {
        match p.cv(extra) { Some(0) => return Answer::Unsat, Some(_) => return Answer::Sat(vec![]), None => {} }
        // slice
        let mut vars: Vec<u32> = p.vars[extra as usize].to_vec();
        let mut used = vec![false; pc.len()];
        let mut set: std::collections::HashSet<u32> = vars.iter().copied().collect();
        let mut key: Vec<Ex> = vec![];
        loop {
            let mut grew = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let cvs = &p.vars[c as usize];
                if cvs.iter().any(|v| set.contains(v)) {
                    used[i] = true; key.push(c);
                    for v in cvs.iter() { if set.insert(*v) { vars.push(*v); grew = true; } }
                }
            }
            if !grew { break; }
        }
        key.sort_unstable(); key.dedup();
        key.push(extra);
        if let Some(a) = self.cache.get(&key) { self.cached += 1; return a.clone(); }
        let a = if vars.len() == 1 { self.one_byte(p, &key, vars[0]) } else { self.z3(p, &key, &vars) };
        self.cache.insert(key, a.clone());
        a
    }
    /// All constraints talk about a single input byte: intersect their exact 256-value satisfaction sets.
    fn one_byte(&mut self, p: &mut Pool, key: &[Ex], v: u32) -> Answer {
        self.dom += 1;
        let mut d = [u64::MAX; 4];
        for &c in key {
            let s = match self.dom_cache.get(&(c, v)) {
                Some(s) => *s,
                None => {
                    let mut s = [0u64; 4];
                    let mut m = vec![0u8; v as usize + 1];
                    for x in 0..256usize { m[v as usize] = x as u8; if p.eval(c, &m) == 1 { s[x / 64] |= 1 << (x % 64); } }
                    self.dom_cache.insert((c, v), s); s
                }
            };
            for i in 0..4 { d[i] &= s[i]; }
        }
        for i in 0..4 { if d[i] != 0 { return Answer::Sat(vec![(v, (i * 64) as u8 + d[i].trailing_zeros() as u8)]); } }
        Answer::Unsat
    }
    fn z3(&mut self, p: &mut Pool, key: &[Ex], vars: &[u32]) -> Answer {
        let t = Instant::now();
        self.queries += 1;
        let a = unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for &c in key { let b = self.to_bool(p, c); Z3_solver_assert(self.ctx, self.s, b); }
            let r = Z3_solver_check(self.ctx, self.s);
            if Z3_get_error_code(self.ctx) != 0 { self.unknown += 1; return Answer::Unknown; }
            match r {
                -1 => Answer::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for &v in vars {
                        let e = p.var(v);
                        let z = self.to_bv(p, e);
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, z, true, &mut o);
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.ctx, o, &mut x);
                        out.push((v, x as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Answer::Sat(out)
                }
                _ => { self.unknown += 1; Answer::Unknown }
            }
        };
        self.time += t.elapsed().as_secs_f64();
        a
    }
}

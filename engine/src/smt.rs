//! Z3 (C API) back end: satisfiability of conjunctions of width-1 expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, t: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_away(c: P) -> P;
    fn Z3_mk_fpa_round_toward_positive(c: P) -> P;
    fn Z3_mk_fpa_round_toward_negative(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, n: c_uint) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Rc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Smt {
    ctx: P,
    tactic: P,
    /// for queries with floating-point operations
    fp_tactic: P,
    params: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    /// print queries slower than this (0: none)
    pub slow: f64,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Smt {
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            let tactic = Z3_mk_tactic(ctx, cs("qfbv").as_ptr());
            Z3_tactic_inc_ref(ctx, tactic);
            let fp_tactic = Z3_mk_tactic(ctx, cs("qffpbv").as_ptr());
            Z3_tactic_inc_ref(ctx, fp_tactic);
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, cs("timeout").as_ptr()), timeout_ms);
            Smt {
                ctx,
                tactic,
                fp_tactic,
                params,
                bv: HashMap::new(),
                bl: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
            slow: 0.0,
            }
        }
    }
    unsafe fn keep(&self, p: P) -> P {
        Z3_inc_ref(self.ctx, p);
        p
    }
    /// Translate all sub-expressions bottom-up (iteratively, so deep chains are fine).
    fn prepare(&mut self, p: &Pool, e: E) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.bv.contains_key(&x) || self.bl.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = p.n(x);
            let kids: [Option<E>; 3] = match n.op {
                Op::Const | Op::Var => [None, None, None],
                Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
                Op::Extract | Op::ZExt | Op::SExt => [Some(n.a), None, None],
                _ => [Some(n.a), Some(n.b), None],
            };
            let mut pushed = false;
            for k in kids.iter().flatten() {
                if !(self.bv.contains_key(k) || self.bl.contains_key(k)) {
                    st.push(*k);
                    pushed = true;
                }
            }
            if pushed {
                continue;
            }
            st.pop();
            if n.w == 1 {
                let t = unsafe { self.mk_bool(p, x) };
                self.bl.insert(x, t);
            } else {
                let t = unsafe { self.mk_bv(p, x) };
                self.bv.insert(x, t);
            }
        }
    }
    unsafe fn num(&self, w: u16, v: u128) -> P {
        let s = Z3_mk_bv_sort(self.ctx, w as u32);
        self.keep(s);
        self.keep(Z3_mk_numeral(self.ctx, cs(&v.to_string()).as_ptr(), s))
    }
    unsafe fn getbv(&mut self, e: E) -> P {
        if let Some(&t) = self.bv.get(&e) {
            return t;
        }
        let b = self.bl[&e];
        let one = self.num(1, 1);
        let zero = self.num(1, 0);
        let t = self.keep(Z3_mk_ite(self.ctx, b, one, zero));
        self.bv.insert(e, t);
        t
    }
    unsafe fn getbool(&mut self, e: E) -> P {
        if let Some(&t) = self.bl.get(&e) {
            return t;
        }
        let b = self.bv[&e];
        let one = self.num(1, 1);
        let t = self.keep(Z3_mk_eq(self.ctx, b, one));
        self.bl.insert(e, t);
        t
    }
    unsafe fn mk_bool(&mut self, p: &Pool, e: E) -> P {
        let n = p.n(e);
        let c = self.ctx;
        let t = match n.op {
            Op::Const => {
                if p.cv(e) == Some(1) {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::Eq if p.w(n.a) == 1 => {
                let (a, b) = (self.getbool(n.a), self.getbool(n.b));
                Z3_mk_eq(c, a, b)
            }
            Op::Eq => {
                let (a, b) = (self.getbv(n.a), self.getbv(n.b));
                Z3_mk_eq(c, a, b)
            }
            Op::Ult => {
                let (a, b) = (self.getbv(n.a), self.getbv(n.b));
                Z3_mk_bvult(c, a, b)
            }
            Op::Slt => {
                let (a, b) = (self.getbv(n.a), self.getbv(n.b));
                Z3_mk_bvslt(c, a, b)
            }
            Op::And => {
                let v = [self.getbool(n.a), self.getbool(n.b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            Op::Or => {
                let v = [self.getbool(n.a), self.getbool(n.b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            Op::Xor => {
                let a = self.getbool(n.a);
                if p.cv(n.b) == Some(1) {
                    Z3_mk_not(c, a)
                } else {
                    let b = self.getbool(n.b);
                    Z3_mk_xor(c, a, b)
                }
            }
            Op::Ite => {
                let (a, b, d) = (self.getbool(n.a), self.getbool(n.b), self.getbool(n.c));
                Z3_mk_ite(c, a, b, d)
            }
            _ => {
                let t = self.mk_bv(p, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, t, one)
            }
        };
        self.keep(t)
    }
    unsafe fn mk_bv(&mut self, p: &Pool, e: E) -> P {
        let n = p.n(e);
        let c = self.ctx;
        let t = match n.op {
            Op::Const => return self.num(n.w, p.cv(e).unwrap()),
            Op::Var => {
                let s = Z3_mk_bv_sort(c, n.w as u32);
                self.keep(s);
                let name = cs(&format!("v{}", n.a));
                Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), s)
            }
            Op::Ite => {
                let (a, b, d) = (self.getbool(n.a), self.getbv(n.b), self.getbv(n.c));
                Z3_mk_ite(c, a, b, d)
            }
            Op::Extract => {
                let a = self.getbv(n.a);
                Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
            }
            Op::ZExt => {
                let a = self.getbv(n.a);
                Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as u32, a)
            }
            Op::SExt => {
                let a = self.getbv(n.a);
                Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as u32, a)
            }
            _ => {
                let (a, b) = (self.getbv(n.a), self.getbv(n.b));
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Concat => Z3_mk_concat(c, a, b),
                    o if is_fp(o) => return self.mk_fp(p, n, a, b),
                    o => unreachable!("{:?}", o),
                }
            }
        };
        self.keep(t)
    }

    unsafe fn mk_fp(&self, p: &Pool, n: Node, a: P, b: P) -> P {
        let c = self.ctx;
        let wa = p.w(n.a);
        let sort = |w: u16| self.keep(if w == 32 { Z3_mk_fpa_sort(c, 8, 24) } else { Z3_mk_fpa_sort(c, 11, 53) });
        let rne = self.keep(Z3_mk_fpa_round_nearest_ties_to_even(c));
        let rtz = self.keep(Z3_mk_fpa_round_toward_zero(c));
        if matches!(n.op, Op::ToS | Op::ToU) {
            let x = self.keep(Z3_mk_fpa_to_fp_bv(c, a, sort(wa)));
            return self.keep(if n.op == Op::ToS { Z3_mk_fpa_to_sbv(c, rtz, x, n.w as u32) } else { Z3_mk_fpa_to_ubv(c, rtz, x, n.w as u32) });
        }
        let r = if matches!(n.op, Op::FromS | Op::FromU) {
            let s = sort(n.w);
            if n.op == Op::FromS {
                Z3_mk_fpa_to_fp_signed(c, rne, a, s)
            } else {
                Z3_mk_fpa_to_fp_unsigned(c, rne, a, s)
            }
        } else {
            let x = self.keep(Z3_mk_fpa_to_fp_bv(c, a, sort(wa)));
            let y = self.keep(Z3_mk_fpa_to_fp_bv(c, b, sort(wa)));
            match n.op {
                Op::FAdd => Z3_mk_fpa_add(c, rne, x, y),
                Op::FSub => Z3_mk_fpa_sub(c, rne, x, y),
                Op::FMul => Z3_mk_fpa_mul(c, rne, x, y),
                Op::FDiv => Z3_mk_fpa_div(c, rne, x, y),
                Op::FSqrt => Z3_mk_fpa_sqrt(c, rne, x),
                _ => {
                    let m = match n.c {
                        0 => rne,
                        1 => self.keep(Z3_mk_fpa_round_nearest_ties_to_away(c)),
                        2 => self.keep(Z3_mk_fpa_round_toward_positive(c)),
                        3 => self.keep(Z3_mk_fpa_round_toward_negative(c)),
                        _ => rtz,
                    };
                    Z3_mk_fpa_round_to_integral(c, m, x)
                }
            }
        };
        let r = self.keep(r);
        let nan = self.keep(Z3_mk_fpa_is_nan(c, r));
        let bits = self.keep(Z3_mk_fpa_to_ieee_bv(c, r));
        let d = self.num(n.w, default_nan(n.w));
        self.keep(Z3_mk_ite(c, nan, d, bits))
    }

    /// Decide the conjunction of `cons`; on Sat gives values for the variables occurring in it.
    pub fn check(&mut self, p: &mut Pool, cons: &[E]) -> Res {
        let mut key: Vec<E> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let s = Z3_mk_solver_from_tactic(self.ctx, if key.iter().any(|e| p.fp(*e)) { self.fp_tactic } else { self.tactic });
            Z3_solver_inc_ref(self.ctx, s);
            Z3_solver_set_params(self.ctx, s, self.params);
            for &e in &key {
                self.prepare(p, e);
                let t = self.getbool(e);
                Z3_solver_assert(self.ctx, s, t);
            }
            let r = match Z3_solver_check(self.ctx, s) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vs: Vec<u32> = vec![];
                    for &e in &key {
                        vs.extend(p.varset(e).iter());
                    }
                    vs.sort_unstable();
                    vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let ve = p.var_expr[v as usize];
                        self.prepare(p, ve);
                        let t = self.getbv(ve);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.ctx, m, t, true, &mut o) {
                            Z3_inc_ref(self.ctx, o);
                            Z3_get_numeral_uint64(self.ctx, o, &mut u);
                        }
                        out.push((v, u));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.ctx, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if self.slow > 0.0 && dt > self.slow {
            eprintln!("slow query {:.2}s {}", dt, match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
            for e in cons {
                eprintln!("   {}", p.show(*e, 7));
            }
        }
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }
}

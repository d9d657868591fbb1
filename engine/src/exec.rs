//! Symbolic interpreter for the LLVM IR module.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

const B_CONC: u64 = 1 << 60;
const B_SYM: u64 = 2 << 60;

pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub ro: bool,
    pub data: Vec<u64>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}
impl Clone for Obj {
    fn clone(&self) -> Self {
        Obj { base: self.base, size: self.size, align: self.align, kind: self.kind, ro: self.ro, data: self.data.clone() }
    }
}

pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u64>,
    pub ret_dst: u32,
    pub normal: Option<u32>,
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame {
            f: self.f,
            body: self.body.clone(),
            block: self.block,
            ip: self.ip,
            regs: self.regs.clone(),
            allocas: self.allocas.clone(),
            ret_dst: self.ret_dst,
            normal: self.normal,
        }
    }
}

#[derive(Clone)]
pub enum Ev {
    Emit(E),
    Check(Rc<str>),
    Cover(Rc<str>),
}

/// allocations above this size fail
pub const ALLOC_LIMIT: u64 = 1 << 28;
/// after `nd_huge_`: larger objects are possible, with all bytes zero
pub const HUGE_LIMIT: u64 = 1 << 36;
/// the first bytes of a huge object can be anything
pub const HUGE_PREFIX: usize = 64;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub next_heap: u64,
    pub next_stack: u64,
    pub pc: Vec<E>,
    pub known: HashMap<E, bool>,
    /// expressions to make concrete before the next instruction
    pub split: Vec<E>,
    pub eqs: HashMap<E, u64>,
    pub model: Model,
    pub tape: Vec<E>,
    pub evs: Vec<Ev>,
    pub allow_panic: bool,
    pub huge: bool,
    /// choice that is being forked over
    pub pending: Option<u64>,
    pub steps: u64,
    pub depth: u32,
}

pub enum Stop {
    /// fork on this condition and re-execute the current instruction in both states
    Fork(E),
    /// one successor per value below the bound, the current instruction is executed again
    Choose(u64),
    /// path is over: reason
    End(EndKind),
    /// cannot be handled by the engine
    Unsup(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum EndKind {
    Ok,
    Panic,
    Assume,
    Violation,
}
type R<X> = Result<X, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub tape: Vec<(u16, u64)>,
    pub events: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Sp {
    Random,
    None,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    Panic,
    PanicNoUnwind,
    Abort,
    MemCmp,
    BCmp,
    MemCpy,
    MemMove,
    MemSet,
    StrLen,
    Nd(u8),
    Ret0,
    TooBig,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub paths_ok: u64,
    pub paths_panic: u64,
    pub paths_assume: u64,
    pub paths_viol: u64,
    pub branch_queries: u64,
    pub mem_queries: u64,
    pub check_queries: u64,
    pub checks_trivial: u64,
    pub mem_checks: u64,
    pub max_depth: u32,
}

pub struct Engine {
    pub m: Module,
    pub pool: Pool,
    pub smt: Smt,
    gobj: HashMap<u32, Rc<Obj>>,
    gorder: Vec<(u64, u32)>,
    special: HashMap<u32, Sp>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    vseen: HashSet<String>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>,
    pub incomplete: BTreeMap<String, u64>,
    pub suspects: Vec<Vec<(u16, u64)>>,
    pub incomplete_trace: Vec<Vec<String>>,
    pub funcs_used: HashMap<u32, u64>,
    model_id: u64,
    recent: Vec<Model>,
    pub recent_hits: u64,
    pub traces: Vec<String>,
    pub max_traces: usize,
    pub trace_count: usize,
    pub trace_stride: usize,
    pub paths_for_trace: u64,
    pub max_steps_path: u64,
    pub deadline: std::time::Instant,
    pub verbose: bool,
    pub profile: HashMap<u32, u64>,
}

fn conc(b: u8) -> u64 {
    B_CONC | b as u64
}
fn sh(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Self {
        let mut gorder: Vec<(u64, u32)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, i as u32)).collect();
        gorder.sort();
        Engine {
            m,
            pool: Pool::new(),
            smt: Smt::new(timeout_ms),
            gobj: HashMap::new(),
            gorder,
            special: HashMap::new(),
            stats: Stats::default(),
            violations: vec![],
            vseen: HashSet::new(),
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            incomplete: BTreeMap::new(),
            suspects: vec![],
            incomplete_trace: vec![],
            funcs_used: HashMap::new(),
            model_id: 1,
            recent: vec![],
            recent_hits: 0,
            traces: vec![],
            max_traces: 100000,
            trace_count: 0,
            trace_stride: 1,
            paths_for_trace: 0,
            max_steps_path: 2_000_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000),
            verbose: false,
            profile: HashMap::new(),
        }
    }

    // ---------------------------------------------------------------- values
    fn fresh_undef(&mut self, w: u16) -> E {
        let n = self.pool.vars.len();
        self.pool.var(w, format!("undef{}", n), true)
    }
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.pool.c(w as u16, *c as u128),
            Val::E(e) => *e,
            Val::Undef => self.fresh_wide_undef(w),
            Val::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn fresh_wide_undef(&mut self, w: u32) -> E {
        if w <= 64 {
            self.fresh_undef(w as u16)
        } else {
            let a = self.fresh_undef((w - 64) as u16);
            let b = self.fresh_undef(64);
            self.pool.concat(a, b)
        }
    }
    fn from_e(&self, e: E) -> Val {
        if self.pool.w(e) <= 64 {
            if let Some(c) = self.pool.cv(e) {
                return Val::C(c as u64);
            }
        }
        Val::E(e)
    }
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = sh(w);
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::UDiv if y != 0 => x / y,
                    Bin::URem if y != 0 => x % y,
                    Bin::SDiv if y != 0 => sx(x).wrapping_div(sx(y)) as u64,
                    Bin::SRem if y != 0 => sx(x).wrapping_rem(sx(y)) as u64,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sx(x) >> y.min(63)) as u64,
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv if w == 32 => {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            _ => p / q,
                        })
                        .to_bits() as u64
                    }
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => {
                        let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                        (match op {
                            Bin::FAdd => p + q,
                            Bin::FSub => p - q,
                            Bin::FMul => p * q,
                            _ => p / q,
                        })
                        .to_bits()
                    }
                    _ => return Err(Stop::Unsup(format!("constant {:?} (division by zero?)", op))),
                };
                return Ok(Val::C(r & m));
            }
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let p = &mut self.pool;
        let r = match op {
            Bin::Add => p.add(x, y),
            Bin::Sub => p.sub(x, y),
            Bin::Mul => p.mul(x, y),
            Bin::UDiv => p.udiv(x, y),
            Bin::URem => p.urem(x, y),
            Bin::SDiv => p.sdiv(x, y),
            Bin::SRem => p.srem(x, y),
            Bin::And => p.and(x, y),
            Bin::Or => p.or(x, y),
            Bin::Xor => p.xor(x, y),
            Bin::Shl => p.shl(x, y),
            Bin::LShr => p.lshr(x, y),
            Bin::AShr => p.ashr(x, y),
            Bin::FAdd => self.farith(Op::FAdd, x, y),
            Bin::FSub => self.farith(Op::FSub, x, y),
            Bin::FMul => self.farith(Op::FMul, x, y),
            Bin::FDiv => self.farith(Op::FDiv, x, y),
            #[allow(unreachable_patterns)]
            _ => return Err(Stop::Unsup(format!("symbolic floating-point {:?}", op))),
        };
        Ok(self.from_e(r))
    }
    /// (not a number, the same made quiet)
    fn nan_of(&mut self, x: E) -> (E, E) {
        let p = &mut self.pool;
        let w = p.w(x);
        let (eb, mb) = if w == 32 { (8u16, 23u16) } else { (11, 52) };
        let inf = p.c(w - 1, ((1u128 << eb) - 1) << mb);
        let a = p.extract(x, 0, w - 1);
        let nan = p.ult(inf, a);
        let q = p.c(w, 1 << (mb - 1));
        (nan, p.or(x, q))
    }
    /// as on x86: an operand that is no number is the result, made quiet
    fn farith(&mut self, op: Op, x: E, y: E) -> E {
        let w = self.pool.w(x);
        let (nx, qx) = self.nan_of(x);
        let (ny, qy) = self.nan_of(y);
        let r = self.pool.fop(op, 0, w, x, y);
        let r = self.pool.ite(ny, qy, r);
        self.pool.ite(nx, qx, r)
    }
    fn funary(&mut self, op: Op, mode: u32, x: E) -> E {
        let w = self.pool.w(x);
        let (nx, qx) = self.nan_of(x);
        let r = self.pool.fop(op, mode, w, x, x);
        self.pool.ite(nx, qx, r)
    }
    fn icmp(&mut self, pr: IP, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match pr {
                IP::Eq => x == y,
                IP::Ne => x != y,
                IP::Ult => x < y,
                IP::Ule => x <= y,
                IP::Ugt => x > y,
                IP::Uge => x >= y,
                IP::Slt => sx(x) < sx(y),
                IP::Sle => sx(x) <= sx(y),
                IP::Sgt => sx(x) > sx(y),
                IP::Sge => sx(x) >= sx(y),
            };
            return Val::C(r as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let p = &mut self.pool;
        let r = match pr {
            IP::Eq => p.eq(x, y),
            IP::Ne => p.ne(x, y),
            IP::Ult => p.ult(x, y),
            IP::Ule => p.ule(x, y),
            IP::Ugt => p.ult(y, x),
            IP::Uge => p.ule(y, x),
            IP::Slt => p.slt(x, y),
            IP::Sle => p.sle(x, y),
            IP::Sgt => p.slt(y, x),
            IP::Sge => p.sle(y, x),
        };
        self.from_e(r)
    }
    fn fcmp(&mut self, pr: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let wq = w as u16;
        let p = &mut self.pool;
        let (ebits, mbits) = if w == 32 { (8u16, 23u16) } else { (11, 52) };
        let inf = p.c(wq - 1, ((1u128 << ebits) - 1) << mbits);
        let ax = p.extract(x, 0, wq - 1);
        let ay = p.extract(y, 0, wq - 1);
        let nx = p.ult(inf, ax);
        let ny = p.ult(inf, ay);
        let uno = p.or(nx, ny);
        let z = p.c(wq - 1, 0);
        let zx = p.eq(ax, z);
        let zy = p.eq(ay, z);
        let bz = p.and(zx, zy);
        let same = p.eq(x, y);
        let eq0 = p.or(same, bz);
        // ordered less-than ignoring NaN
        let sx = p.extract(x, wq - 1, 1);
        let sy = p.extract(y, wq - 1, 1);
        let mag_lt = p.ult(ax, ay);
        let mag_gt = p.ult(ay, ax);
        let nsx = p.not(sx);
        let nsy = p.not(sy);
        // x<y: (sx & !sy & !bothzero) | (!sx&!sy&|x|<|y|) | (sx&sy&|x|>|y|)
        let nbz = p.not(bz);
        let t1 = {
            let t = p.and(sx, nsy);
            p.and(t, nbz)
        };
        let t2 = {
            let t = p.and(nsx, nsy);
            p.and(t, mag_lt)
        };
        let t3 = {
            let t = p.and(sx, sy);
            p.and(t, mag_gt)
        };
        let lt0 = {
            let t = p.or(t1, t2);
            p.or(t, t3)
        };
        let le0 = p.or(lt0, eq0);
        let gt0 = p.not(le0);
        let ge0 = p.not(lt0);
        let ne0 = p.not(eq0);
        let ord = p.not(uno);
        let t = p.c(1, 1);
        let f = p.c(1, 0);
        let base = match &pr[1..] {
            "eq" => eq0,
            "ne" => ne0,
            "lt" => lt0,
            "le" => le0,
            "gt" => gt0,
            "ge" => ge0,
            _ => match pr {
                "ord" => return self.from_e(ord),
                "uno" => return self.from_e(uno),
                "true" => return self.from_e(t),
                _ => return self.from_e(f),
            },
        };
        let r = if pr.starts_with('o') { p.and(ord, base) } else { p.or(uno, base) };
        self.from_e(r)
    }
    fn fpext(&mut self, x: E) -> E {
        let p = &mut self.pool;
        let s = p.extract(x, 31, 1);
        let e = p.extract(x, 23, 8);
        let m = p.extract(x, 0, 23);
        let z29 = p.c(29, 0);
        let m52 = p.concat(m, z29);
        let e11 = p.zext(e, 11);
        let k = p.c(11, 896);
        let en = p.add(e11, k);
        let c255 = p.c(8, 255);
        let isinf = p.eq(e, c255);
        let c0 = p.c(8, 0);
        let issub = p.eq(e, c0);
        let mz = p.c(23, 0);
        let mzero = p.eq(m, mz);
        // NaN: quiet
        let q = p.c(52, 1 << 51);
        let mq = p.or(m52, q);
        let mnan = p.ite(mzero, m52, mq);
        // subnormal
        let mut se = p.c(11, 0);
        let mut sm = p.c(52, 0);
        for pos in 0..23u16 {
            // msb at pos
            let top = p.extract(m, pos, 1);
            let ce = p.c(11, (pos as u128) + 874);
            let cm = if pos == 0 {
                p.c(52, 0)
            } else {
                let low = p.extract(m, 0, pos);
                let z = p.c(52 - pos, 0);
                p.concat(low, z)
            };
            se = p.ite(top, ce, se);
            sm = p.ite(top, cm, sm);
        }
        let c2047 = p.c(11, 2047);
        let e1 = p.ite(issub, se, en);
        let m1 = p.ite(issub, sm, m52);
        let e2 = p.ite(isinf, c2047, e1);
        let m2 = p.ite(isinf, mnan, m1);
        let t = p.concat(e2, m2);
        p.concat(s, t)
    }
    fn fptrunc(&mut self, x: E) -> E {
        let p = &mut self.pool;
        let s = p.extract(x, 63, 1);
        let e = p.extract(x, 52, 11);
        let m = p.extract(x, 0, 52);
        let mz = p.c(52, 0);
        let mzero = p.eq(m, mz);
        // normal
        let q = p.extract(m, 29, 23);
        let r = p.extract(m, 0, 29);
        let half = p.c(29, 1 << 28);
        let gt = p.ult(half, r);
        let tie = p.eq(r, half);
        let odd = p.extract(q, 0, 1);
        let t = p.and(tie, odd);
        let up = p.or(gt, t);
        let k896 = p.c(11, 896);
        let e8w = p.sub(e, k896);
        let e8 = p.extract(e8w, 0, 8);
        let nb = p.concat(e8, q);
        let upz = p.zext(up, 31);
        let nrm = p.add(nb, upz);
        // subnormal
        let one = p.c(1, 1);
        let sig = p.concat(one, m);
        let sig = p.zext(sig, 64);
        let k926 = p.c(11, 926);
        let shv = p.sub(k926, e);
        let shv = p.zext(shv, 64);
        let sq = p.lshr(sig, shv);
        let one64 = p.c(64, 1);
        let pw = p.shl(one64, shv);
        let mk = p.sub(pw, one64);
        let rem = p.and(sig, mk);
        let h = p.lshr(pw, one64);
        let gt = p.ult(h, rem);
        let tie = p.eq(rem, h);
        let odd = p.extract(sq, 0, 1);
        let t = p.and(tie, odd);
        let up = p.or(gt, t);
        let upz = p.zext(up, 64);
        let sr = p.add(sq, upz);
        let sub31 = p.extract(sr, 0, 31);
        let z31 = p.c(31, 0);
        let c872 = p.c(11, 872);
        let tiny = p.ule(e, c872);
        let sub31 = p.ite(tiny, z31, sub31);
        let c897 = p.c(11, 897);
        let issub = p.ult(e, c897);
        let inf = p.c(31, 0x7f800000);
        let c1150 = p.c(11, 1150);
        let big = p.ult(c1150, e);
        let c2047 = p.c(11, 2047);
        let isnan0 = p.eq(e, c2047);
        let nz = p.not(mzero);
        let isnan = p.and(isnan0, nz);
        let qb = p.c(23, 1 << 22);
        let nq = p.or(q, qb);
        let ff = p.c(8, 255);
        let nan = p.concat(ff, nq);
        let v = p.ite(issub, sub31, nrm);
        let v = p.ite(big, inf, v);
        let v = p.ite(isnan, nan, v);
        p.concat(s, v)
    }

    // ---------------------------------------------------------------- solver
    fn new_model(&mut self, base: &Model, delta: &[(u32, u64)]) -> Model {
        let mut v = (*base.vals).clone();
        for &(k, x) in delta {
            if v.len() <= k as usize {
                v.resize(k as usize + 1, 0);
            }
            v[k as usize] = x;
        }
        self.model_id += 1;
        Model { id: self.model_id, vals: Rc::new(v) }
    }
    /// constraints of `pc` transitively sharing variables with `e`
    fn slice(&mut self, pc: &[E], e: E) -> Vec<E> {
        let mut vars: HashSet<u32> = self.pool.varset(e).iter().copied().collect();
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|c| self.pool.varset(*c)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && sets[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(sets[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        out.push(e);
        out
    }
    /// Is PC /\ e satisfiable?  The state's own model is known to satisfy PC.
    fn sat(&mut self, st: &State, e: E) -> R<Option<Model>> {
        if let Some(c) = self.pool.cv(e) {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        if let Some(&b) = st.known.get(&e) {
            return Ok(if b { Some(st.model.clone()) } else { None });
        }
        if self.pool.eval(e, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let e = self.pool.under(e, &st.known, 8);
        if let Some(c) = self.pool.cv(e) {
            return Ok(if c == 1 { Some(st.model.clone()) } else { None });
        }
        let cons = self.slice(&st.pc, e);
        // recently found models (KLEE's counterexample cache)
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].clone();
            if cons.iter().rev().all(|c| self.pool.eval(*c, &m) == 1) {
                self.recent_hits += 1;
                // combine: variables of the slice from m, the rest from st.model
                let mut vs: Vec<u32> = vec![];
                for c in &cons {
                    vs.extend(self.pool.varset(*c).iter());
                }
                let d: Vec<(u32, u64)> = vs.into_iter().map(|v| (v, m.get(v))).collect();
                return Ok(Some(self.new_model(&st.model, &d)));
            }
        }
        if cons.iter().any(|c| self.pool.nonlinear(*c)) {
            if let Some(m) = self.guess(st, e, &cons) {
                return Ok(Some(m));
            }
        }
        match self.smt.check(&mut self.pool, &cons) {
            Res::Sat(d) => {
                let m = self.new_model(&st.model, &d);
                self.recent.push(m.clone());
                if self.recent.len() > 6 {
                    self.recent.remove(0);
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unsup("solver gave no answer within its time limit".into())),
        }
    }
    /// Extreme values, tried before asking the solver about products (a found model is a proof of
    /// satisfiability; not finding one says nothing).
    fn guess(&mut self, st: &State, e: E, cons: &[E]) -> Option<Model> {
        let mut vs: Vec<u32> = self.pool.varset(e).iter().copied().collect();
        if vs.len() > 4 {
            return None;
        }
        let own = vs.len();
        for c in cons {
            for v in self.pool.varset(*c).iter() {
                if !vs.contains(v) {
                    vs.push(*v);
                }
            }
        }
        // variables with a known value keep it
        let mut fixed: Vec<(u32, u64)> = vec![];
        for c in cons {
            let k = self.pool.n(*c);
            if k.op == Op::Eq && self.pool.n(k.a).op == Op::Var {
                if let Some(x) = self.pool.cv(k.b) {
                    fixed.push((self.pool.n(k.a).a, x as u64));
                }
            }
        }
        let own = own - vs.iter().take(own).filter(|v| fixed.iter().any(|f| f.0 == **v)).count();
        vs.retain(|v| !fixed.iter().any(|f| f.0 == *v));
        if vs.len() > 6 {
            vs.truncate(6);
        }
        let n = vs.len();
        // extreme values first, then small ones
        for base in [3usize, 5] {
            let all = base.pow(n as u32);
            if all > 3200 {
                continue;
            }
            for code in 0..all {
                let mut k = code;
                let mut d: Vec<(u32, u64)> = fixed.clone();
                let mut old = base > 3;
                for i in 0..n {
                    let w = self.pool.vars[vs[i] as usize].w;
                    let x = match (k % base, i < own) {
                        (0, true) | (1, false) => mask(w) as u64,
                        (1, true) | (0, false) => st.model.get(vs[i]),
                        (3, _) => 1,
                        (4, _) => 72 & mask(w) as u64,
                        _ => 0,
                    };
                    old &= k % base < 3;
                    d.push((vs[i], x));
                    k /= base;
                }
                if old {
                    continue;
                }
                let m = self.new_model(&st.model, &d);
                if cons.iter().rev().all(|c| self.pool.eval(*c, &m) == 1) {
                    return Some(m);
                }
            }
        }
        None
    }
    fn learn(&mut self, st: &mut State, e: E, val: bool) {
        st.known.insert(e, val);
        if val {
            if let Some(&(p, c)) = self.pool.means.get(&e) {
                st.eqs.insert(p, c);
            }
        }
        let n = self.pool.n(e);
        match n.op {
            Op::Eq if val => {
                if let Some(c) = self.pool.cv(n.b) {
                    if self.pool.w(n.a) <= 64 {
                        st.eqs.insert(n.a, c as u64);
                        let mut x = n.a;
                        // narrow through zero extension
                        loop {
                            let k = self.pool.n(x);
                            if k.op == Op::ZExt {
                                x = k.a;
                                st.eqs.insert(x, c as u64);
                            } else {
                                break;
                            }
                        }
                    }
                }
            }
            Op::And if val && n.w == 1 => {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
            Op::Or if !val && n.w == 1 => {
                self.learn(st, n.a, false);
                self.learn(st, n.b, false);
            }
            Op::Xor if self.pool.cv(n.b) == Some(1) && n.w == 1 => self.learn(st, n.a, !val),
            Op::Var if n.w == 1 => {
                st.eqs.insert(e, val as u64);
            }
            _ => {}
        }
    }
    /// add constraint; caller guarantees st.model satisfies it
    fn assume(&mut self, st: &mut State, e: E) {
        if self.pool.cv(e) == Some(1) {
            return;
        }
        if st.known.get(&e) == Some(&true) {
            return;
        }
        let s = self.pool.under(e, &st.known, 8);
        if let Some(&h) = self.pool.implies.get(&s) {
            // the high half of a product is zero: implied by the product being small
            st.pc.retain(|x| *x != h);
        }
        if let Some(&(a, b)) = self.pool.factors.get(&s) {
            st.split.push(b);
            st.split.push(a);
        }
        if self.pool.cv(s).is_none() {
            st.pc.push(s);
            self.learn(st, s, true);
        }
        if s != e {
            self.learn(st, e, true);
        }
    }
    fn subst(&self, st: &State, v: &Val, w: u32) -> Val {
        if let Val::E(e) = v {
            if let Some(&c) = st.eqs.get(e) {
                return Val::C(c);
            }
            if w <= 64 {
                // zext(x) with known x
                let n = self.pool.n(*e);
                if n.op == Op::ZExt {
                    if let Some(&c) = st.eqs.get(&n.a) {
                        return Val::C(c);
                    }
                }
                if n.op == Op::Add || n.op == Op::Mul {
                    if let (Some(&c), Some(k)) = (st.eqs.get(&n.a), self.pool.cv(n.b)) {
                        let r = if n.op == Op::Add { c.wrapping_add(k as u64) } else { c.wrapping_mul(k as u64) };
                        return Val::C(r & sh(w));
                    }
                }
            }
        }
        v.clone()
    }
    /// concrete value of v on this path, forking when several are feasible
    fn concrete(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        let v = self.subst(st, v, w);
        let e = match v {
            Val::C(c) => return Ok(c),
            Val::E(e) => e,
            Val::Undef => return Err(Stop::Unsup("undef where a concrete value is needed".into())),
            Val::Agg(_) => panic!(),
        };
        let x = self.pool.eval(e, &st.model) as u64;
        let c = self.pool.c(w as u16, x as u128);
        let eq = self.pool.eq(e, c);
        let ne = self.pool.not(eq);
        self.stats.branch_queries += 1;
        match self.sat(st, ne)? {
            None => {
                st.eqs.insert(e, x);
                Ok(x)
            }
            Some(_) => Err(Stop::Fork(eq)),
        }
    }

    // ---------------------------------------------------------------- memory
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.gobj.get(&g) {
            return o.clone();
        }
        let (ty, init, base, size, align, ro) = {
            let gl = &self.m.globals[g as usize];
            (gl.ty, gl.init, gl.addr, gl.size, gl.align, gl.constant)
        };
        let mut data = vec![conc(0); size as usize];
        if let Some((b, _)) = init {
            let v = self.m.const_at(&mut self.pool, ty, b);
            self.put_const(ty, &v, 0, &mut data);
        }
        let o = Rc::new(Obj { base, size, align, kind: Kind::Global, ro, data });
        self.gobj.insert(g, o.clone());
        o
    }
    fn put_const(&mut self, t: T, v: &Val, off: usize, out: &mut [u64]) {
        match v {
            Val::Agg(xs) => {
                for (i, x) in xs.iter().enumerate() {
                    let (o, et) = self.m.field_off(t, i);
                    self.put_const(et, x, off + o as usize, out);
                }
            }
            Val::C(c) => {
                let n = self.m.size(t) as usize;
                for k in 0..n {
                    out[off + k] = conc(if k < 8 { (c >> (8 * k)) as u8 } else { 0 });
                }
            }
            Val::Undef => {
                for k in 0..self.m.size(t) as usize {
                    out[off + k] = 0;
                }
            }
            Val::E(e) => {
                let c = self.pool.cv(*e).unwrap();
                for k in 0..self.m.size(t) as usize {
                    out[off + k] = conc((c >> (8 * k)) as u8);
                }
            }
        }
    }
    fn find_global(&self, a: u64) -> Option<u32> {
        let i = self.gorder.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        Some(self.gorder[i - 1].1)
    }
    /// object whose range is nearest at or below `a` (not necessarily containing it)
    fn near(&mut self, st: &State, a: u64) -> Option<Rc<Obj>> {
        if a >= GLOBAL_BASE && a < 0x8_0000_0000 {
            let g = self.find_global(a)?;
            let gb = self.m.globals[g as usize].addr;
            if let Some(o) = st.objs.get(&gb) {
                return Some(o.clone());
            }
            return Some(self.gobj(g));
        }
        st.objs.range(..=a).next_back().map(|(_, o)| o.clone())
    }
    /// object whose base is nearest above `a`
    fn above(&mut self, st: &State, a: u64) -> Option<Rc<Obj>> {
        if a >= GLOBAL_BASE && a < 0x8_0000_0000 {
            let i = self.gorder.partition_point(|x| x.0 < a);
            let g = self.gorder.get(i)?.1;
            let gb = self.m.globals[g as usize].addr;
            if let Some(o) = st.objs.get(&gb) {
                return Some(o.clone());
            }
            return Some(self.gobj(g));
        }
        st.objs.range(a..).next().map(|(_, o)| o.clone())
    }
    fn containing(&mut self, st: &State, a: u64, len: u64) -> Option<Rc<Obj>> {
        let o = self.near(st, a)?;
        if a >= o.base && a - o.base + len <= o.size {
            Some(o)
        } else {
            None
        }
    }
    fn ptr_const(&self, e: E) -> bool {
        let n = self.pool.n(e);
        match n.op {
            Op::Const => self.pool.cv(e).map(|c| c >= FN_BASE as u128 && c < (1 << 56)).unwrap_or(false),
            Op::Add => self.ptr_const(n.a) || self.ptr_const(n.b),
            Op::Ite => self.ptr_const(n.b) || self.ptr_const(n.c),
            _ => false,
        }
    }
    fn find_ptr_ite(&self, st: &State, e: E) -> Option<E> {
        let n = self.pool.n(e);
        match n.op {
            Op::Add | Op::Sub => self.find_ptr_ite(st, n.a).or_else(|| self.find_ptr_ite(st, n.b)),
            Op::Ite if self.ptr_const(n.b) || self.ptr_const(n.c) => Some(n.a),
            _ => None,
        }
    }
    /// replace pointer-ites decided on this path
    fn resolve_ite(&mut self, st: &State, e: E) -> E {
        let n = self.pool.n(e);
        match n.op {
            Op::Add => {
                let a = self.resolve_ite(st, n.a);
                let b = self.resolve_ite(st, n.b);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.pool.add(a, b)
                }
            }
            Op::Sub => {
                let a = self.resolve_ite(st, n.a);
                let b = self.resolve_ite(st, n.b);
                if a == n.a && b == n.b {
                    e
                } else {
                    self.pool.sub(a, b)
                }
            }
            Op::Ite => match st.known.get(&n.a) {
                Some(true) => self.resolve_ite(st, n.b),
                Some(false) => self.resolve_ite(st, n.c),
                None => e,
            },
            _ => e,
        }
    }
    /// Resolve an access: object base and offset (concrete or symbolic expression).
    fn access(&mut self, st: &mut State, ptr: &Val, len: u64, what: &str) -> R<(Rc<Obj>, Val)> {
        self.stats.mem_checks += 1;
        let ptr = self.subst(st, ptr, 64);
        match ptr {
            Val::C(a) => match self.containing(st, a, len) {
                Some(o) => {
                    let off = a - o.base;
                    Ok((o, Val::C(off)))
                }
                None => {
                    let d = match self.near(st, a) {
                        Some(o) => format!("{} of {} byte(s) at offset {} of a {:?} object of {} bytes", what, len, a as i128 - o.base as i128, o.kind, o.size),
                        None => format!("{} of {} byte(s) at {:#x}", what, len, a),
                    };
                    let m = st.model.clone();
                    self.violate(st, "memory", &format!("out-of-bounds {}", d), &m);
                    Err(Stop::End(EndKind::Violation))
                }
            },
            Val::E(e) => {
                let e = self.resolve_ite(st, e);
                if let Some(c) = self.find_ptr_ite(st, e) {
                    self.stats.branch_queries += 1;
                    let nc = self.pool.not(c);
                    let v = self.pool.eval(c, &st.model);
                    let other = if v == 1 { nc } else { c };
                    if self.sat(st, other)?.is_some() {
                        return Err(Stop::Fork(c));
                    }
                    self.learn(st, c, v == 1);
                    return self.access(st, ptr_val(e), len, what);
                }
                if let Some(c) = self.pool.cv(e) {
                    return self.access(st, &Val::C(c as u64), len, what);
                }
                let a = self.pool.eval(e, &st.model) as u64;
                let n = self.pool.n(e);
                let mut cand: Option<Rc<Obj>> = None;
                if n.op == Op::Add || n.op == Op::Sub {
                    let k = if n.op == Op::Add { self.pool.cv(n.b) } else { self.pool.cv(n.a) };
                    if let Some(c) = k {
                        cand = self.near(st, c as u64);
                        // constants slightly below an object (negative displacement)
                        if let Some(o) = &cand {
                            let c = c as u64;
                            if c - o.base > o.size && self.containing(st, a, len).is_some() {
                                cand = None;
                            } else if c - o.base > o.size {
                                if let Some(up) = self.above(st, c) {
                                    if up.base - c < c - (o.base + o.size) {
                                        cand = Some(up);
                                    }
                                }
                            }
                        }
                    }
                }
                let o = match cand.or_else(|| self.near(st, a)) {
                    Some(o) => o,
                    None => {
                        let m = st.model.clone();
                        self.violate(st, "memory", &format!("wild {} of {} byte(s) at {:#x}", what, len, a), &m);
                        return Err(Stop::End(EndKind::Violation));
                    }
                };
                let b = self.pool.c(64, o.base as u128);
                let off = self.pool.sub(e, b);
                if o.size < len {
                    let m = st.model.clone();
                    self.violate(st, "memory", &format!("out-of-bounds {} of {} byte(s) of an object of {} bytes", what, len, o.size), &m);
                    return Err(Stop::End(EndKind::Violation));
                }
                let lim = self.pool.c(64, (o.size - len) as u128);
                let inb = self.pool.ule(off, lim);
                let oob = self.pool.not(inb);
                self.stats.mem_queries += 1;
                if let Some(m) = self.sat(st, oob)? {
                    let ov = self.pool.eval(off, &m);
                    self.violate(
                        st,
                        "memory",
                        &format!("out-of-bounds {} of {} byte(s) at offset {} of a {:?} object of {} bytes", what, len, ov as i64, o.kind, o.size),
                        &m,
                    );
                    match self.sat(st, inb)? {
                        Some(m) => {
                            st.model = m;
                            self.assume(st, inb);
                        }
                        None => return Err(Stop::End(EndKind::Violation)),
                    }
                }
                let v = self.from_e(off);
                Ok((o, v))
            }
            Val::Undef => {
                let m = st.model.clone();
                self.violate(st, "memory", &format!("{} through an uninitialised pointer", what), &m);
                Err(Stop::End(EndKind::Violation))
            }
            Val::Agg(_) => panic!(),
        }
    }
    fn byte_e(&mut self, b: u64) -> E {
        if b == 0 {
            return self.fresh_undef(8);
        }
        if b & B_CONC != 0 {
            return self.pool.c(8, (b & 0xff) as u128);
        }
        let e = b as u32;
        let k = ((b >> 32) & 0xff) as u16;
        self.pool.extract(e, 8 * k, 8)
    }
    fn e_byte(&mut self, e: E) -> u64 {
        if let Some(c) = self.pool.cv(e) {
            return conc(c as u8);
        }
        B_SYM | e as u64
    }
    /// read `n` bytes at a concrete offset, as an integer of 8n bits
    fn read_at(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        let tail;
        let d = if off + n > o.data.len() {
            // a huge object: all bytes after the first ones are zero
            tail = (off..off + n).map(|i| o.data.get(i).copied().unwrap_or(conc(0))).collect::<Vec<u64>>();
            &tail[..]
        } else {
            &o.data[off..off + n]
        };
        if d.iter().all(|b| b & B_CONC != 0) && n <= 8 {
            let mut v = 0u64;
            for (i, b) in d.iter().enumerate() {
                v |= (b & 0xff) << (8 * i);
            }
            return Val::C(v);
        }
        if d.iter().all(|b| *b == 0) {
            return Val::Undef;
        }
        if d[0] & B_SYM != 0 && !self.pool.plain {
            let e = d[0] as u32;
            if self.pool.w(e) as usize == 8 * n && d.iter().enumerate().all(|(i, b)| *b == B_SYM | ((i as u64) << 32) | e as u64) {
                return Val::E(e);
            }
        }
        let ds: Vec<u64> = d.to_vec();
        let mut acc: Option<E> = None;
        for b in ds.iter() {
            let e = self.byte_e(*b);
            acc = Some(match acc {
                None => e,
                Some(lo) => self.pool.concat(e, lo),
            });
        }
        self.from_e(acc.unwrap())
    }
    fn read_sym(&mut self, st: &mut State, o: &Obj, off: E, n: usize) -> R<Val> {
        let cnt = o.size as usize - n + 1;
        // symbolic offsets: enumerate positions when few, otherwise concretise
        if cnt > 600 {
            let c = self.concrete(st, &Val::E(off), 64)?;
            return Ok(self.read_at(o, c as usize, n));
        }
        // start from the last position (default), chain of ites
        let mut acc: Option<E> = None;
        // offsets that are multiples of a known constant
        let (mulk, addk) = self.stride(off);
        for j in (0..cnt).rev() {
            if mulk > 1 && (j as u64).wrapping_sub(addk) % mulk != 0 {
                continue;
            }
            let v = self.read_at(o, j, n);
            let e = self.to_e(&v, 8 * n as u32);
            acc = Some(match acc {
                None => e,
                Some(a) => {
                    let jc = self.pool.c(64, j as u128);
                    let c = self.pool.eq(off, jc);
                    self.pool.ite(c, e, a)
                }
            });
        }
        match acc {
            Some(a) => Ok(self.from_e(a)),
            None => Err(Stop::Unsup("no feasible position for symbolic read".into())),
        }
    }
    /// off == addk (mod mulk) with mulk a power of two, conservatively
    fn stride(&self, off: E) -> (u64, u64) {
        let n = self.pool.n(off);
        match n.op {
            Op::Add => {
                if let Some(c) = self.pool.cv(n.b) {
                    let (m, a) = self.stride(n.a);
                    if m > 1 {
                        return (m, (a + c as u64) % m);
                    }
                }
                (1, 0)
            }
            Op::Mul => {
                if let Some(c) = self.pool.cv(n.b) {
                    let m = 1u64 << (c as u64).trailing_zeros().min(12);
                    return (m, 0);
                }
                (1, 0)
            }
            Op::Concat => {
                let w = self.pool.w(n.b);
                if self.pool.cv(n.b) == Some(0) && w < 12 {
                    return (1 << w, 0);
                }
                (1, 0)
            }
            Op::ZExt => self.stride_narrow(n.a),
            _ => (1, 0),
        }
    }
    fn stride_narrow(&self, e: E) -> (u64, u64) {
        let n = self.pool.n(e);
        if n.op == Op::Concat {
            let w = self.pool.w(n.b);
            if self.pool.cv(n.b) == Some(0) && w < 12 {
                return (1 << w, 0);
            }
        }
        (1, 0)
    }
    fn load_scalar(&mut self, st: &mut State, bits: u32, ptr: &Val) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        let (o, off) = self.access(st, ptr, n as u64, "read")?;
        let v = match off {
            Val::C(c) => self.read_at(&o, c as usize, n),
            Val::E(e) => self.read_sym(st, &o, e, n)?,
            _ => unreachable!(),
        };
        let v = if self.pool.plain { self.named(st, v, 8 * n as u16) } else { v };
        Ok(self.trunc_val(v, 8 * n as u32, bits))
    }
    /// In plain mode every multi-byte value read from memory is a new variable, defined by the bytes it
    /// is made of: that two values are the same is then for the solver to find out.
    fn named(&mut self, st: &mut State, v: Val, w: u16) -> Val {
        let e = match v {
            Val::E(e) if w >= 16 && w <= 64 && !self.pool.has_undef(e) => e,
            v => return v,
        };
        if self.pool.sig(e) < 8 {
            return v;
        }
        let val = self.pool.eval(e, &st.model) as u64;
        let n = format!("ld{}", self.pool.vars.len());
        let x = self.pool.var(w, n, false);
        let id = self.pool.n(x).a;
        st.model = self.new_model(&st.model, &[(id, val)]);
        let d = self.pool.bin_raw(Op::Eq, 1, x, e);
        st.pc.push(d);
        Val::E(x)
    }
    fn trunc_val(&mut self, v: Val, from: u32, to: u32) -> Val {
        if from == to {
            return v;
        }
        match v {
            Val::C(c) => Val::C(c & sh(to)),
            Val::Undef => Val::Undef,
            Val::E(e) => {
                let x = self.pool.extract(e, 0, to as u16);
                self.from_e(x)
            }
            Val::Agg(_) => panic!(),
        }
    }
    fn load(&mut self, st: &mut State, t: T, ptr: &Val) -> R<Val> {
        if self.m.is_agg(t) {
            if let Ty::Vector(n, e) = self.m.t(t).clone() {
                let b = self.m.bits(e);
                if b < 8 {
                    // <n x i1> in memory
                    let v = self.load_scalar(st, (n * b as u64) as u32, ptr)?;
                    let e = self.to_e(&v, (n * b as u64) as u32);
                    let mut out = vec![];
                    for i in 0..n as u16 {
                        let x = self.pool.extract(e, i * b as u16, b as u16);
                        out.push(self.from_e(x));
                    }
                    return Ok(Val::Agg(Rc::new(out)));
                }
            }
            let n = self.m.nelems(t);
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let (o, et) = self.m.field_off(t, i);
                let p = self.bin(Bin::Add, 64, ptr, &Val::C(o))?;
                v.push(self.load(st, et, &p)?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let b = self.m.bits(t);
        let v = self.load_scalar(st, b, ptr)?;
        if b == 64 && matches!(self.m.t(t), Ty::Ptr) {
            if let Val::E(e) = v {
                // a pointer picked by a symbolic index: decide which one now
                if self.pool.n(e).op == Op::Ite && self.ptr_const(e) {
                    let r = self.resolve_ite(st, e);
                    return Ok(self.from_e(r));
                }
            }
        }
        Ok(v)
    }
    fn writable(&mut self, st: &mut State, o: &Rc<Obj>) -> R<()> {
        if o.ro {
            let m = st.model.clone();
            self.violate(st, "memory", "write to read-only memory", &m);
            return Err(Stop::End(EndKind::Violation));
        }
        if !st.objs.contains_key(&o.base) {
            st.objs.insert(o.base, o.clone());
        }
        Ok(())
    }
    fn val_bytes(&mut self, v: &Val, bits: u32) -> Vec<u64> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            Val::C(c) => (0..n).map(|k| conc(if k < 8 { (c >> (8 * k)) as u8 } else { 0 })).collect(),
            Val::Undef => vec![0; n],
            Val::E(e) => {
                let e = if bits as usize == 8 * n { *e } else { self.pool.zext(*e, 8 * n as u16) };
                if let Some(c) = self.pool.cv(e) {
                    return (0..n).map(|k| conc((c >> (8 * k)) as u8)).collect();
                }
                let node = self.pool.n(e);
                if node.op == Op::Concat || node.op == Op::ZExt || node.op == Op::Extract {
                    // keep bytes simple so that re-reading parts stays simple
                    let mut out = Vec::with_capacity(n);
                    let mut simple = true;
                    for k in 0..n {
                        let x = self.pool.extract(e, 8 * k as u16, 8);
                        if self.pool.cv(x).is_none() && self.pool.n(x).op == Op::Extract && self.pool.n(x).a == e {
                            simple = false;
                            break;
                        }
                        let xn = self.pool.n(x);
                        if let Some(c) = self.pool.cv(x) {
                            out.push(conc(c as u8));
                        } else if xn.op == Op::Extract && xn.b % 8 == 0 && self.pool.w(xn.a) % 8 == 0 {
                            out.push(B_SYM | ((xn.b as u64 / 8) << 32) | xn.a as u64);
                        } else {
                            out.push(B_SYM | x as u64);
                        }
                    }
                    if simple {
                        return out;
                    }
                }
                (0..n).map(|k| B_SYM | ((k as u64) << 32) | e as u64).collect()
            }
            Val::Agg(_) => panic!(),
        }
    }
    fn write_bytes(&mut self, st: &mut State, ptr: &Val, bytes: &[u64]) -> R<()> {
        if bytes.is_empty() {
            return Ok(());
        }
        let (o, off) = self.access(st, ptr, bytes.len() as u64, "write")?;
        self.writable(st, &o)?;
        if o.size > ALLOC_LIMIT {
            let c = self.concrete(st, &off, 64)? as usize;
            let base = o.base;
            drop(o);
            let ob = Rc::make_mut(st.objs.get_mut(&base).unwrap());
            for (i, b) in bytes.iter().enumerate() {
                match ob.data.get_mut(c + i) {
                    Some(x) => *x = *b,
                    None if *b == conc(0) => {}
                    None => return Err(Stop::Unsup("write of something other than zero to a huge object".into())),
                }
            }
            return Ok(());
        }
        let base = o.base;
        drop(o);
        match off {
            Val::C(c) => {
                let ob = Rc::make_mut(st.objs.get_mut(&base).unwrap());
                ob.data[c as usize..c as usize + bytes.len()].copy_from_slice(bytes);
            }
            Val::E(e) => {
                let size = st.objs[&base].size as usize;
                let cnt = size - bytes.len() + 1;
                if cnt > 300 {
                    let c = self.concrete(st, &Val::E(e), 64)?;
                    let ob = Rc::make_mut(st.objs.get_mut(&base).unwrap());
                    ob.data[c as usize..c as usize + bytes.len()].copy_from_slice(bytes);
                    return Ok(());
                }
                let mut nd = st.objs[&base].data.clone();
                let src: Vec<E> = bytes.iter().map(|b| self.byte_e(*b)).collect();
                for i in 0..size {
                    // byte i is overwritten by bytes[k] when off == i-k
                    let old = nd[i];
                    let mut acc: Option<E> = None;
                    for k in 0..src.len() {
                        if i < k || i - k >= cnt {
                            continue;
                        }
                        let jc = self.pool.c(64, (i - k) as u128);
                        let c = self.pool.eq(e, jc);
                        if self.pool.cv(c) == Some(0) {
                            continue;
                        }
                        let a = match acc {
                            Some(a) => a,
                            None => self.byte_e(old),
                        };
                        acc = Some(self.pool.ite(c, src[k], a));
                    }
                    if let Some(a) = acc {
                        nd[i] = self.e_byte(a);
                    }
                }
                let ob = Rc::make_mut(st.objs.get_mut(&base).unwrap());
                ob.data = nd;
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, t: T, v: &Val, ptr: &Val) -> R<()> {
        if self.m.is_agg(t) {
            if matches!(v, Val::Undef) {
                let n = self.m.size(t) as usize;
                return self.write_bytes(st, ptr, &vec![0; n]);
            }
            let xs = match v {
                Val::Agg(x) => x.clone(),
                _ => panic!("aggregate store"),
            };
            if let Ty::Vector(n, e) = self.m.t(t).clone() {
                let b = self.m.bits(e);
                if b < 8 {
                    let mut acc: Option<E> = None;
                    for x in xs.iter() {
                        let xe = self.to_e(x, b);
                        acc = Some(match acc {
                            None => xe,
                            Some(a) => self.pool.concat(xe, a),
                        });
                    }
                    let v = self.from_e(acc.unwrap());
                    let bytes = self.val_bytes(&v, (n * b as u64) as u32);
                    return self.write_bytes(st, ptr, &bytes);
                }
            }
            for (i, x) in xs.iter().enumerate() {
                let (o, et) = self.m.field_off(t, i);
                let p = self.bin(Bin::Add, 64, ptr, &Val::C(o))?;
                self.store(st, et, x, &p)?;
            }
            return Ok(());
        }
        let bits = self.m.bits(t);
        let bytes = self.val_bytes(v, bits);
        self.write_bytes(st, ptr, &bytes)
    }
    fn read_bytes(&mut self, st: &mut State, ptr: &Val, len: u64) -> R<Vec<u64>> {
        if len == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.access(st, ptr, len, "read")?;
        if o.size > ALLOC_LIMIT {
            let c = self.concrete(st, &off, 64)?;
            return Ok((c..c + len).map(|i| o.data.get(i as usize).copied().unwrap_or(conc(0))).collect());
        }
        match off {
            Val::C(c) => Ok(o.data[c as usize..(c + len) as usize].to_vec()),
            Val::E(e) => {
                let cnt = (o.size - len + 1) as usize;
                if cnt > 600 {
                    let c = self.concrete(st, &Val::E(e), 64)?;
                    return Ok(o.data[c as usize..(c + len) as usize].to_vec());
                }
                let (mk, ak) = self.stride(e);
                let mut out = vec![];
                for k in 0..len as usize {
                    let mut acc: Option<E> = None;
                    for j in (0..cnt).rev() {
                        if mk > 1 && (j as u64).wrapping_sub(ak) % mk != 0 {
                            continue;
                        }
                        let b = self.byte_e(o.data[j + k]);
                        acc = Some(match acc {
                            None => b,
                            Some(a) => {
                                let jc = self.pool.c(64, j as u128);
                                let c = self.pool.eq(e, jc);
                                self.pool.ite(c, b, a)
                            }
                        });
                    }
                    let a = acc.ok_or_else(|| Stop::Unsup("no position".into()))?;
                    out.push(self.e_byte(a));
                }
                Ok(out)
            }
            _ => unreachable!(),
        }
    }
    fn new_obj(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: u64) -> u64 {
        let (ctr, gap) = match kind {
            Kind::Heap => (&mut st.next_heap, 1u64 << 20),
            _ => (&mut st.next_stack, 1u64 << 16),
        };
        let a = align.max(1);
        // exactly a-aligned, never 2a-aligned
        let base = (*ctr + gap + 2 * a - 1) / (2 * a) * (2 * a) + a;
        *ctr = base + size;
        let data = if size > ALLOC_LIMIT { vec![conc(0); HUGE_PREFIX] } else { vec![fill; size as usize] };
        st.objs.insert(base, Rc::new(Obj { base, size, align: a, kind, ro: false, data }));
        base
    }

    // ---------------------------------------------------------------- reporting
    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for f in st.frames.iter().rev().take(14) {
            let b = &f.body.blocks[f.block as usize];
            let dbg = b.insts.get(f.ip as usize).map(|i| i.dbg).unwrap_or(NONE);
            let l = if dbg == NONE { vec![] } else { self.m.loc(dbg) };
            out.push(format!("{} [{}]", self.m.funcs[f.f as usize].name, l.join(" <- ")));
        }
        out
    }
    fn tape(&mut self, st: &State, m: &Model) -> Vec<(u16, u64)> {
        let t = st.tape.clone();
        t.iter().map(|e| (self.pool.w(*e), self.pool.eval(*e, m) as u64)).collect()
    }
    fn events(&mut self, st: &State, m: &Model) -> Vec<String> {
        let evs = st.evs.clone();
        evs.iter()
            .map(|e| match e {
                Ev::Emit(x) => {
                    if self.pool.has_undef(*x) {
                        "e?".to_string()
                    } else {
                        format!("e{:x}", self.pool.eval(*x, m))
                    }
                }
                Ev::Check(s) => format!("c{}", s),
                Ev::Cover(s) => format!("v{}", s),
            })
            .collect()
    }
    fn violate(&mut self, st: &State, kind: &str, msg: &str, m: &Model) {
        let trace = self.trace(st);
        // one per kind, message skeleton and source position (first frame inside the code under test)
        let skel: String = msg.chars().filter(|c| !c.is_ascii_digit()).collect();
        let here = trace.iter().find(|t| t.contains("/rpcl2/") || t.contains("/src/lib.rs")).cloned().unwrap_or_default();
        let key = format!("{}|{}|{}", kind, skel, here);
        if !self.vseen.insert(key) {
            return;
        }
        let tape = self.tape(st, m);
        let events = self.events(st, m);
        if self.verbose {
            eprintln!("VIOLATION {} {} {:#?}", kind, msg, trace);
        }
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), trace, tape, events });
    }

    // ---------------------------------------------------------------- calls
    fn special(&mut self, f: u32) -> Sp {
        if let Some(s) = self.special.get(&f) {
            return *s;
        }
        let n = self.m.funcs[f as usize].name.clone();
        let has = |x: &str| n.contains(x);
        let s = if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
            Sp::Alloc
        } else if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
            Sp::AllocZeroed
        } else if n.ends_with("___rust_realloc") || n == "__rust_realloc" {
            Sp::Realloc
        } else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" {
            Sp::Dealloc
        } else if has("__rust_no_alloc_shim_is_unstable") {
            Sp::Nop
        } else if has("4core9panicking") {
            if has("panic_nounwind") || has("panic_misaligned") || has("panic_null_pointer") || has("panic_cannot_unwind") || has("panic_in_cleanup") || has("panic_invalid_enum") {
                Sp::PanicNoUnwind
            } else {
                Sp::Panic
            }
        } else if has("18handle_alloc_error") || (has("7process5abort") && has("3std")) || n == "abort" || has("10rust_begin_unwind") || n == "rust_begin_unwind" {
            Sp::Abort
        } else if has("9panicking11begin_panic") || has("9panicking10rust_panic") || has("9panicking14begin_panic") || has("9panicking20rust_panic_with_hook") {
            Sp::Panic
        } else {
            match n.as_str() {
                "memcmp" => Sp::MemCmp,
                "bcmp" => Sp::BCmp,
                "memcpy" => Sp::MemCpy,
                "memmove" => Sp::MemMove,
                "memset" => Sp::MemSet,
                "strlen" => Sp::StrLen,
                "nd_int" => Sp::Nd(0),
                "nd_fill" => Sp::Nd(1),
                "nd_assume_" => Sp::Nd(2),
                "nd_check_" => Sp::Nd(3),
                "nd_emit_" => Sp::Nd(4),
                "nd_cover_" => Sp::Nd(5),
                "nd_allow_panic_" => Sp::Nd(6),
                "nd_choose_" => Sp::Nd(7),
                "getrandom" => Sp::Random,
                "nd_concrete_" => Sp::Nd(8),
                "nd_expect_oom_" => Sp::Nd(9),
                "nd_is_symbolic_" => Sp::Nd(10),
                "nd_huge_" => Sp::Nd(11),
                "_Unwind_DeleteException" => Sp::Ret0,
                _ => Sp::None,
            }
        };
        self.special.insert(f, s);
        s
    }
    fn str_arg(&mut self, st: &mut State, p: &Val, l: &Val) -> R<Rc<str>> {
        let len = self.concrete(st, l, 64)?;
        let b = self.read_bytes(st, p, len)?;
        let v: Vec<u8> = b.iter().map(|x| *x as u8).collect();
        Ok(String::from_utf8_lossy(&v).into_owned().into())
    }
    fn finish_panic(&mut self, st: &mut State, kind: &str, f: u32) -> Stop {
        let n = self.m.funcs[f as usize].name.clone();
        let m = st.model.clone();
        if kind == "panic" && st.allow_panic {
            return Stop::End(EndKind::Panic);
        }
        self.violate(st, kind, &format!("{} ({})", kind, short(&n)), &m);
        Stop::End(EndKind::Violation)
    }
    /// Size of an allocation.  Sizes above the limit are kept apart and explored first: the modelled
    /// allocator fails there (as the replay's allocator does).
    fn alloc_size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        let v = self.subst(st, v, 64);
        if st.huge {
            return self.concrete(st, &v, 64);
        }
        if let Val::E(e) = v {
            let k = self.pool.c(64, ALLOC_LIMIT as u128);
            let big = self.pool.ult(k, e);
            self.stats.branch_queries += 1;
            match self.sat(st, big)? {
                None => {}
                Some(m) => {
                    let small = self.pool.not(big);
                    self.stats.branch_queries += 1;
                    match self.sat(st, small)? {
                        None => return Ok(ALLOC_LIMIT + 1),
                        Some(_) => {
                            st.model = m;
                            return Err(Stop::Fork(big));
                        }
                    }
                }
            }
        }
        self.concrete(st, &v, 64)
    }
    fn native(&mut self, st: &mut State, sp: Sp, f: u32, args: &[Val]) -> R<Val> {
        match sp {
            Sp::Nop => Ok(Val::Undef),
            Sp::Ret0 => Ok(Val::C(0)),
            Sp::Panic => Err(self.finish_panic(st, "panic", f)),
            Sp::PanicNoUnwind => Err(self.finish_panic(st, "unsafe-precondition", f)),
            Sp::Abort => Err(self.finish_panic(st, "abort", f)),
            Sp::Alloc | Sp::AllocZeroed => {
                let size = self.alloc_size(st, &args[0])?;
                let align = self.concrete(st, &args[1], 64)?;
                if size > ALLOC_LIMIT && !(st.huge && size <= HUGE_LIMIT) {
                    return Ok(Val::C(0));
                }
                let fill = if sp == Sp::Alloc { 0 } else { conc(0) };
                Ok(Val::C(self.new_obj(st, size, align, Kind::Heap, fill)))
            }
            Sp::Dealloc => {
                let a = self.concrete(st, &args[0], 64)?;
                let size = self.concrete(st, &args[1], 64)?;
                let align = self.concrete(st, &args[2], 64)?;
                let bad = match st.objs.get(&a) {
                    Some(o) if o.kind == Kind::Heap => {
                        if o.size != size || o.align != align.max(1) {
                            Some(format!("deallocation with size {} align {} of an allocation with size {} align {}", size, align, o.size, o.align))
                        } else {
                            None
                        }
                    }
                    _ => Some("deallocation of memory that is not allocated (double free?)".to_string()),
                };
                if let Some(b) = bad {
                    let m = st.model.clone();
                    self.violate(st, "memory", &b, &m);
                    return Err(Stop::End(EndKind::Violation));
                }
                st.objs.remove(&a);
                Ok(Val::Undef)
            }
            Sp::Realloc => {
                let a = self.concrete(st, &args[0], 64)?;
                let size = self.concrete(st, &args[1], 64)?;
                let align = self.concrete(st, &args[2], 64)?;
                let ns = self.alloc_size(st, &args[3])?;
                if ns > ALLOC_LIMIT && !(st.huge && ns <= HUGE_LIMIT) {
                    return Ok(Val::C(0));
                }
                let o = match st.objs.get(&a) {
                    Some(o) if o.kind == Kind::Heap && o.size == size && o.align == align.max(1) => o.clone(),
                    _ => {
                        let m = st.model.clone();
                        self.violate(st, "memory", "reallocation with a wrong pointer or layout", &m);
                        return Err(Stop::End(EndKind::Violation));
                    }
                };
                let n = self.new_obj(st, ns, align, Kind::Heap, 0);
                let k = size.min(ns) as usize;
                if ns > ALLOC_LIMIT || size > ALLOC_LIMIT {
                    if ns <= ALLOC_LIMIT || o.data.iter().any(|b| *b != 0 && *b != conc(0)) {
                        return Err(Stop::Unsup("reallocation of a huge object".into()));
                    }
                    st.objs.remove(&a);
                    return Ok(Val::C(n));
                }
                let nb = Rc::make_mut(st.objs.get_mut(&n).unwrap());
                nb.data[..k].copy_from_slice(&o.data[..k]);
                st.objs.remove(&a);
                Ok(Val::C(n))
            }
            Sp::MemCpy | Sp::MemMove => {
                let len = self.concrete(st, &args[2], 64)?;
                self.copy(st, &args[0], &args[1], len)?;
                Ok(args[0].clone())
            }
            Sp::MemSet => {
                let len = self.concrete(st, &args[2], 64)?;
                let b = self.trunc_val(args[1].clone(), 32, 8);
                self.set(st, &args[0], &b, len)?;
                Ok(args[0].clone())
            }
            Sp::MemCmp | Sp::BCmp => {
                let len = self.concrete(st, &args[2], 64)?;
                let a = self.read_bytes(st, &args[0], len)?;
                let b = self.read_bytes(st, &args[1], len)?;
                let mut acc = self.pool.c(32, 0);
                let one = self.pool.c(32, 1);
                let m1 = self.pool.c(32, u32::MAX as u128);
                for i in (0..len as usize).rev() {
                    if a[i] == b[i] && a[i] != 0 {
                        continue;
                    }
                    let x = self.byte_e(a[i]);
                    let y = self.byte_e(b[i]);
                    let eq = self.pool.eq(x, y);
                    if sp == Sp::BCmp {
                        acc = self.pool.ite(eq, acc, one);
                    } else {
                        let lt = self.pool.ult(x, y);
                        let d = self.pool.ite(lt, m1, one);
                        acc = self.pool.ite(eq, acc, d);
                    }
                }
                Ok(self.from_e(acc))
            }
            Sp::StrLen => {
                let a = self.concrete(st, &args[0], 64)?;
                let mut n = 0;
                loop {
                    let v = self.load_scalar(st, 8, &Val::C(a + n))?;
                    match v {
                        Val::C(0) => return Ok(Val::C(n)),
                        Val::C(_) => n += 1,
                        _ => return Err(Stop::Unsup("symbolic strlen".into())),
                    }
                }
            }
            Sp::Nd(k) => self.nd(st, k, args),
            Sp::Random => {
                // keys of hash maps: two different ones stand for all
                let len = self.concrete(st, &args[1], 64)?;
                let k = self.nd(st, 7, &[Val::C(2)])?;
                let k = self.concrete(st, &k, 64)?;
                let bytes: Vec<u64> = (0..len).map(|i| conc((i * 37 + 11 + k * 91) as u8)).collect();
                self.write_bytes(st, &args[0], &bytes)?;
                Ok(Val::C(len))
            }
            Sp::TooBig | Sp::None => unreachable!(),
        }
    }
    fn copy(&mut self, st: &mut State, dst: &Val, src: &Val, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        if len > ALLOC_LIMIT {
            let (a, _) = self.access(st, src, len, "read")?;
            let (b, _) = self.access(st, dst, len, "write")?;
            if a.data.iter().any(|x| *x != conc(0)) {
                // the zero bytes after an Arc header
                let s = self.concrete(st, src, 64)?;
                if s < a.base + HUGE_PREFIX as u64 && a.data[(s - a.base) as usize..].iter().any(|x| *x != conc(0)) {
                    return Err(Stop::Unsup("copy of a huge object that is not zero".into()));
                }
            }
            return self.writable(st, &b);
        }
        let d = self.read_bytes(st, src, len)?;
        self.write_bytes(st, dst, &d)
    }
    fn set(&mut self, st: &mut State, dst: &Val, b: &Val, len: u64) -> R<()> {
        if len == 0 {
            return Ok(());
        }
        let byte = match b {
            Val::C(c) => conc(*c as u8),
            Val::Undef => 0,
            Val::E(e) => self.e_byte(*e),
            _ => panic!(),
        };
        if len > ALLOC_LIMIT {
            let (b, _) = self.access(st, dst, len, "write")?;
            self.writable(st, &b)?;
            if byte != conc(0) {
                return Err(Stop::Unsup("write of something other than zero to a huge object".into()));
            }
            return Ok(());
        }
        self.write_bytes(st, dst, &vec![byte; len as usize])
    }
    fn nd(&mut self, st: &mut State, k: u8, a: &[Val]) -> R<Val> {
        match k {
            0 => {
                let w = self.concrete(st, &a[0], 32)? as u16;
                let n = format!("in{}", st.tape.len());
                let e = self.pool.var(w, n, false);
                st.tape.push(e);
                let z = self.pool.zext(e, 64);
                Ok(self.from_e(z))
            }
            1 => {
                let len = self.concrete(st, &a[1], 64)?;
                let mut bytes = vec![];
                for _ in 0..len {
                    let n = format!("in{}", st.tape.len());
                    let e = self.pool.var(8, n, false);
                    st.tape.push(e);
                    bytes.push(B_SYM | e as u64);
                }
                self.write_bytes(st, &a[0], &bytes)?;
                Ok(Val::Undef)
            }
            2 => {
                let c = self.to_e(&a[0], 1);
                match self.sat(st, c)? {
                    Some(m) => {
                        st.model = m;
                        self.assume(st, c);
                        Ok(Val::Undef)
                    }
                    None => Err(Stop::End(EndKind::Assume)),
                }
            }
            3 => {
                let msg = self.str_arg(st, &a[1], &a[2])?;
                let ent = self.checks.entry(msg.to_string()).or_insert((0, 0));
                ent.0 += 1;
                st.evs.push(Ev::Check(msg.clone()));
                let c0 = self.subst(st, &a[0], 1);
                let c = self.to_e(&c0, 1);
                if self.pool.cv(c) == Some(1) {
                    self.stats.checks_trivial += 1;
                    return Ok(Val::Undef);
                }
                self.stats.check_queries += 1;
                let nc = self.pool.not(c);
                match self.sat(st, nc)? {
                    None => {
                        if let Some(x) = self.checks.get_mut(&*msg) {
                            x.1 += 1;
                        }
                        Ok(Val::Undef)
                    }
                    Some(m) => {
                        self.violate(st, "check", &msg, &m);
                        match self.sat(st, c)? {
                            Some(m) => {
                                st.model = m;
                                self.assume(st, c);
                                Ok(Val::Undef)
                            }
                            None => Err(Stop::End(EndKind::Violation)),
                        }
                    }
                }
            }
            4 => {
                let e = self.to_e(&a[0], 64);
                st.evs.push(Ev::Emit(e));
                Ok(Val::Undef)
            }
            5 => {
                let msg = self.str_arg(st, &a[0], &a[1])?;
                *self.covers.entry(msg.to_string()).or_insert(0) += 1;
                st.evs.push(Ev::Cover(msg));
                Ok(Val::Undef)
            }
            6 => {
                let c = self.concrete(st, &a[0], 1)?;
                st.allow_panic = c != 0;
                Ok(Val::Undef)
            }
            7 => {
                // choose in [0,n): one successor per value, no solver needed
                let n = self.concrete(st, &a[0], 64)?;
                if n == 0 {
                    return Err(Stop::Unsup("nd_choose(0)".into()));
                }
                match st.pending.take() {
                    None => Err(Stop::Choose(n)),
                    Some(v) => {
                        let e = self.pool.c(16, v as u128);
                        st.tape.push(e);
                        Ok(Val::C(v))
                    }
                }
            }
            8 => {
                let v = self.concrete(st, &a[0], 64)?;
                Ok(Val::C(v))
            }
            10 => Ok(Val::C(1)),
            11 => {
                let size = self.concrete(st, &a[0], 64)?;
                let align = self.concrete(st, &a[1], 64)?;
                if size <= ALLOC_LIMIT || size > HUGE_LIMIT {
                    return Err(Stop::Unsup("size of a huge object".into()));
                }
                st.huge = self.concrete(st, &a[2], 1)? != 0;
                Ok(Val::C(self.new_obj(st, size, align, Kind::Heap, 0)))
            }
            _ => Ok(Val::Undef),
        }
    }

    fn vec_map2(&mut self, t: T, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, T, &Val, &Val) -> R<Val>) -> R<Val> {
        let n = self.m.nelems(t);
        let et = self.m.elem(t, 0);
        let g = |v: &Val, i: usize| match v {
            Val::Agg(x) => x[i].clone(),
            _ => Val::Undef,
        };
        let mut out = vec![];
        for i in 0..n {
            out.push(f(self, et, &g(a, i), &g(b, i))?);
        }
        Ok(Val::Agg(Rc::new(out)))
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, args: &[(T, Val)], rt: T) -> R<Val> {
        let n = &name[5..];
        let pre = |x: &str| n.starts_with(x);
        if pre("memcpy.") || pre("memmove.") {
            let len = self.concrete(st, &args[2].1, 64)?;
            self.copy(st, &args[0].1, &args[1].1, len)?;
            return Ok(Val::Undef);
        }
        if pre("memset.") {
            let len = self.concrete(st, &args[2].1, 64)?;
            self.set(st, &args[0].1, &args[1].1, len)?;
            return Ok(Val::Undef);
        }
        if pre("lifetime.") || pre("experimental.noalias") || pre("dbg.") || pre("donothing") || pre("sideeffect") || pre("x86.sse2.pause") || pre("prefetch") {
            return Ok(Val::Undef);
        }
        if pre("assume") {
            return Ok(Val::Undef);
        }
        if pre("expect.") {
            return Ok(args[0].1.clone());
        }
        if pre("trap") || pre("ubsantrap") {
            let m = st.model.clone();
            self.violate(st, "abort", "trap", &m);
            return Err(Stop::End(EndKind::Violation));
        }
        if pre("is.constant") {
            return Ok(Val::C(0));
        }
        if pre("threadlocal.address") || pre("launder.") || pre("ptr.annotation") {
            return Ok(args[0].1.clone());
        }
        if pre("ptrmask") {
            return self.bin(Bin::And, 64, &args[0].1, &args[1].1);
        }
        if n == "returnaddress" || n == "frameaddress" {
            return Ok(Val::C(0));
        }
        // vectors: elementwise
        if !args.is_empty() && self.m.is_agg(args[0].0) {
            if pre("vector.reduce.") {
                let op = n["vector.reduce.".len()..].split('.').next().unwrap();
                let et = self.m.elem(args[0].0, 0);
                let w = self.m.bits(et);
                let xs = match &args[0].1 {
                    Val::Agg(x) => x.clone(),
                    _ => return Ok(Val::Undef),
                };
                let mut acc = xs[0].clone();
                for x in xs.iter().skip(1) {
                    acc = match op {
                        "add" => self.bin(Bin::Add, w, &acc, x)?,
                        "or" => self.bin(Bin::Or, w, &acc, x)?,
                        "and" => self.bin(Bin::And, w, &acc, x)?,
                        "xor" => self.bin(Bin::Xor, w, &acc, x)?,
                        "mul" => self.bin(Bin::Mul, w, &acc, x)?,
                        "umax" | "umin" | "smax" | "smin" => self.minmax(op, w, &acc, x),
                        _ => return Err(Stop::Unsup(format!("intrinsic {}", name))),
                    };
                }
                return Ok(acc);
            }
            if pre("umax") || pre("umin") || pre("smax") || pre("smin") {
                let op: String = n[..4].into();
                let t = args[0].0;
                return self.vec_map2(t, &args[0].1, &args[1].1, &mut |s, et, a, b| {
                    let w = s.m.bits(et);
                    Ok(s.minmax(&op, w, a, b))
                });
            }
            return Err(Stop::Unsup(format!("vector intrinsic {}", name)));
        }
        let w = if args.is_empty() { 0 } else { self.m.bits(args[0].0) };
        let wq = w as u16;
        if n.contains(".with.overflow.") {
            let x = self.to_e(&args[0].1, w);
            let y = self.to_e(&args[1].1, w);
            let p = &mut self.pool;
            let (r, o) = if pre("uadd") {
                let r = p.add(x, y);
                let (sx, sy) = (p.sig(x), p.sig(y));
                let o = if sx < wq && sy < wq { p.c(1, 0) } else { p.ult(r, x) };
                (r, o)
            } else if pre("usub") {
                let r = p.sub(x, y);
                (r, p.ult(x, y))
            } else if pre("umul") {
                let (sx, sy) = (p.sig(x), p.sig(y));
                let mut r = p.mul(x, y);
                let o = if sx + sy <= wq {
                    p.c(1, 0)
                } else if p.cv(y).is_some() || p.cv(x).is_some() {
                    let (x, y) = if p.cv(x).is_some() { (y, x) } else { (x, y) };
                    let c = p.cv(y).unwrap();
                    if c == 0 {
                        p.c(1, 0)
                    } else {
                        let k = p.c(wq, mask(wq) / c);
                        p.ult(k, x)
                    }
                } else {
                    let ww = sx + sy;
                    if ww > 128 {
                        let m = p.c(wq, mask(wq));
                        let z = p.c(wq, 0);
                        let q = p.udiv(m, y);
                        let g = p.ult(q, x);
                        let nz = p.ne(y, z);
                        let o = p.and(nz, g);
                        let v = vec![self.from_e(r), self.from_e(o)];
                        return Ok(Val::Agg(Rc::new(v)));
                    }
                    let xl = p.extract(x, 0, sx);
                    let yl = p.extract(y, 0, sy);
                    let xx = p.zext(xl, ww);
                    let yy = p.zext(yl, ww);
                    let m = p.mul(xx, yy);
                    r = p.extract(m, 0, wq);
                    let h = p.extract(m, wq, ww - wq);
                    let z = p.c(ww - wq, 0);
                    p.ne(h, z)
                };
                (r, o)
            } else {
                let ww = if pre("smul") { 2 * wq } else { wq + 1 };
                let xx = p.sext_e(x, ww);
                let yy = p.sext_e(y, ww);
                let m = if pre("sadd") {
                    p.add(xx, yy)
                } else if pre("ssub") {
                    p.sub(xx, yy)
                } else {
                    p.mul(xx, yy)
                };
                let r = p.extract(m, 0, wq);
                let back = p.sext_e(r, ww);
                let o = p.ne(back, m);
                (r, o)
            };
            let v = vec![self.from_e(r), self.from_e(o)];
            return Ok(Val::Agg(Rc::new(v)));
        }
        if pre("uadd.sat") || pre("usub.sat") {
            let x = self.to_e(&args[0].1, w);
            let y = self.to_e(&args[1].1, w);
            let p = &mut self.pool;
            let r = if pre("uadd") {
                let s = p.add(x, y);
                let o = p.ult(s, x);
                let m = p.c(wq, mask(wq));
                p.ite(o, m, s)
            } else {
                let s = p.sub(x, y);
                let o = p.ult(x, y);
                let z = p.c(wq, 0);
                p.ite(o, z, s)
            };
            return Ok(self.from_e(r));
        }
        if pre("umax") || pre("umin") || pre("smax") || pre("smin") {
            let op: String = n[..4].into();
            return Ok(self.minmax(&op, w, &args[0].1, &args[1].1));
        }
        if pre("ucmp") || pre("scmp") {
            let x = self.to_e(&args[0].1, w);
            let y = self.to_e(&args[1].1, w);
            let rw = self.m.bits(rt) as u16;
            let p = &mut self.pool;
            let lt = if pre("ucmp") { p.ult(x, y) } else { p.slt(x, y) };
            let eq = p.eq(x, y);
            let m1 = p.c(rw, u128::MAX);
            let z = p.c(rw, 0);
            let o = p.c(rw, 1);
            let t = p.ite(eq, z, o);
            let r = p.ite(lt, m1, t);
            return Ok(self.from_e(r));
        }
        if pre("bswap") {
            let x = self.to_e(&args[0].1, w);
            let mut acc: Option<E> = None;
            for k in 0..wq / 8 {
                let b = self.pool.extract(x, 8 * k, 8);
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.pool.concat(a, b),
                });
            }
            return Ok(self.from_e(acc.unwrap()));
        }
        if pre("bitreverse") {
            let x = self.to_e(&args[0].1, w);
            let mut acc: Option<E> = None;
            for k in 0..wq {
                let b = self.pool.extract(x, k, 1);
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.pool.concat(a, b),
                });
            }
            return Ok(self.from_e(acc.unwrap()));
        }
        if pre("fshl") || pre("fshr") {
            let sft = self.concrete(st, &args[2].1, w)? % w as u64;
            let hi = self.to_e(&args[0].1, w);
            let lo = self.to_e(&args[1].1, w);
            if sft == 0 {
                return Ok(if pre("fshl") { args[0].1.clone() } else { args[1].1.clone() });
            }
            let k = if pre("fshl") { sft as u16 } else { wq - sft as u16 };
            let a = self.pool.extract(hi, 0, wq - k);
            let b = self.pool.extract(lo, wq - k, k);
            let r = self.pool.concat(a, b);
            return Ok(self.from_e(r));
        }
        if pre("ctpop") {
            let x = self.to_e(&args[0].1, w);
            let mut acc = self.pool.c(wq, 0);
            for k in 0..wq {
                let b = self.pool.extract(x, k, 1);
                let z = if wq == 1 { b } else { self.pool.zext(b, wq) };
                acc = self.pool.add(acc, z);
            }
            return Ok(self.from_e(acc));
        }
        if pre("ctlz") || pre("cttz") {
            let x = self.to_e(&args[0].1, w);
            let mut acc = self.pool.c(wq, w as u128);
            // the bit examined last wins
            for i in 0..wq {
                let k = if pre("ctlz") { i } else { wq - 1 - i };
                let b = self.pool.extract(x, k, 1);
                let c = self.pool.c(wq, if pre("ctlz") { (wq - 1 - k) as u128 } else { k as u128 });
                acc = self.pool.ite(b, c, acc);
            }
            return Ok(self.from_e(acc));
        }
        if pre("abs.") {
            let x = self.to_e(&args[0].1, w);
            let ng = self.pool.neg(x);
            let s = self.pool.extract(x, wq - 1, 1);
            let r = self.pool.ite(s, ng, x);
            return Ok(self.from_e(r));
        }
        if pre("fabs.") {
            let m = if w == 32 { 0x7fff_ffff } else { 0x7fff_ffff_ffff_ffff };
            return self.bin(Bin::And, w, &args[0].1, &Val::C(m));
        }
        let round = [("roundeven.", 0), ("rint.", 0), ("nearbyint.", 0), ("round.", 1), ("ceil.", 2), ("floor.", 3), ("trunc.", 4)];
        if let Some((_, mode)) = round.iter().find(|r| pre(r.0)) {
            let x = self.to_e(&args[0].1, w);
            let r = self.funary(Op::FRound, *mode, x);
            return Ok(self.from_e(r));
        }
        if pre("sqrt.") {
            let x = self.to_e(&args[0].1, w);
            let r = self.funary(Op::FSqrt, 0, x);
            return Ok(self.from_e(r));
        }
        if pre("minnum.") || pre("maxnum.") {
            // the other operand if one is no number
            let lt = self.fcmp("olt", w, &args[0].1, &args[1].1);
            let lt = self.to_e(&lt, 1);
            let x = self.to_e(&args[0].1, w);
            let y = self.to_e(&args[1].1, w);
            let (nx, _) = self.nan_of(x);
            let (ny, _) = self.nan_of(y);
            let p = &mut self.pool;
            let r = if pre("min") { p.ite(lt, x, y) } else { p.ite(lt, y, x) };
            let r = p.ite(nx, y, r);
            let r = p.ite(ny, x, r);
            return Ok(self.from_e(r));
        }
        if pre("fptosi.sat.") || pre("fptoui.sat.") {
            let signed = pre("fptosi");
            let x = self.to_e(&args[0].1, w);
            let rw = self.m.bits(rt) as u16;
            let top = 2f64.powi(rw as i32 - signed as i32);
            let (lo, hi) = (if signed { -top } else { 0.0 }, top);
            let enc = |v: f64| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
            let below = self.fcmp("ole", w, &args[0].1, &Val::C(enc(lo)));
            let above = self.fcmp("oge", w, &args[0].1, &Val::C(enc(hi)));
            let (below, above) = (self.to_e(&below, 1), self.to_e(&above, 1));
            let (nan, _) = self.nan_of(x);
            let p = &mut self.pool;
            let r = p.fop(if signed { Op::ToS } else { Op::ToU }, 0, rw, x, x);
            let min = p.c(rw, if signed { 1u128 << (rw - 1) } else { 0 });
            let max = p.c(rw, if signed { mask(rw) >> 1 } else { mask(rw) });
            let r = p.ite(above, max, r);
            let r = p.ite(below, min, r);
            let z = p.c(rw, 0);
            let r = p.ite(nan, z, r);
            return Ok(self.from_e(r));
        }
        if pre("sadd.sat") || pre("ssub.sat") {
            let x = self.to_e(&args[0].1, w);
            let y = self.to_e(&args[1].1, w);
            let p = &mut self.pool;
            let (xx, yy) = (p.sext_e(x, wq + 1), p.sext_e(y, wq + 1));
            let t = if pre("sadd") { p.add(xx, yy) } else { p.sub(xx, yy) };
            let r = p.extract(t, 0, wq);
            let back = p.sext_e(r, wq + 1);
            let ok = p.eq(back, t);
            let neg = p.extract(t, wq, 1);
            let min = p.c(wq, 1u128 << (wq - 1));
            let max = p.c(wq, mask(wq) >> 1);
            let lim = p.ite(neg, min, max);
            let r = p.ite(ok, r, lim);
            return Ok(self.from_e(r));
        }
        if pre("copysign.") {
            let x = self.to_e(&args[0].1, w);
            let y = self.to_e(&args[1].1, w);
            let s = self.pool.extract(y, wq - 1, 1);
            let m = self.pool.extract(x, 0, wq - 1);
            let r = self.pool.concat(s, m);
            return Ok(self.from_e(r));
        }
        if pre("load.relative") {
            let a = self.bin(Bin::Add, 64, &args[0].1, &args[1].1)?;
            let v = self.load_scalar(st, 32, &a)?;
            let e = self.to_e(&v, 32);
            let x = self.pool.sext_e(e, 64);
            let x = self.from_e(x);
            return self.bin(Bin::Add, 64, &args[0].1, &x);
        }
        Err(Stop::Unsup(format!("intrinsic {}", name)))
    }
    fn minmax(&mut self, op: &str, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let p = &mut self.pool;
        let lt = if op.starts_with('u') { p.ult(x, y) } else { p.slt(x, y) };
        let r = if op.ends_with("min") { p.ite(lt, x, y) } else { p.ite(lt, y, x) };
        self.from_e(r)
    }

    // ---------------------------------------------------------------- stepping
    fn get(&mut self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::V(v) => v.clone(),
            Opnd::S(s) => st.frames.last().unwrap().regs[*s as usize].clone(),
        }
    }
    fn set_reg(&mut self, st: &mut State, d: u32, v: Val) {
        if d != NONE {
            let f = Rc::make_mut(st.frames.last_mut().unwrap());
            f.regs[d as usize] = v;
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let (body, from) = {
            let f = st.frames.last().unwrap();
            (f.body.clone(), f.block)
        };
        let blk = &body.blocks[to as usize];
        let mut vals: Vec<(u32, Val)> = vec![];
        for ph in &blk.phis {
            let o = ph.inc.iter().find(|(_, b)| *b == from).unwrap_or_else(|| panic!("phi without incoming edge"));
            let v = self.get(st, &o.0);
            vals.push((ph.dst, v));
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.block = to;
        f.ip = 0;
    }
    fn advance(&mut self, st: &mut State) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.ip += 1;
    }
    /// decide a branch condition: Ok(bool) or fork
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.pool.cv(c) {
            return Ok(v == 1);
        }
        if let Some(&b) = st.known.get(&c) {
            return Ok(b);
        }
        let v = self.pool.eval(c, &st.model) == 1;
        let nc = self.pool.not(c);
        let other = if v { nc } else { c };
        self.stats.branch_queries += 1;
        match self.sat(st, other)? {
            None => {
                self.learn(st, c, v);
                Ok(v)
            }
            Some(_) => Err(Stop::Fork(c)),
        }
    }
    pub fn push_call(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> R<()> {
        let body = match self.m.body(&mut self.pool, f) {
            Some(b) => b,
            None => return Err(Stop::Unsup(format!("call of external function {}", self.m.funcs[f as usize].name))),
        };
        if st.frames.len() > 400 {
            return Err(Stop::Unsup("call depth".into()));
        }
        *self.funcs_used.entry(f).or_insert(0) += 1;
        let mut regs = vec![Val::Undef; body.nslots as usize];
        for (i, p) in body.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        st.frames.push(Rc::new(Frame { f, body, block: 0, ip: 0, regs, allocas: vec![], ret_dst: dst, normal }));
        Ok(())
    }

    /// Execute one instruction.
    fn step(&mut self, st: &mut State) -> R<()> {
        let (body, bi, ip) = {
            let f = st.frames.last().unwrap();
            (f.body.clone(), f.block as usize, f.ip as usize)
        };
        let inst = &body.blocks[bi].insts[ip];
        match &inst.k {
            K::Nop | K::LandingPad => self.advance(st),
            K::Unsupported(s) => return Err(Stop::Unsup(s.to_string())),
            K::Alloca(sz, al, n) => {
                let k = match n {
                    Some(o) => {
                        let v = self.get(st, o);
                        self.concrete(st, &v, 64)?
                    }
                    None => 1,
                };
                let b = self.new_obj(st, sz * k, *al, Kind::Stack, 0);
                let f = Rc::make_mut(st.frames.last_mut().unwrap());
                f.allocas.push(b);
                self.set_reg(st, inst.dst, Val::C(b));
                self.advance(st);
            }
            K::Load(t, p) => {
                let p = self.get(st, p);
                let v = self.load(st, *t, &p)?;
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::Store(t, v, p) => {
                let v = self.get(st, v);
                let p = self.get(st, p);
                self.store(st, *t, &v, &p)?;
                self.advance(st);
            }
            K::Gep(b, off, dynv) => {
                let mut v = self.get(st, b);
                if *off != 0 {
                    v = self.bin(Bin::Add, 64, &v, &Val::C(*off as u64))?;
                }
                for (o, w, sc) in dynv {
                    let mut x = self.get(st, o);
                    if *w < 64 {
                        let e = self.to_e(&x, *w);
                        let e = self.pool.sext_e(e, 64);
                        x = self.from_e(e);
                    }
                    let y = self.bin(Bin::Mul, 64, &x, &Val::C(*sc as u64))?;
                    v = self.bin(Bin::Add, 64, &v, &y)?;
                }
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::Bin(op, t, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = if self.m.is_agg(*t) {
                    let op = *op;
                    self.vec_map2(*t, &a, &b, &mut |s, et, x, y| {
                        let w = s.m.bits(et);
                        s.bin(op, w, x, y)
                    })?
                } else {
                    let w = self.m.bits(*t);
                    let a = self.subst(st, &a, w);
                    let b = self.subst(st, &b, w);
                    self.bin(*op, w, &a, &b)?
                };
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::ICmp(pr, t, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = if self.m.is_agg(*t) {
                    let pr = *pr;
                    self.vec_map2(*t, &a, &b, &mut |s, et, x, y| {
                        let w = s.m.bits(et);
                        Ok(s.icmp(pr, w, x, y))
                    })?
                } else {
                    let w = self.m.bits(*t);
                    let a = self.subst(st, &a, w);
                    let b = self.subst(st, &b, w);
                    self.icmp(*pr, w, &a, &b)
                };
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::FCmp(pr, t, a, b) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                if self.m.is_agg(*t) {
                    return Err(Stop::Unsup("vector fcmp".into()));
                }
                let w = self.m.bits(*t);
                let v = self.fcmp(pr, w, &a, &b);
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::Cast(c, ft, tt, a) => {
                let a = self.get(st, a);
                let v = self.cast(*c, *ft, *tt, &a)?;
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::Select(ct, t, c, a, b) => {
                let c = self.get(st, c);
                let a = self.get(st, a);
                let b = self.get(st, b);
                let v = if self.m.is_agg(*ct) {
                    let n = self.m.nelems(*t);
                    let et = self.m.elem(*t, 0);
                    let w = self.m.bits(et);
                    let g = |v: &Val, i: usize| match v {
                        Val::Agg(x) => x[i].clone(),
                        _ => Val::Undef,
                    };
                    let mut out = vec![];
                    for i in 0..n {
                        let cc = self.to_e(&g(&c, i), 1);
                        let x = self.to_e(&g(&a, i), w);
                        let y = self.to_e(&g(&b, i), w);
                        let r = self.pool.ite(cc, x, y);
                        out.push(self.from_e(r));
                    }
                    Val::Agg(Rc::new(out))
                } else {
                    let c = self.subst(st, &c, 1);
                    match c {
                        Val::C(1) => a,
                        Val::C(_) => b,
                        _ => {
                            let ce = self.to_e(&c, 1);
                            if let Some(&k) = st.known.get(&ce) {
                                if k {
                                    a
                                } else {
                                    b
                                }
                            } else if self.m.is_agg(*t) || matches!(self.m.t(*t), Ty::Ptr) {
                                if self.decide(st, ce)? {
                                    a
                                } else {
                                    b
                                }
                            } else {
                                let w = self.m.bits(*t);
                                let x = self.to_e(&a, w);
                                let y = self.to_e(&b, w);
                                let r = self.pool.ite(ce, x, y);
                                self.from_e(r)
                            }
                        }
                    }
                };
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::Br(b) => self.jump(st, *b),
            K::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let c = self.subst(st, &c, 1);
                let t = match c {
                    Val::C(x) => x & 1 == 1,
                    Val::Undef => {
                        let e = self.fresh_undef(1);
                        self.decide(st, e)?
                    }
                    Val::E(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                self.jump(st, if t { *a } else { *b });
            }
            K::Switch(w, v, cases, d) => {
                let v = self.get(st, v);
                let v = self.subst(st, &v, *w);
                match v {
                    Val::C(x) => {
                        let t = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, t);
                    }
                    _ => {
                        let e = self.to_e(&v, *w);
                        // group the cases by target
                        let mv = self.pool.eval(e, &st.model) as u64;
                        let target = cases.iter().find(|c| c.0 == mv).map(|c| c.1).unwrap_or(*d);
                        let cond = if target == *d && !cases.iter().any(|c| c.0 == mv) {
                            // default: none of the cases
                            let mut acc = self.pool.c(1, 1);
                            for (c, t) in cases {
                                if t == d {
                                    continue;
                                }
                                let k = self.pool.c(*w as u16, *c as u128);
                                let ne = self.pool.ne(e, k);
                                acc = self.pool.and(acc, ne);
                            }
                            acc
                        } else {
                            let mut acc = self.pool.c(1, 0);
                            for (c, t) in cases {
                                if *t != target {
                                    continue;
                                }
                                let k = self.pool.c(*w as u16, *c as u128);
                                let q = self.pool.eq(e, k);
                                acc = self.pool.or(acc, q);
                            }
                            acc
                        };
                        if self.decide(st, cond)? {
                            self.jump(st, target);
                        } else {
                            return Err(Stop::Unsup("switch: inconsistent model".into()));
                        }
                    }
                }
            }
            K::Ret(v) => {
                let v = match v {
                    Some((_, o)) => Some(self.get(st, o)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.objs.remove(a);
                }
                if st.frames.is_empty() {
                    st.frames.push(fr);
                    return Err(Stop::End(EndKind::Ok));
                }
                if let Some(v) = v {
                    self.set_reg(st, fr.ret_dst, v);
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => self.advance(st),
                }
            }
            K::Unreachable => {
                let m = st.model.clone();
                self.violate(st, "undefined-behaviour", "unreachable code executed", &m);
                return Err(Stop::End(EndKind::Violation));
            }
            K::ExtractValue(a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => Val::Undef,
                    };
                }
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::InsertValue(t, a, v, ix) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let r = self.insert(*t, a, v, ix);
                self.set_reg(st, inst.dst, r);
                self.advance(st);
            }
            K::ExtractElem(_, a, i) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.concrete(st, &i, 64)? as usize;
                let v = match a {
                    Val::Agg(x) if i < x.len() => x[i].clone(),
                    _ => Val::Undef,
                };
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::InsertElem(t, a, v, i) => {
                let a = self.get(st, a);
                let v = self.get(st, v);
                let i = self.get(st, i);
                let i = self.concrete(st, &i, 64)? as u32;
                let r = self.insert(*t, a, v, &[i]);
                self.set_reg(st, inst.dst, r);
                self.advance(st);
            }
            K::Shuffle(t, a, b, ix) => {
                let a = self.get(st, a);
                let b = self.get(st, b);
                let n = self.m.nelems(*t) as i64;
                let g = |v: &Val, i: i64| match v {
                    Val::Agg(x) => x[i as usize].clone(),
                    _ => Val::Undef,
                };
                let out = ix
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            Val::Undef
                        } else if i < n {
                            g(&a, i)
                        } else {
                            g(&b, i - n)
                        }
                    })
                    .collect();
                self.set_reg(st, inst.dst, Val::Agg(Rc::new(out)));
                self.advance(st);
            }
            K::Freeze(t, a) => {
                let mut v = self.get(st, a);
                if matches!(v, Val::Undef) && !self.m.is_agg(*t) {
                    let w = self.m.bits(*t);
                    let e = self.fresh_wide_undef(w);
                    v = Val::E(e);
                }
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::FNeg(t, a) => {
                let a = self.get(st, a);
                let w = self.m.bits(*t);
                let v = self.bin(Bin::Xor, w, &a, &Val::C(1 << (w - 1)))?;
                self.set_reg(st, inst.dst, v);
                self.advance(st);
            }
            K::AtomicRmw(op, t, p, v) => {
                let p = self.get(st, p);
                let v = self.get(st, v);
                let w = self.m.bits(*t);
                let old = self.load(st, *t, &p)?;
                let new = match &**op {
                    "add" => self.bin(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(Bin::And, w, &old, &v)?,
                    "or" => self.bin(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                    "xchg" => v,
                    "umax" | "umin" => self.minmax(op, w, &old, &v),
                    _ => return Err(Stop::Unsup(format!("atomicrmw {}", op))),
                };
                self.store(st, *t, &new, &p)?;
                self.set_reg(st, inst.dst, old);
                self.advance(st);
            }
            K::CmpXchg(t, p, a, b) => {
                let p = self.get(st, p);
                let a = self.get(st, a);
                let b = self.get(st, b);
                let w = self.m.bits(*t);
                let old = self.load(st, *t, &p)?;
                let c = self.icmp(IP::Eq, w, &old, &a);
                let ok = match c {
                    Val::C(x) => x == 1,
                    Val::E(e) => self.decide(st, e)?,
                    _ => return Err(Stop::Unsup("cmpxchg on undef".into())),
                };
                if ok {
                    self.store(st, *t, &b, &p)?;
                }
                self.set_reg(st, inst.dst, Val::Agg(Rc::new(vec![old, Val::C(ok as u64)])));
                self.advance(st);
            }
            K::Call(callee, args, rt, normal) => {
                let av: Vec<Val> = args.iter().map(|a| self.get(st, &a.1)).collect();
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = self.get(st, o);
                        let v = match v {
                            Val::E(e) => {
                                let r = self.resolve_ite(st, e);
                                self.from_e(r)
                            }
                            v => v,
                        };
                        let a = self.concrete(st, &v, 64)?;
                        match self.m.fn_at(a) {
                            Some(f) => f,
                            None => {
                                let m = st.model.clone();
                                self.violate(st, "memory", "call through a wild function pointer", &m);
                                return Err(Stop::End(EndKind::Violation));
                            }
                        }
                    }
                    Callee::Asm(s) => {
                        if s.is_empty() || s.trim().is_empty() {
                            // compiler barrier: value barriers return their input
                            let v = av.first().cloned().unwrap_or(Val::Undef);
                            self.set_reg(st, inst.dst, v);
                            match normal {
                                Some(b) => self.jump(st, *b),
                                None => self.advance(st),
                            }
                            return Ok(());
                        }
                        return Err(Stop::Unsup(format!("inline asm {:?}", s)));
                    }
                    Callee::Intrin(n) => {
                        let tv: Vec<(T, Val)> = args
                            .iter()
                            .zip(av.into_iter())
                            .map(|(a, v)| {
                                let v = if self.m.is_agg(a.0) || matches!(self.m.t(a.0), Ty::Other) {
                                    v
                                } else {
                                    let w = self.m.bits(a.0);
                                    self.subst(st, &v, w)
                                };
                                (a.0, v)
                            })
                            .collect();
                        let n = n.clone();
                        let v = self.intrinsic(st, &n, &tv, *rt)?;
                        self.set_reg(st, inst.dst, v);
                        match normal {
                            Some(b) => self.jump(st, *b),
                            None => self.advance(st),
                        }
                        return Ok(());
                    }
                };
                let sp = self.special(f);
                if sp != Sp::None {
                    let v = self.native(st, sp, f, &av)?;
                    self.set_reg(st, inst.dst, v);
                    match normal {
                        Some(b) => self.jump(st, *b),
                        None => self.advance(st),
                    }
                    return Ok(());
                }
                self.push_call(st, f, av, inst.dst, *normal)?;
            }
        }
        Ok(())
    }
    fn insert(&mut self, t: T, a: Val, v: Val, ix: &[u32]) -> Val {
        if ix.is_empty() {
            return v;
        }
        let n = self.m.nelems(t);
        let mut xs = match a {
            Val::Agg(x) => (*x).clone(),
            _ => vec![Val::Undef; n],
        };
        let i = ix[0] as usize;
        let et = self.m.elem(t, i);
        let old = std::mem::replace(&mut xs[i], Val::Undef);
        xs[i] = self.insert(et, old, v, &ix[1..]);
        Val::Agg(Rc::new(xs))
    }
    fn cast(&mut self, c: Cast, ft: T, tt: T, a: &Val) -> R<Val> {
        if self.m.is_agg(ft) || self.m.is_agg(tt) {
            if c == Cast::Bit {
                // through a bit string
                let fb = self.flat_bits(ft);
                if fb > 128 {
                    return Err(Stop::Unsup("wide vector bitcast".into()));
                }
                let e = self.flatten(ft, a);
                return Ok(self.unflatten(tt, e, 0));
            }
            let n = self.m.nelems(ft);
            let (fe, te) = (self.m.elem(ft, 0), self.m.elem(tt, 0));
            let xs = match a {
                Val::Agg(x) => x.clone(),
                _ => return Ok(Val::Undef),
            };
            let mut out = vec![];
            for i in 0..n {
                out.push(self.cast(c, fe, te, &xs[i])?);
            }
            return Ok(Val::Agg(Rc::new(out)));
        }
        let (fw, tw) = (self.m.bits(ft), self.m.bits(tt));
        if matches!(a, Val::Undef) && matches!(c, Cast::Trunc | Cast::Bit) {
            return Ok(Val::Undef);
        }
        match c {
            Cast::Bit => Ok(a.clone()),
            Cast::Trunc => Ok(self.trunc_val(a.clone(), fw, tw)),
            Cast::ZExt => match a {
                Val::C(c) if tw <= 64 => Ok(Val::C(*c)),
                _ => {
                    let e = self.to_e(a, fw);
                    let e = self.pool.zext(e, tw as u16);
                    Ok(self.from_e(e))
                }
            },
            Cast::SExt => match a {
                Val::C(c) if tw <= 64 => {
                    let x = ((*c << (64 - fw)) as i64 >> (64 - fw)) as u64;
                    Ok(Val::C(x & sh(tw)))
                }
                _ => {
                    let e = self.to_e(a, fw);
                    let e = self.pool.sext_e(e, tw as u16);
                    Ok(self.from_e(e))
                }
            },
            Cast::FpExt => {
                let e = self.to_e(a, 32);
                let r = self.fpext(e);
                Ok(self.from_e(r))
            }
            Cast::FpTrunc => {
                let e = self.to_e(a, 64);
                let r = self.fptrunc(e);
                Ok(self.from_e(r))
            }
            _ => match a {
                Val::C(x) => {
                    let sx = |v: u64| ((v << (64 - fw)) as i64) >> (64 - fw);
                    let r = match (c, fw, tw) {
                        (Cast::UiToFp, _, 32) => (*x as f32).to_bits() as u64,
                        (Cast::UiToFp, _, _) => (*x as f64).to_bits(),
                        (Cast::SiToFp, _, 32) => (sx(*x) as f32).to_bits() as u64,
                        (Cast::SiToFp, _, _) => (sx(*x) as f64).to_bits(),
                        (Cast::FpToUi, 32, _) => f32::from_bits(*x as u32) as u64 & sh(tw),
                        (Cast::FpToUi, _, _) => f64::from_bits(*x) as u64 & sh(tw),
                        (Cast::FpToSi, 32, _) => f32::from_bits(*x as u32) as i64 as u64 & sh(tw),
                        (Cast::FpToSi, _, _) => f64::from_bits(*x) as i64 as u64 & sh(tw),
                        _ => unreachable!(),
                    };
                    Ok(Val::C(r))
                }
                _ => {
                    let e = self.to_e(a, fw);
                    let op = match c {
                        Cast::UiToFp => Op::FromU,
                        Cast::SiToFp => Op::FromS,
                        Cast::FpToUi => Op::ToU,
                        Cast::FpToSi => Op::ToS,
                        _ => return Err(Stop::Unsup(format!("symbolic {:?}", c))),
                    };
                    let r = self.pool.fop(op, 0, tw as u16, e, e);
                    Ok(self.from_e(r))
                }
            },
        }
    }
    fn flat_bits(&self, t: T) -> u32 {
        if self.m.is_agg(t) {
            self.m.nelems(t) as u32 * self.flat_bits(self.m.elem(t, 0))
        } else {
            self.m.bits(t)
        }
    }
    fn flatten(&mut self, t: T, v: &Val) -> E {
        if !self.m.is_agg(t) {
            let w = self.m.bits(t);
            return self.to_e(v, w);
        }
        let n = self.m.nelems(t);
        let et = self.m.elem(t, 0);
        let mut acc: Option<E> = None;
        for i in 0..n {
            let x = match v {
                Val::Agg(x) => x[i].clone(),
                _ => Val::Undef,
            };
            let e = self.flatten(et, &x);
            acc = Some(match acc {
                None => e,
                Some(a) => self.pool.concat(e, a),
            });
        }
        acc.unwrap()
    }
    fn unflatten(&mut self, t: T, e: E, off: u16) -> Val {
        if !self.m.is_agg(t) {
            let w = self.m.bits(t) as u16;
            let x = self.pool.extract(e, off, w);
            return self.from_e(x);
        }
        let n = self.m.nelems(t);
        let et = self.m.elem(t, 0);
        let ew = self.flat_bits(et) as u16;
        let mut out = vec![];
        for i in 0..n {
            out.push(self.unflatten(et, e, off + i as u16 * ew));
        }
        Val::Agg(Rc::new(out))
    }

    // ---------------------------------------------------------------- exploration
    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let mut st = State {
            frames: vec![],
            objs: BTreeMap::new(),
            next_heap: 0x10_0000_0000,
            next_stack: 0x7000_0000_0000,
            pc: vec![],
            known: HashMap::new(),
            split: vec![],
            eqs: HashMap::new(),
            model: Model { id: 0, vals: Rc::new(vec![]) },
            tape: vec![],
            evs: vec![],
            allow_panic: false,
            huge: false,
            pending: None,
            steps: 0,
            depth: 0,
        };
        let f = match self.m.fix.get(entry) {
            Some(f) => *f,
            None => {
                eprintln!("no entry function {}", entry);
                std::process::exit(3);
            }
        };
        let av: Vec<Val> = args.iter().map(|a| Val::C(*a)).collect();
        if self.push_call(&mut st, f, av, NONE, None).is_err() {
            eprintln!("entry {} has no body", entry);
            std::process::exit(3);
        }
        st
    }
    fn end_path(&mut self, st: &State, k: EndKind) {
        self.stats.max_depth = self.stats.max_depth.max(st.depth);
        match k {
            EndKind::Ok => self.stats.paths_ok += 1,
            EndKind::Panic => self.stats.paths_panic += 1,
            EndKind::Assume => self.stats.paths_assume += 1,
            EndKind::Violation => self.stats.paths_viol += 1,
        }
        if !matches!(k, EndKind::Ok | EndKind::Panic) {
            return;
        }
        // a sample spread evenly over the explored paths
        self.trace_count += 1;
        if self.traces.len() >= self.max_traces {
            let mut i = 0;
            self.traces.retain(|_| {
                i += 1;
                i % 2 == 1
            });
            self.trace_stride *= 2;
        }
        if self.trace_count % self.trace_stride == 1 % self.trace_stride && self.max_traces > 0 {
            let m = st.model.clone();
            let t = self.tape(st, &m);
            let ev = self.events(st, &m);
            let ts: Vec<String> = t.iter().map(|(w, v)| format!("{}:{:x}", w, v)).collect();
            self.traces.push(format!("{}\t{}\t{}", if k == EndKind::Ok { "ok" } else { "panic" }, ts.join(" "), ev.join("\u{1}")));
        }
    }
    /// Run one state until it ends or forks; returns successor states.
    pub fn run_state(&mut self, mut st: State) -> Vec<State> {
        loop {
            st.steps += 1;
            self.stats.steps += 1;
            if st.steps > self.max_steps_path {
                self.note_incomplete(&st, "step limit per path".into());
                return vec![];
            }
            if self.stats.steps & 0xfff == 0 && std::time::Instant::now() > self.deadline {
                self.note_incomplete(&st, "time limit".into());
                return vec![];
            }
            let r = match st.split.last() {
                None => self.step(&mut st),
                Some(&e) => {
                    let w = self.pool.w(e) as u32;
                    match self.concrete(&mut st, &Val::E(e), w) {
                        Ok(_) => {
                            st.split.pop();
                            Ok(())
                        }
                        Err(x) => Err(x),
                    }
                }
            };
            match r {
                Ok(()) => {}
                Err(Stop::End(k)) => {
                    self.end_path(&st, k);
                    return vec![];
                }
                Err(Stop::Unsup(s)) => {
                    self.note_incomplete(&st, s);
                    return vec![];
                }
                Err(Stop::Choose(n)) => {
                    self.stats.forks += n - 1;
                    st.depth += 1;
                    return (0..n)
                        .rev()
                        .map(|v| {
                            let mut b = st.clone();
                            b.pending = Some(v);
                            b
                        })
                        .collect();
                }
                Err(Stop::Fork(c)) => {
                    self.stats.forks += 1;
                    *self.profile.entry(st.frames.last().unwrap().f).or_insert(0) += 1;
                    let nc = self.pool.not(c);
                    let mut out = vec![];
                    let here = self.pool.eval(c, &st.model) == 1;
                    let (mine, other) = if here { (c, nc) } else { (nc, c) };
                    let mut b = st.clone();
                    b.depth += 1;
                    match self.sat(&b, other) {
                        Ok(Some(m)) => {
                            b.model = m;
                            self.assume(&mut b, other);
                            out.push(b);
                        }
                        Ok(None) => {}
                        Err(Stop::Unsup(s)) => self.note_incomplete(&st, s),
                        Err(_) => {}
                    }
                    st.depth += 1;
                    self.assume(&mut st, mine);
                    out.push(st);
                    return out;
                }
            }
        }
    }
    pub fn note_incomplete(&mut self, st: &State, s: String) {
        let n = self.incomplete.entry(s.clone()).or_insert(0);
        *n += 1;
        if *n == 1 {
            let mut t = self.trace(st);
            t.insert(0, s);
            self.incomplete_trace.push(t);
        }
        if *self.incomplete.values().max().unwrap_or(&0) <= 3 && self.suspects.len() < 4 {
            // inputs of an unfinished path
            let m = st.model.clone();
            let tp = self.tape(st, &m);
            self.suspects.push(tp);
        }
    }
}
fn ptr_val(e: E) -> &'static Val {
    Box::leak(Box::new(Val::E(e)))
}
/// crude readable tail of a v0-mangled name
pub fn short(n: &str) -> String {
    let mut out = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let k: usize = n[s..i].parse().unwrap_or(0);
            if k > 1 && i + k <= b.len() {
                out.push(n[i..i + k].trim_start_matches('_').to_string());
                i += k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

//! Hash-consed bit-vector expressions with a simplifier and an evaluator.
//!
//! Widths are 1..=128 bits.  Booleans are width-1 vectors.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    /// IEEE operations on the encodings, results that are no number in the default encoding
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    /// to an integral value, c: 0 nearest even, 1 nearest away, 2 up, 3 down, 4 towards zero
    FRound,
    /// signed / unsigned integer to floating point, nearest even
    FromS,
    FromU,
    /// towards zero, for values in range
    ToS,
    ToU,
}
pub fn is_fp(op: Op) -> bool {
    matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FRound | Op::FromS | Op::FromU | Op::ToS | Op::ToU)
}
pub fn default_nan(w: u16) -> u128 {
    if w == 32 {
        0xffc0_0000
    } else {
        0xfff8_0000_0000_0000
    }
}
/// wa, w: widths of the operands and of the result
pub fn fp_value(op: Op, mode: u32, wa: u16, w: u16, a: u128, b: u128) -> u128 {
    macro_rules! float {
        ($f:ty, $u:ty) => {{
            let (x, y) = (<$f>::from_bits(a as $u), <$f>::from_bits(b as $u));
            let r = match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                Op::FDiv => x / y,
                Op::FSqrt => x.sqrt(),
                Op::FRound => match mode {
                    0 => x.round_ties_even(),
                    1 => x.round(),
                    2 => x.ceil(),
                    3 => x.floor(),
                    _ => x.trunc(),
                },
                Op::ToS => return (x as i128) as u128 & mask(w),
                _ => return (x as u128) & mask(w),
            };
            if r.is_nan() {
                default_nan(w)
            } else {
                r.to_bits() as u128
            }
        }};
    }
    match (op, wa, w) {
        (Op::FromS, _, 32) => (sext(a, wa) as f32).to_bits() as u128,
        (Op::FromS, _, _) => (sext(a, wa) as f64).to_bits() as u128,
        (Op::FromU, _, 32) => (a as f32).to_bits() as u128,
        (Op::FromU, _, _) => (a as f64).to_bits() as u128,
        (_, 32, _) => float!(f32, u32),
        _ => float!(f64, u64),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    /// operands; for Const: index into `consts`; for Var: var id; for Extract: b = lo
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct VarInfo {
    pub w: u16,
    pub name: String,
    pub undef: bool,
}

pub struct Pool {
    /// keep values as they were put together from bytes, and leave it to the solver to see that they are equal
    pub plain: bool,
    pub nodes: Vec<Node>,
    tab: HashMap<Node, E>,
    pub consts: Vec<u128>,
    ctab: HashMap<(u16, u128), E>,
    pub vars: Vec<VarInfo>,
    pub var_expr: Vec<E>,
    undef: Vec<bool>,
    /// contains a product of two unknowns
    nonlin: Vec<bool>,
    /// contains a floating-point operation
    fpn: Vec<bool>,
    /// disjunction of factorisations -> (product, value) it stands for
    pub means: HashMap<E, (E, u64)>,
    sigbits: Vec<u16>,
    /// condition -> condition it implies (`product is small` -> `its high part is zero`)
    pub implies: HashMap<E, E>,
    /// `product == constant` (not zero) -> its factors: few values each, worth a case split
    pub factors: HashMap<E, (E, E)>,
    varsets: HashMap<E, Rc<Vec<u32>>>,
    // evaluation memo
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    gen_model: u64,
}

#[derive(Clone)]
pub struct Model {
    pub id: u64,
    pub vals: Rc<Vec<u64>>,
}
impl Model {
    pub fn get(&self, v: u32) -> u64 {
        self.vals.get(v as usize).copied().unwrap_or(0)
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Pool {
    pub fn new() -> Self {
        Pool {
            plain: false,
            nodes: vec![],
            tab: HashMap::new(),
            consts: vec![],
            ctab: HashMap::new(),
            vars: vec![],
            var_expr: vec![],
            undef: vec![],
            nonlin: vec![],
            fpn: vec![],
            means: HashMap::new(),
            sigbits: vec![],
            implies: HashMap::new(),
            factors: HashMap::new(),
            varsets: HashMap::new(),
            memo_gen: vec![],
            memo_val: vec![],
            gen: 0,
            gen_model: u64::MAX,
        }
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    /// `e` (one bit) with its and/or/not skeleton simplified by known conditions
    pub fn under(&mut self, e: E, known: &HashMap<E, bool>, depth: u32) -> E {
        if let Some(&b) = known.get(&e) {
            return self.c(1, b as u128);
        }
        let n = self.n(e);
        if n.w != 1 || depth == 0 || !matches!(n.op, Op::And | Op::Or | Op::Xor) {
            return e;
        }
        let a = self.under(n.a, known, depth - 1);
        let b = self.under(n.b, known, depth - 1);
        if a == n.a && b == n.b {
            return e;
        }
        match n.op {
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            _ => self.xor(a, b),
        }
    }
    pub fn has_undef(&self, e: E) -> bool {
        self.undef[e as usize]
    }
    pub fn c(&mut self, w: u16, v: u128) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let v = v & mask(w);
        if let Some(&e) = self.ctab.get(&(w, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: ci, b: 0, c: 0 });
        self.undef.push(false);
        self.fpn.push(false);
        self.nonlin.push(false);
        self.sigbits.push((128 - v.leading_zeros()) as u16);
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.ctab.insert((w, v), e);
        e
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, w: u16, name: String, undef: bool) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w, name, undef });
        let e = self.raw(Node { op: Op::Var, w, a: id, b: 0, c: 0 });
        self.undef[e as usize] = undef;
        self.var_expr.push(e);
        e
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.tab.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        let (u, sb) = match n.op {
            Op::Const => unreachable!(),
            Op::Var => (false, n.w),
            Op::Ite => (
                self.undef[n.a as usize] || self.undef[n.b as usize] || self.undef[n.c as usize],
                self.sigbits[n.b as usize].max(self.sigbits[n.c as usize]),
            ),
            Op::Extract => {
                let s = self.sigbits[n.a as usize];
                (self.undef[n.a as usize], s.saturating_sub(n.b as u16).min(n.w))
            }
            Op::ZExt => (self.undef[n.a as usize], self.sigbits[n.a as usize]),
            Op::SExt => (self.undef[n.a as usize], n.w),
            _ => {
                let u = self.undef[n.a as usize] || self.undef[n.b as usize];
                let (sa, sb) = (self.sigbits[n.a as usize], self.sigbits[n.b as usize]);
                let s = match n.op {
                    Op::Add => (sa.max(sb) + 1).min(n.w),
                    Op::Mul => (sa + sb).min(n.w),
                    Op::UDiv | Op::URem => n.w.min(if n.op == Op::UDiv { n.w } else { n.w }),
                    Op::And => sa.min(sb),
                    Op::Or | Op::Xor => sa.max(sb),
                    Op::LShr => sa,
                    Op::Eq | Op::Ult | Op::Slt => 1,
                    Op::Concat => {
                        if sa > 0 {
                            sa + self.nodes[n.b as usize].w
                        } else {
                            sb
                        }
                    }
                    _ => n.w,
                };
                (u, s)
            }
        };
        self.undef.push(u);
        let nl = match n.op {
            Op::Const | Op::Var => false,
            Op::Extract | Op::ZExt | Op::SExt => self.nonlin[n.a as usize],
            Op::Ite => self.nonlin[n.a as usize] || self.nonlin[n.b as usize] || self.nonlin[n.c as usize],
            Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem if self.cv(n.a).is_none() && self.cv(n.b).is_none() => true,
            _ => self.nonlin[n.a as usize] || self.nonlin[n.b as usize],
        };
        self.nonlin.push(nl);
        let fp = is_fp(n.op)
            || match n.op {
                Op::Const | Op::Var => false,
                Op::Extract | Op::ZExt | Op::SExt => self.fpn[n.a as usize],
                Op::Ite => self.fpn[n.a as usize] || self.fpn[n.b as usize] || self.fpn[n.c as usize],
                _ => self.fpn[n.a as usize] || self.fpn[n.b as usize],
            };
        self.fpn.push(fp);
        self.sigbits.push(sb.min(n.w));
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.tab.insert(n, e);
        e
    }
    pub fn fp(&self, e: E) -> bool {
        self.fpn[e as usize]
    }
    /// floating-point operation; a unary one takes its operand twice
    pub fn fop(&mut self, op: Op, mode: u32, w: u16, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = fp_value(op, mode, self.w(a), w, x, y);
            return self.c(w, v);
        }
        self.raw(Node { op, w, a, b, c: mode })
    }
    pub fn nonlinear(&self, e: E) -> bool {
        self.nonlin[e as usize]
    }
    pub fn sig(&self, e: E) -> u16 {
        self.sigbits[e as usize]
    }
    pub fn bin_raw(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        self.raw(Node { op, w, a, b, c: 0 })
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(w, mask(w));
        self.xor(a, m)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.c(w, 0);
        self.sub(z, a)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Add {
                    if let Some(x) = self.cv(n.b) {
                        let c = self.c(w, x.wrapping_add(y));
                        return self.add(n.a, c);
                    }
                }
                if n.op == Op::Sub {
                    if let Some(x) = self.cv(n.a) {
                        let c = self.c(w, x.wrapping_add(y));
                        return self.sub(c, n.b);
                    }
                }
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.cv(n.b), self.cv(n.c)) {
                        let p = self.c(w, p.wrapping_add(y));
                        let q = self.c(w, q.wrapping_add(y));
                        return self.ite(n.a, p, q);
                    }
                }
                return self.bin_raw(Op::Add, w, a, b);
            }
            _ => {}
        }
        // pull constants outwards
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let t = self.add(na.a, b);
            return self.add(t, na.b);
        }
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let t = self.add(a, nb.a);
            return self.add(t, nb.b);
        }
        // a + (c - x) , x + (y - x)
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.bin_raw(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(w, 0);
        }
        if let Some(y) = self.cv(b) {
            let c = self.c(w, y.wrapping_neg());
            return self.add(a, c);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // (x+c) - y => (x-y)+c
        if na.op == Op::Add {
            if self.cv(na.b).is_some() {
                let t = self.sub(na.a, b);
                return self.add(t, na.b);
            }
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == Op::Add {
            if let Some(c) = self.cv(nb.b) {
                let t = self.sub(a, nb.a);
                let k = self.c(w, c.wrapping_neg());
                return self.add(t, k);
            }
        }
        if let Some(_) = self.cv(a) {
            if nb.op == Op::Sub && self.cv(nb.a).is_some() {
                // c1 - (c2 - x) = x + (c1-c2)
                let k = self.sub(a, nb.a);
                return self.add(nb.b, k);
            }
        }
        self.bin_raw(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Add {
                    if let Some(x) = self.cv(n.b) {
                        let t = self.mul(n.a, b);
                        let k = self.c(w, x.wrapping_mul(y));
                        return self.add(t, k);
                    }
                }
                if n.op == Op::Mul {
                    if let Some(x) = self.cv(n.b) {
                        let k = self.c(w, x.wrapping_mul(y));
                        return self.mul(n.a, k);
                    }
                }
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.cv(n.b), self.cv(n.c)) {
                        let p = self.c(w, p.wrapping_mul(y));
                        let q = self.c(w, q.wrapping_mul(y));
                        return self.ite(n.a, p, q);
                    }
                }
                return self.bin_raw(Op::Mul, w, a, b);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.bin_raw(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return a;
            }
            if let Some(x) = self.cv(a) {
                return self.c(w, if y == 0 { mask(w) } else { x / y });
            }
            if y.is_power_of_two() {
                let k = self.c(w, y.trailing_zeros() as u128);
                return self.lshr(a, k);
            }
        }
        if let Some(x) = self.cv(a) {
            if x <= 64 && w >= 16 {
                let mut r = self.c(w, 0);
                for d in (1..=x).rev() {
                    let k = self.c(w, d);
                    let q = self.c(w, x / d);
                    let t = self.eq(b, k);
                    r = self.ite(t, q, r);
                }
                let z = self.c(w, 0);
                let t = self.eq(b, z);
                let m = self.c(w, mask(w));
                return self.ite(t, m, r);
            }
        }
        self.bin_raw(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(w, if y == 0 { x } else { x % y });
            }
            if y.is_power_of_two() {
                let k = self.c(w, y - 1);
                return self.and(a, k);
            }
        }
        if let Some(x) = self.cv(a) {
            if x <= 64 && w >= 16 {
                let mut r = self.c(w, x);
                for d in (1..=x).rev() {
                    let k = self.c(w, d);
                    let q = self.c(w, x % d);
                    let t = self.eq(b, k);
                    r = self.ite(t, q, r);
                }
                return r;
            }
        }
        self.bin_raw(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(w, sext(x, w).wrapping_div(sext(y, w)) as u128);
            }
        }
        self.bin_raw(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(w, sext(x, w).wrapping_rem(sext(y, w)) as u128);
            }
        }
        self.bin_raw(Op::SRem, w, a, b)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x & y),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == mask(w) => return a,
            (None, Some(y)) => {
                let s = self.sig(a);
                if y & mask(s) == mask(s) {
                    return a;
                }
                if (y + 1).is_power_of_two() {
                    let k = y.count_ones() as u16;
                    let t = self.extract(a, 0, k);
                    return self.zext(t, w);
                }
                // contiguous mask
                let tz = y.trailing_zeros() as u16;
                let m = y >> tz;
                if (m + 1).is_power_of_two() {
                    let k = m.count_ones() as u16;
                    let t = self.extract(a, tz, k);
                    let z = self.c(tz, 0);
                    let t = self.concat(t, z);
                    return self.zext(t, w);
                }
            }
            _ => {}
        }
        if w == 1 {
            // x & !x
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Xor && na.a == b && self.cv(na.b) == Some(1) {
                return self.c(1, 0);
            }
            if nb.op == Op::Xor && nb.a == a && self.cv(nb.b) == Some(1) {
                return self.c(1, 0);
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.bin_raw(Op::And, w, a, b)
    }
    /// number of low bits known to be zero
    fn low_zeros(&self, e: E) -> u16 {
        let n = self.n(e);
        match n.op {
            Op::Const => (self.consts[n.a as usize].trailing_zeros() as u16).min(n.w),
            Op::Concat => {
                let wb = self.w(n.b);
                let z = self.low_zeros(n.b);
                if z == wb {
                    wb + self.low_zeros(n.a)
                } else {
                    z
                }
            }
            Op::ZExt => {
                let z = self.low_zeros(n.a);
                if z == self.w(n.a) {
                    n.w
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x | y),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            _ => {}
        }
        if w > 1 {
            for (p, q) in [(a, b), (b, a)] {
                let k = self.low_zeros(p);
                let s = self.sig(q);
                if k > 0 && k < w && s <= k {
                    let hi = self.extract(p, k, w - k);
                    let lo = self.extract(q, 0, k);
                    return self.concat(hi, lo);
                }
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Xor && na.a == b && self.cv(na.b) == Some(1) {
                return self.c(1, 1);
            }
            if nb.op == Op::Xor && nb.a == a && self.cv(nb.b) == Some(1) {
                return self.c(1, 1);
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.bin_raw(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Xor {
                    if let Some(x) = self.cv(n.b) {
                        let k = self.c(w, x ^ y);
                        return self.xor(n.a, k);
                    }
                }
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.cv(n.b), self.cv(n.c)) {
                        let p = self.c(w, p ^ y);
                        let q = self.c(w, q ^ y);
                        return self.ite(n.a, p, q);
                    }
                }
                return self.bin_raw(Op::Xor, w, a, b);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.bin_raw(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u16;
            let hi = self.extract(a, 0, w - k);
            let z = self.c(k, 0);
            return self.concat(hi, z);
        }
        self.bin_raw(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u16;
            let t = self.extract(a, k, w - k);
            return self.zext(t, w);
        }
        self.bin_raw(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let k = if k >= w as u128 { w - 1 } else { k as u16 };
            let t = self.extract(a, k, w - k);
            return self.sext_e(t, w);
        }
        self.bin_raw(Op::AShr, w, a, b)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0);
        if w == aw {
            return a;
        }
        let n = self.n(a);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] >> lo;
                return self.c(w, v);
            }
            Op::Extract => return self.extract(n.a, n.b as u16 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo >= wi {
                    return self.c(w, 0);
                }
                let t = self.extract(n.a, lo, wi - lo);
                return self.zext(t, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let t = self.extract(n.a, lo, wi - lo);
                    return self.sext_e(t, w);
                }
                if w == 1 {
                    return self.extract(n.a, wi - 1, 1);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            // the low part of an exact wider product is kept as it is (see `eq` and `ult`)
            Op::Mul if lo == 0 && self.cv(n.b).is_none() && self.sig(n.a) + self.sig(n.b) <= n.w && self.sig(n.a) + self.sig(n.b) > w => {}
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                // (a product that fits the narrower width stays exact in it)
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Mul => self.mul(x, y),
                    _ => self.sub(x, y),
                };
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if self.sig(a) <= lo {
            return self.c(w, 0);
        }
        self.raw(Node { op: Op::Extract, w, a, b: lo as u32, c: 0 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 128, "concat wider than 128");
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.c(w, (x << wl) | y);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let nh = self.n(hi);
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, lo);
            return self.concat(nh.a, t);
        }
        if nh.op == Op::ZExt {
            let t = self.concat(nh.a, lo);
            return self.zext(t, w);
        }
        // merge adjacent extracts
        let nl = self.n(lo);
        // lo may be a Concat whose first part merges with hi
        let (first, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (lo, None) };
        let nf = self.n(first);
        let merged = if !self.plain && nh.op == Op::Extract && nf.op == Op::Extract && nh.a == nf.a && nh.b as u16 == nf.b as u16 + nf.w {
            Some(self.extract(nh.a, nf.b as u16, nh.w + nf.w))
        } else if nh.op == Op::Const && nf.op == Op::Const {
            Some(self.concat(hi, first))
        } else if nh.op == Op::Ite && nf.op == Op::Ite && nh.a == nf.a && self.cv(nh.b).is_some() && self.cv(nh.c).is_some() && self.cv(nf.b).is_some() && self.cv(nf.c).is_some() {
            let p = self.concat(nh.b, nf.b);
            let q = self.concat(nh.c, nf.c);
            Some(self.ite(nh.a, p, q))
        } else {
            None
        };
        if let Some(m) = merged {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        self.bin_raw(Op::Concat, w, hi, lo)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(w > aw);
        if let Some(x) = self.cv(a) {
            return self.c(w, x);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Mul && self.cv(n.b).is_none() && self.sig(n.a) + self.sig(n.b) <= n.w {
            let p = self.zext(n.a, w);
            let q = self.zext(n.b, w);
            return self.mul(p, q);
        }
        self.raw(Node { op: Op::ZExt, w, a, b: 0, c: 0 })
    }
    pub fn sext_e(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            return self.c(w, sext(x, aw) as u128);
        }
        let n = self.n(a);
        if n.op == Op::ZExt || self.sig(a) < aw {
            return self.zext(a, w);
        }
        if n.op == Op::SExt {
            return self.sext_e(n.a, w);
        }
        self.raw(Node { op: Op::SExt, w, a, b: 0, c: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        debug_assert_eq!(self.w(a), self.w(b));
        if a == b {
            return self.c(1, 1);
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(1, (x == y) as u128),
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                if w == 1 {
                    return if y == 1 { a } else { self.not(a) };
                }
                if y > mask(self.sig(a)) {
                    return self.c(1, 0);
                }
                let n = self.n(a);
                match n.op {
                    Op::ZExt => {
                        let wi = self.w(n.a);
                        let k = self.c(wi, y);
                        return self.eq(n.a, k);
                    }
                    Op::SExt => {
                        let wi = self.w(n.a);
                        if sext(y & mask(wi), wi) as u128 & mask(w) != y {
                            return self.c(1, 0);
                        }
                        let k = self.c(wi, y);
                        return self.eq(n.a, k);
                    }
                    Op::Add => {
                        if let Some(x) = self.cv(n.b) {
                            let k = self.c(w, y.wrapping_sub(x));
                            return self.eq(n.a, k);
                        }
                    }
                    Op::Sub => {
                        if let Some(x) = self.cv(n.a) {
                            let k = self.c(w, x.wrapping_sub(y));
                            return self.eq(n.b, k);
                        }
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    Op::Xor => {
                        if let Some(x) = self.cv(n.b) {
                            let k = self.c(w, x ^ y);
                            return self.eq(n.a, k);
                        }
                        if y == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    Op::Concat => {
                        let wb = self.w(n.b);
                        let kl = self.c(wb, y);
                        let kh = self.c(w - wb, y >> wb);
                        let p = self.eq(n.a, kh);
                        let q = self.eq(n.b, kl);
                        return self.and(p, q);
                    }
                    Op::Ite => {
                        let (p, q) = (self.cv(n.b), self.cv(n.c));
                        if p.is_some() || q.is_some() {
                            let x = self.eq(n.b, b);
                            let z = self.eq(n.c, b);
                            return self.ite(n.a, x, z);
                        }
                    }
                    Op::Extract if n.b == 0 && y <= 4096 => {
                        // low part of a product that is exact in a wider width
                        let x = self.n(n.a);
                        if x.op == Op::Mul && self.cv(x.b).is_none() && self.sig(x.a) + self.sig(x.b) <= x.w && w >= 32 {
                            let kk = self.c(x.w, y);
                            let small = self.eq(n.a, kk);
                            let hi = self.extract(n.a, w, x.w - w);
                            let z = self.c(x.w - w, 0);
                            let hz = self.eq(hi, z);
                            let over = self.not(hz);
                            if self.cv(small).is_none() {
                                self.implies.insert(small, hz);
                                if y != 0 && w <= 64 && self.sig(x.a) <= w && self.sig(x.b) <= w {
                                    let p = self.extract(x.a, 0, w);
                                    let q = self.extract(x.b, 0, w);
                                    self.factors.insert(small, (p, q));
                                }
                            }
                            let raw = self.bin_raw(Op::Eq, 1, a, b);
                            let big = self.and(over, raw);
                            return self.or(small, big);
                        }
                    }
                    Op::Mul if self.cv(n.b).is_none() => {
                        if w >= 16 && y <= 4096 && self.sig(n.a) + self.sig(n.b) <= w {
                            let z = self.c(w, 0);
                            if y == 0 {
                                let p = self.eq(n.a, z);
                                let q = self.eq(n.b, z);
                                let r = self.or(p, q);
                                self.means.insert(r, (a, 0));
                                return r;
                            }
                            // put the simpler factor first
                            let mut r = self.c(1, 0);
                            for d in 1..=y {
                                if y % d == 0 {
                                    let kd = self.c(w, d);
                                    let ke = self.c(w, y / d);
                                    let p = self.eq(n.a, kd);
                                    let q = self.eq(n.b, ke);
                                    let pq = self.and(p, q);
                                    r = self.or(r, pq);
                                }
                            }
                            if self.cv(r).is_none() && w <= 64 {
                                self.means.insert(r, (a, y as u64));
                            }
                            if self.cv(r).is_none() && w > 64 {
                                // arithmetic in a wider width that cannot wrap
                                let low = self.extract(a, 0, 64);
                                self.means.insert(r, (low, y as u64));
                                if self.sig(n.a) <= 64 && self.sig(n.b) <= 64 {
                                    let p = self.extract(n.a, 0, 64);
                                    let q = self.extract(n.b, 0, 64);
                                    self.factors.insert(r, (p, q));
                                }
                            }
                            return r;
                        }
                    }
                    Op::Mul => {
                        if let Some(m) = self.cv(n.b) {
                            // exact when no wrap is possible
                            if m != 0 && self.sig(n.a) + self.sig(n.b) <= w {
                                if y % m != 0 {
                                    return self.c(1, 0);
                                }
                                let k = self.c(w, y / m);
                                return self.eq(n.a, k);
                            }
                            if m != 0 {
                                // x * (odd * 2^k) == y: the low bits of x are determined
                                let k = m.trailing_zeros() as u16;
                                if y & mask(k) != 0 {
                                    return self.c(1, 0);
                                }
                                let odd = m >> k;
                                let mut inv: u128 = 1;
                                for _ in 0..8 {
                                    inv = inv.wrapping_mul(2u128.wrapping_sub(odd.wrapping_mul(inv)));
                                }
                                let lo = self.extract(n.a, 0, w - k);
                                let v = self.c(w - k, (y >> k).wrapping_mul(inv));
                                return self.eq(lo, v);
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.eq(na.a, nb.a);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                    let p = self.eq(na.a, nb.a);
                    let q = self.eq(na.b, nb.b);
                    return self.and(p, q);
                }
                if na.op == Op::Add && nb.op == Op::Add {
                    if na.b == nb.b {
                        return self.eq(na.a, nb.a);
                    }
                }
                if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                    let p = self.eq(na.b, nb.b);
                    let q = self.eq(na.c, nb.c);
                    return self.ite(na.a, p, q);
                }
            }
        }
        let (a, b) = if a >= b { (a, b) } else { (b, a) };
        // keep constants on the right
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        self.bin_raw(Op::Eq, 1, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let t = self.eq(a, b);
        self.not(t)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(1, 0);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(1, (x < y) as u128);
        }
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.c(1, 0);
            }
            if y == 1 {
                let z = self.c(w, 0);
                return self.eq(a, z);
            }
            if y > 4096 && y.is_power_of_two() && self.n(a).op == Op::Mul && self.cv(self.n(a).b).is_none() {
                let k = y.trailing_zeros() as u16;
                let hi = self.extract(a, k, w - k);
                let z = self.c(w - k, 0);
                return self.eq(hi, z);
            }
            if mask(self.sig(a)) < y {
                return self.c(1, 1);
            }
            let n = self.n(a);
            if n.op == Op::ZExt {
                let wi = self.w(n.a);
                let k = self.c(wi, y);
                return self.ult(n.a, k);
            }
            if n.op == Op::Mul && w >= 16 && y <= 64 && self.cv(n.b).is_none() && self.sig(n.a) + self.sig(n.b) <= w {
                let z = self.c(w, 0);
                let mut r = self.eq(n.a, z);
                let q = self.eq(n.b, z);
                r = self.or(r, q);
                for d in 1..y {
                    let kd = self.c(w, d);
                    let ke = self.c(w, (y - 1) / d + 1);
                    let p = self.eq(n.a, kd);
                    let q = self.ult(n.b, ke);
                    let pq = self.and(p, q);
                    r = self.or(r, pq);
                }
                return r;
            }
            if n.op == Op::Extract && n.b == 0 && w >= 32 && y <= 64 {
                let x = self.n(n.a);
                if x.op == Op::Mul && self.cv(x.b).is_none() && self.sig(x.a) + self.sig(x.b) <= x.w {
                    let kk = self.c(x.w, y);
                    let small = self.ult(n.a, kk);
                    let hi = self.extract(n.a, w, x.w - w);
                    let z = self.c(x.w - w, 0);
                    let hz = self.eq(hi, z);
                    let over = self.not(hz);
                    if self.cv(small).is_none() {
                        self.implies.insert(small, hz);
                    }
                    let raw = self.bin_raw(Op::Ult, 1, a, b);
                    let big = self.and(over, raw);
                    return self.or(small, big);
                }
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let p = self.ult(n.b, b);
                let q = self.ult(n.c, b);
                return self.ite(n.a, p, q);
            }
        }
        if let Some(x) = self.cv(a) {
            if x == mask(w) {
                return self.c(1, 0);
            }
            if x >= mask(self.sig(b)) {
                return self.c(1, 0);
            }
            if x == 0 {
                let t = self.eq(b, a);
                return self.not(t);
            }
            if x >= 4096 && (x + 1).is_power_of_two() && self.n(b).op == Op::Mul && self.cv(self.n(b).b).is_none() {
                let k = self.c(w, x + 1);
                let t = self.ult(b, k);
                return self.not(t);
            }
            let n = self.n(b);
            if n.op == Op::ZExt {
                let wi = self.w(n.a);
                let k = self.c(wi, x);
                return self.ult(k, n.a);
            }
            if x < 64 && w >= 16 && (n.op == Op::Mul || (n.op == Op::Extract && n.b == 0 && self.n(n.a).op == Op::Mul)) {
                let m = if n.op == Op::Mul { n } else { self.n(n.a) };
                if self.cv(m.b).is_none() && self.sig(m.a) + self.sig(m.b) <= m.w {
                    let k = self.c(w, x + 1);
                    let t = self.ult(b, k);
                    return self.not(t);
                }
            }
            if n.op == Op::Ite && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                let p = self.ult(a, n.b);
                let q = self.ult(a, n.c);
                return self.ite(n.a, p, q);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            let m = wa.max(wb);
            if m < w {
                let p = self.zext(na.a, m);
                let q = self.zext(nb.a, m);
                return self.ult(p, q);
            }
        }
        self.bin_raw(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(1, 0);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(1, (sext(x, w) < sext(y, w)) as u128);
        }
        if w > 1 && self.sig(a) < w && self.sig(b) < w {
            return self.ult(a, b);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        self.bin_raw(Op::Slt, 1, a, b)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let t = self.slt(b, a);
        self.not(t)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let t = self.not(c);
                    return self.and(t, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let t = self.not(c);
                    return self.or(t, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        // both arms zero-extended
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let t = self.ite(c, na.a, nb.a);
            return self.zext(t, w);
        }
        self.raw(Node { op: Op::Ite, w, a: c, b: a, c: b })
    }

    // ---- evaluation ----
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if self.gen_model != m.id {
            self.gen += 1;
            self.gen_model = m.id;
        }
        let g = self.gen;
        let mut stack: Vec<E> = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.memo_gen[xi] == g {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi];
            macro_rules! need {
                ($x:expr) => {{
                    let i = $x as usize;
                    if self.memo_gen[i] != g {
                        stack.push($x);
                        continue;
                    }
                    self.memo_val[i]
                }};
            }
            let v: u128 = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => m.get(n.a) as u128 & mask(n.w),
                Op::Ite => {
                    let c = need!(n.a);
                    if c == 1 {
                        need!(n.b)
                    } else {
                        need!(n.c)
                    }
                }
                Op::Extract => need!(n.a) >> n.b,
                Op::ZExt => need!(n.a),
                Op::SExt => {
                    let v = need!(n.a);
                    sext(v, self.nodes[n.a as usize].w) as u128
                }
                _ => {
                    let a = need!(n.a);
                    let b = need!(n.b);
                    let wa = self.nodes[n.a as usize].w;
                    match n.op {
                        Op::Add => a.wrapping_add(b),
                        Op::Sub => a.wrapping_sub(b),
                        Op::Mul => a.wrapping_mul(b),
                        Op::UDiv => {
                            if b == 0 {
                                mask(wa)
                            } else {
                                a / b
                            }
                        }
                        Op::URem => {
                            if b == 0 {
                                a
                            } else {
                                a % b
                            }
                        }
                        Op::SDiv => {
                            let (x, y) = (sext(a, wa), sext(b, wa));
                            if y == 0 {
                                if x < 0 {
                                    1
                                } else {
                                    mask(wa)
                                }
                            } else {
                                x.wrapping_div(y) as u128
                            }
                        }
                        Op::SRem => {
                            let (x, y) = (sext(a, wa), sext(b, wa));
                            if y == 0 {
                                a
                            } else {
                                x.wrapping_rem(y) as u128
                            }
                        }
                        Op::And => a & b,
                        Op::Or => a | b,
                        Op::Xor => a ^ b,
                        Op::Shl => {
                            if b >= wa as u128 {
                                0
                            } else {
                                a << b
                            }
                        }
                        Op::LShr => {
                            if b >= wa as u128 {
                                0
                            } else {
                                a >> b
                            }
                        }
                        Op::AShr => {
                            let k = if b >= wa as u128 { wa as u128 - 1 } else { b };
                            (sext(a, wa) >> k) as u128
                        }
                        Op::Eq => (a == b) as u128,
                        Op::Ult => (a < b) as u128,
                        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
                        Op::Concat => (a << self.nodes[n.b as usize].w) | b,
                        o if is_fp(o) => fp_value(o, n.c, wa, n.w, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            self.memo_val[xi] = v & mask(n.w);
            self.memo_gen[xi] = g;
            stack.pop();
        }
        self.memo_val[e as usize]
    }

    /// Sorted set of variables occurring in `e`.
    pub fn varset(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.varsets.get(&e) {
            return s.clone();
        }
        let mut seen: std::collections::HashSet<E> = std::collections::HashSet::new();
        let mut out: Vec<u32> = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if x != e {
                if let Some(s) = self.varsets.get(&x) {
                    out.extend(s.iter());
                    continue;
                }
            }
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.a),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c);
                }
                Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                _ => {
                    st.push(n.a);
                    st.push(n.b);
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.varsets.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}", self.consts[n.a as usize]),
            Op::Var => self.vars[n.a as usize].name.clone(),
            _ if depth == 0 => "..".into(),
            Op::Ite => format!("ite({}, {}, {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

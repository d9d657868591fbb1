//! Differential self-test of the expression simplifier and the solver translation.
use crate::expr::*;
use crate::smt::*;
use std::rc::Rc;

struct Rng(u64);
impl Rng {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
}
fn reference(op: u32, w: u16, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    m & match op {
        0 => a.wrapping_add(b),
        1 => a.wrapping_sub(b),
        2 => a.wrapping_mul(b),
        3 => if b == 0 { m } else { a / b },
        4 => if b == 0 { a } else { a % b },
        5 => a & b,
        6 => a | b,
        7 => a ^ b,
        8 => if b >= w as u128 { 0 } else { a << b },
        9 => if b >= w as u128 { 0 } else { a >> b },
        10 => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
        11 => (a == b) as u128,
        12 => (a < b) as u128,
        13 => (sext(a, w) < sext(b, w)) as u128,
        14 => if c & 1 == 1 { a } else { b },
        _ => unreachable!(),
    }
}
pub fn run() -> i32 {
    let mut r = Rng(0x9e3779b97f4a7c15);
    let mut smt = Smt::new(20000);
    let mut bad = 0;
    for round in 0..400 {
        let mut p = Pool::new();
        let w: u16 = [1, 8, 16, 32, 64][(r.n() % 5) as usize];
        let mut vals: Vec<u64> = vec![];
        // (expr, value under the model) computed independently of the simplifier
        let mut items: Vec<(E, u128)> = vec![];
        for k in 0..3 {
            let e = p.var(w, format!("x{}", k), false);
            let v = match r.n() % 4 {
                0 => 0,
                1 => mask(w) as u64,
                2 => r.n() % 5 & mask(w) as u64,
                _ => r.n() & mask(w) as u64,
            };
            vals.push(v);
            items.push((e, v as u128));
        }
        let m = Model { id: round + 1, vals: Rc::new(vals) };
        for _ in 0..60 {
            let pick = |r: &mut Rng, items: &Vec<(E, u128)>, p: &mut Pool, w: u16| -> (E, u128) {
                if r.n() % 4 == 0 {
                    let c = match r.n() % 6 {
                        0 => 0,
                        1 => 1,
                        2 => mask(w),
                        3 => 1u128 << (r.n() % w as u64),
                        4 => (r.n() % (w as u64 + 2)) as u128,
                        _ => r.n() as u128,
                    } & mask(w);
                    return (p.c(w, c), c);
                }
                let cand: Vec<(E, u128)> = items.iter().filter(|x| p.w(x.0) == w).copied().collect();
                cand[(r.n() % cand.len() as u64) as usize]
            };
            let op = (r.n() % 20) as u32;
            let it = if op < 14 {
                let (a, av) = pick(&mut r, &items, &mut p, w);
                let (b, bv) = pick(&mut r, &items, &mut p, w);
                let e = match op {
                    0 => p.add(a, b),
                    1 => p.sub(a, b),
                    2 => p.mul(a, b),
                    3 => p.udiv(a, b),
                    4 => p.urem(a, b),
                    5 => p.and(a, b),
                    6 => p.or(a, b),
                    7 => p.xor(a, b),
                    8 => p.shl(a, b),
                    9 => p.lshr(a, b),
                    10 => p.ashr(a, b),
                    11 => p.eq(a, b),
                    12 => p.ult(a, b),
                    _ => p.slt(a, b),
                };
                let v = reference(op, w, av, bv, 0);
                if op >= 11 && w > 1 {
                    let z = p.zext(e, w);
                    (z, v)
                } else {
                    (e, v)
                }
            } else if op == 14 {
                let (a, av) = pick(&mut r, &items, &mut p, w);
                let (b, bv) = pick(&mut r, &items, &mut p, w);
                let (c, cv) = pick(&mut r, &items, &mut p, w);
                let c1 = p.extract(c, 0, 1);
                (p.ite(c1, a, b), reference(14, w, av, bv, cv))
            } else if op == 19 && w >= 16 {
                // exact products compared with small constants
                let mut f = |r: &mut Rng, p: &mut Pool| {
                    let (a, av) = pick(r, &items, p, w);
                    let k = 1 + (r.n() % (w as u64 / 3)) as u16;
                    let x = p.extract(a, 0, k);
                    (p.zext(x, w), av & mask(k))
                };
                let (a, av) = f(&mut r, &mut p);
                let (b, bv) = f(&mut r, &mut p);
                let (c, cv) = f(&mut r, &mut p);
                let ab = p.mul(a, b);
                let m = p.mul(ab, c);
                let v = av * bv * cv & mask(w);
                let (m, v) = if r.n() % 3 == 0 && w == 64 {
                    // low half of a wide product
                    let (x, xv) = pick(&mut r, &items, &mut p, w);
                    let (y, yv) = pick(&mut r, &items, &mut p, w);
                    let xx = p.zext(x, 128);
                    let yy = p.zext(y, 128);
                    let m = p.mul(xx, yy);
                    (p.extract(m, 0, 64), xv.wrapping_mul(yv) & mask(64))
                } else {
                    (m, v)
                };
                let k = if r.n() % 2 == 0 && v < 4000 { v } else { (r.n() % 70) as u128 };
                let ke = p.c(w, k);
                let (t, tv) = match r.n() % 5 {
                    0 | 1 => (p.eq(m, ke), v == k),
                    2 => (p.ult(m, ke), v < k),
                    3 => (p.ult(ke, m), k < v),
                    _ => {
                        let d = p.urem(ke, a);
                        let q = p.udiv(ke, b);
                        let t = p.add(d, q);
                        let rd = if av == 0 { k } else { k % av };
                        let rq = if bv == 0 { mask(w) } else { k / bv };
                        let kk = p.c(w, rd.wrapping_add(rq));
                        (p.eq(t, kk), true)
                    }
                };
                (p.zext(t, w), tv as u128)
            } else if w > 1 {
                let op = 15 + op % 4;
                let (a, av) = pick(&mut r, &items, &mut p, w);
                let lo = (r.n() % w as u64) as u16;
                let n = 1 + (r.n() % (w - lo) as u64) as u16;
                let x = p.extract(a, lo, n);
                let xv = (av >> lo) & mask(n);
                match op {
                    15 => (p.zext(x, w), xv),
                    16 => (p.sext_e(x, w), sext(xv, n) as u128 & mask(w)),
                    _ => {
                        if n == w {
                            (x, xv)
                        } else {
                            let (b, bv) = pick(&mut r, &items, &mut p, w);
                            let y = p.extract(b, 0, w - n);
                            if op == 17 {
                                (p.concat(x, y), (xv << (w - n)) | (bv & mask(w - n)))
                            } else {
                                (p.concat(y, x), ((bv & mask(w - n)) << n) | xv)
                            }
                        }
                    }
                }
            } else {
                continue;
            };
            if p.eval(it.0, &m) != it.1 {
                eprintln!("selftest: simplifier wrong: op {} w {} {} => {:#x}, expected {:#x}", op, w, p.show(it.0, 4), p.eval(it.0, &m), it.1);
                bad += 1;
            }
            items.push(it);
        }
        // the translation: e == its value must be consistent with the variables' values
        if round % 4 == 0 && w < 64 {
            let (e, v) = *items.last().unwrap();
            let mut cons = vec![];
            for k in 0..3 {
                let ve = p.var_expr[k];
                let c = p.c(w, m.get(k as u32) as u128);
                cons.push(p.eq(ve, c));
            }
            let c = p.c(w, v);
            let ne = p.ne(e, c);
            if p.cv(ne) != Some(0) {
                let mut smt1 = Smt::new(20000);
                cons.push(ne);
                if !matches!(smt1.check(&mut p, &cons), Res::Unsat) {
                    eprintln!("selftest: solver disagrees on {}", p.show(e, 4));
                    bad += 1;
                }
            }
        }
    }
    // floating point: the solver must agree with the host on special and random values
    for round in 0..160u64 {
        let mut p = Pool::new();
        let wide = round % 2 == 1;
        let w: u16 = if wide { 64 } else { 32 };
        let special: [u64; 10] = if wide {
            [0, 1 << 63, 0x3ff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 1, 0x000f_ffff_ffff_ffff, 0x4330_0000_0000_0001, 0xbfe0_0000_0000_0000, 0x41df_ffff_ff80_0000]
        } else {
            [0, 1 << 31, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 1, 0x007f_ffff, 0x4b00_0001, 0xbf00_0000, 0x4eff_ffff]
        };
        let mut val = |r: &mut Rng| match r.n() % 3 {
            0 => special[(r.n() % 10) as usize],
            1 => {
                // moderate exponents
                let m = r.n();
                if wide {
                    (0x3f0 + m % 0x40) << 52 | m >> 12
                } else {
                    ((0x78 + m % 0x20) << 23 | (m >> 32) % (1 << 23)) as u64
                }
            }
            _ => r.n() & mask(w) as u64,
        };
        let (a, b) = (val(&mut r), val(&mut r));
        let nan = |v: u64| if wide { f64::from_bits(v).is_nan() } else { f32::from_bits(v as u32).is_nan() };
        if nan(a) || nan(b) {
            continue;
        }
        let (x, y) = (p.var(w, "x".into(), false), p.var(w, "y".into(), false));
        let m = Model { id: 1000 + round, vals: Rc::new(vec![a, b]) };
        let f = if wide { f64::from_bits(a) } else { f32::from_bits(a as u32) as f64 };
        let ops = [(Op::FAdd, 0), (Op::FSub, 0), (Op::FMul, 0), (Op::FDiv, 0), (Op::FRound, (round / 2 % 5) as u32), (Op::FromS, 0), (Op::FromU, 0), (Op::ToS, 0), (Op::ToU, 0), (Op::FSqrt, 0)];
        let (op, mode) = ops[(r.n() % 9) as usize];
        if op == Op::ToS && f.abs() >= 1e9 || op == Op::ToU && !(f >= 0.0 && f < 1e9) {
            continue;
        }
        let e = if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) { p.fop(op, mode, w, x, y) } else { p.fop(op, mode, w, x, x) };
        let v = p.eval(e, &m);
        let mut cons = vec![];
        for (k, v) in [(x, a), (y, b)] {
            let c = p.c(w, v as u128);
            cons.push(p.eq(k, c));
        }
        let c = p.c(w, v);
        cons.push(p.ne(e, c));
        let mut smt1 = Smt::new(20000);
        if !matches!(smt1.check(&mut p, &cons), Res::Unsat) {
            eprintln!("selftest: solver disagrees on {:?} {} of {:#x} {:#x}: host {:#x}", op, mode, a, b, v);
            bad += 1;
        }
    }
    let _ = &mut smt;
    println!("selftest: {} problem(s)", bad);
    (bad != 0) as i32
}

//! Differential test of the rewriter: random expressions are built with and without rewriting
//! and must evaluate alike; z3 must agree with the evaluator.
use crate::expr::*;
use crate::z3::*;

struct Rng(u64);
impl Rng {
    fn n(&mut self, k: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11) % k
    }
}

fn gen(a: &mut Arena, seedpath: &mut Rng, w: u16, d: u32) -> Id {
    let r = seedpath;
    if d == 0 || r.n(8) == 0 {
        if r.n(3) == 0 {
            let k = match r.n(5) {
                0 => 0,
                1 => 1,
                2 => u128::MAX,
                3 => 1u128 << r.n(w as u64),
                _ => r.n(1 << 40) as u128,
            };
            return a.konst(k, w);
        }
        // variables are 8 bits wide
        let v = a.intern_var(r.n(3) as u32, 8, false);
        return match w.cmp(&8) {
            std::cmp::Ordering::Equal => v,
            std::cmp::Ordering::Less => {
                let lo = r.n((8 - w + 1) as u64) as u16;
                a.extract(v, lo, w)
            }
            _ => {
                if r.n(2) == 0 {
                    a.zext(v, w)
                } else {
                    a.sext(v, w)
                }
            }
        };
    }
    if w == 1 {
        let ww = [1, 8, 16, 32, 64][r.n(5) as usize];
        match r.n(9) {
            0 => {
                let x = gen(a, r, 1, d - 1);
                a.not(x)
            }
            1..=3 => {
                let op = [Op::And, Op::Or, Op::Xor][r.n(3) as usize];
                let x = gen(a, r, 1, d - 1);
                let y = gen(a, r, 1, d - 1);
                a.bin(op, x, y)
            }
            _ => {
                let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][r.n(5) as usize];
                let x = gen(a, r, ww, d - 1);
                let y = gen(a, r, ww, d - 1);
                a.bin(op, x, y)
            }
        }
    } else {
        match r.n(10) {
            0 => {
                let c = gen(a, r, 1, d - 1);
                let x = gen(a, r, w, d - 1);
                let y = gen(a, r, w, d - 1);
                a.ite(c, x, y)
            }
            1 => {
                let k = 1 + r.n(w as u64 - 1) as u16;
                let x = gen(a, r, k, d - 1);
                let y = gen(a, r, w - k, d - 1);
                a.concat(x, y)
            }
            2 => {
                let big = w + r.n(20) as u16;
                let lo = r.n((big - w + 1) as u64) as u16;
                let x = gen(a, r, big, d - 1);
                a.extract(x, lo, w)
            }
            3 => {
                let k = 1 + r.n(w as u64) as u16;
                let x = gen(a, r, k, d - 1);
                if r.n(2) == 0 {
                    a.zext(x, w)
                } else {
                    a.sext(x, w)
                }
            }
            4 => {
                let x = gen(a, r, w, d - 1);
                a.not(x)
            }
            _ => {
                let op = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Add, Op::And, Op::Or][r.n(16) as usize];
                let x = gen(a, r, w, d - 1);
                let y = gen(a, r, w, d - 1);
                a.bin(op, x, y)
            }
        }
    }
}

pub fn run(n: u64) -> i32 {
    let mk = || {
        let mut a = Arena::new(Mode::Uf);
        for i in 0..3 {
            a.new_var(format!("v{}", i), 8, false);
        }
        a
    };
    let mut s = mk();
    let mut u = mk();
    u.nosimp = true;
    let mut z = Z3::new(5_000_000);
    let mut bad = 0;
    let mut zq = 0;
    for i in 0..n {
        let seed = 0x9E3779B97F4A7C15u64.wrapping_mul(i + 1) | 1;
        let w = [1u16, 8, 16, 32, 64, 13, 40][(i % 7) as usize];
        let d = 2 + (i % 4) as u32;
        let x = gen(&mut s, &mut Rng(seed), w, d);
        let y = gen(&mut u, &mut Rng(seed), w, d);
        let mut r = Rng(seed ^ 0x1234567);
        for _ in 0..12 {
            let env = [r.n(256) as u128, r.n(256) as u128, r.n(256) as u128];
            s.begin_eval();
            let p = s.eval(x, &|v| env[v as usize]);
            u.begin_eval();
            let q = u.eval(y, &|v| env[v as usize]);
            if p != q {
                eprintln!("MISMATCH seed {} w {} env {:?}: {:#x} vs {:#x}\n {}\n {}", seed, w, env, p, q, s.show(x, 8), u.show(y, 8));
                bad += 1;
                break;
            }
        }
        if i % 10 == 0 && bad == 0 {
            // z3 agrees with the evaluator on one assignment (translation of the rewritten form)
            let env = [r.n(256) as u128, r.n(256) as u128, r.n(256) as u128];
            s.begin_eval();
            let p = s.eval(x, &|v| env[v as usize]);
            let mut pc = vec![];
            for v in 0..3 {
                let id = s.intern_var(v, 8, false);
                let e = s.eqk(id, env[v as usize]);
                pc.push(e);
            }
            let e = s.eqk(x, p);
            let ne = s.not(e);
            let (r1, _) = z.check(&s, &pc, Some(ne), None);
            zq += 1;
            if r1 != Res::Unsat {
                eprintln!("Z3 DISAGREES seed {} {:?} {}", seed, r1, s.show(x, 8));
                bad += 1;
            }
        }
        if bad > 5 {
            break;
        }
    }
    // float folding and comparison formulas against native floats
    let specials = [0.0f32, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45, 3.5, -2.25, f32::MAX];
    let mut zu = Z3::new(5_000_000);
    let mut zf = Z3::new(5_000_000);
    let mut au = Arena::new(Mode::Uf);
    let mut af = Arena::new(Mode::Fp);
    for (ar, zz) in [(&mut au, &mut zu), (&mut af, &mut zf)] {
        ar.new_var("a".into(), 32, true);
        ar.new_var("b".into(), 32, true);
        for x in specials {
            for y in specials {
                let (va, vb) = (ar.intern_var(0, 32, true), ar.intern_var(1, 32, true));
                let (ka, kb) = (ar.eqk(va, x.to_bits() as u128), ar.eqk(vb, y.to_bits() as u128));
                for op in [Op::FLt, Op::FLe, Op::FEq, Op::FUno] {
                    let c = ar.fcmp(op, va, vb);
                    let want = fcmp(op, x.to_bits() as u128, y.to_bits() as u128, 32);
                    let c2 = if want { ar.not(c) } else { c };
                    let (r, _) = zz.check_once(ar, &[ka, kb], Some(c2), None);
                    zq += 1;
                    if r != Res::Unsat {
                        eprintln!("FCMP {:?} {} {} {:?}", op, x, y, r);
                        bad += 1;
                    }
                }
                if ar.mode == Mode::Fp {
                    for op in [Op::FAdd, Op::FMul, Op::FDiv] {
                        let e = ar.fbin(op, va, vb);
                        let k = fbin(op, x.to_bits() as u128, y.to_bits() as u128, 32);
                        if f_of(k, 32).is_nan() {
                            continue;
                        }
                        let q = ar.eqk(e, k);
                        let nq = ar.not(q);
                        let (r, _) = zz.check_once(ar, &[ka, kb], Some(nq), None);
                        zq += 1;
                        if r != Res::Unsat {
                            eprintln!("FBIN {:?} {} {} {:?}", op, x, y, r);
                            bad += 1;
                        }
                    }
                }
            }
        }
    }
    println!("selftest: {} expressions, {} z3 queries, {} mismatches", n, zq, bad);
    if bad > 0 {
        1
    } else {
        0
    }
}

//! C11: homomorphic computation histories against a lockstep message model.
use super::c10::{judge, some_key};
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, Encoding, Plaintext, PublicKey, SecretKey, dot_product_scalar};
use fhe_traits::{FheDecrypter, FheEncoder, FheEncoderVariableTime, FheEncrypter, PublicData, VariableTime};
use num_bigint::{BigInt, BigUint};
use num_traits::{ToPrimitive, Zero};
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C11",
        rule: "a case is a history of 4..20 homomorphic operations over a pool of registers that starts with fresh secret-key, public-key and zero ciphertexts at a level; operations and operand forms (owned, borrowed, assigning, aliased) are drawn at random; the same history runs on ring elements modulo t. After every operation the phase is recomputed with schoolbook arithmetic, its noise compared with the analytical bound computed from the measured noises of the operands, the library's decryption with the model, and every borrowed operand with its earlier value. Distinct = distinct (parameters, operation sequence); non-trivial = at least two operations were judged.",
        workloads: vec![
            Workload { name: "linear", weight: 3, max: 0, f: |cx| history(cx, false) },
            Workload { name: "multiplicative", weight: 2, max: 0, f: |cx| history(cx, true) },
            Workload { name: "dot-product", weight: 1, max: 0, f: dot },
        ],
        required: vec![
            "op:add", "op:sub", "op:neg", "op:add-pt", "op:sub-pt", "op:pt-sub", "op:mul-pt", "op:mul", "op:square", "op:dot", "op:zero-operand", "op:switch",
            "aliased-operands", "assigning-forms", "owned-forms", "long-ciphertexts", "depth-2-products", "dot-long", "dot-pt-long", "big-t", "lower-levels",
        ],
        finish: None,
    }
}

#[derive(Clone)]
struct Reg {
    ct: Ciphertext,
    m: Vec<BigUint>,
    e: BigInt,
    level: usize,
    depth: usize,
}

/// A plaintext of some origin, with its message.
pub fn some_pt(cx: &mut Cx, f: &Fix, level: usize, sk: &SecretKey) -> R<(Plaintext, Vec<BigUint>)> {
    let m = f.rand_msg(cx);
    let v = |m: &[BigUint]| m.iter().map(|x| x.to_u64().unwrap()).collect::<Vec<_>>();
    match cx.u(6) {
        0 if f.simd => {
            let pt = Plaintext::try_encode(&v(&m), Encoding::simd_at_level(level), &f.par).lib("encode")?;
            let c = f.coeffs(&pt)?;
            Ok((pt, c))
        }
        1 if f.ts.is_some() => {
            let vt = VariableTime::new(PublicData::assert_public());
            let pt = Plaintext::try_encode_vt(v(&m).as_slice(), Encoding::poly_at_level(level), &f.par, vt).lib("encode-vt")?;
            Ok((pt, m))
        }
        2 => {
            let e = if f.simd && cx.coin(1, 2) { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) };
            Ok((Plaintext::zero(e, &f.par).lib("zero")?, vec![BigUint::zero(); f.n]))
        }
        3 if f.threshold(level) > b_sk(f) => {
            let ct = sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("encrypt")?;
            Ok((sk.try_decrypt(&ct).lib("decrypt")?, m))
        }
        4 => {
            // a short, small plaintext: little noise growth
            let k = cx.range(0, 3.min(f.n));
            let mut m: Vec<BigUint> = (0..k).map(|_| big(cx.u64() % 4) % &f.t).collect();
            m.resize(f.n, BigUint::zero());
            Ok((f.encode(&m, level)?, m))
        }
        _ => Ok((f.encode(&m, level)?, m)),
    }
}
pub fn m_l1(m: &[BigUint]) -> BigInt {
    m.iter().map(int).sum()
}

/// Noise bound of a product of two ciphertexts (before relinearization).
pub fn b_mul(f: &Fix, level: usize, s: &[i64], a: (&BigInt, &[BigUint], usize), b: (&BigInt, &[BigUint], usize)) -> BigInt {
    let (e1, m1, l1_) = a;
    let (e2, m2, l2) = b;
    let q = int(f.big_q(level));
    let nt = int(&f.t) * BigInt::from(f.n);
    let k1 = pow_sum(s, l1_) / 2 + 2;
    let k2 = pow_sum(s, l2) / 2 + 2;
    let (e1, e2) = (e1 + 1, e2 + 1);
    m_l1(m1) * &e2 + m_l1(m2) * &e1 + &nt * (&e1 * &e2) / &q + &nt * (k2 * &e1 + k1 * &e2) + pow_sum(s, l1_ + l2 - 1) + 4
}

fn encrypt(cx: &mut Cx, f: &Fix, sk: &SecretKey, s: &[i64], pk: &PublicKey, level: usize) -> R<Reg> {
    let (pt, m) = some_pt(cx, f, level, sk)?;
    let ct: Ciphertext = if cx.coin(1, 2) {
        sk.try_encrypt(&pt, &mut cx.fork()).lib("sk.try_encrypt")?
    } else {
        pk.try_encrypt(&pt, &mut cx.fork()).lib("pk.try_encrypt")?
    };
    let ph = phase(&ct, s, &f.crt[level]);
    let e = f.noise_inf(&ph, &m, level);
    Ok(Reg { ct, m, e, level, depth: 0 })
}

fn history(cx: &mut Cx, mult: bool) -> R {
    let w = if mult {
        Want { budget: 110, min_k: 2, max_k: 5, max_logn: 5, max_t: 70, ..ANY }
    } else {
        Want { budget: 30, ..ANY }
    };
    let f = fix(cx, w)?;
    let f: &Arc<_> = &f;
    let (sk, s) = some_key(cx, f)?;
    let pk = PublicKey::new(&sk, &mut cx.fork());
    let start = f.level(cx, if mult { 80 } else { 24 })?;
    let mut regs: Vec<Reg> = vec![];
    for _ in 0..3 {
        regs.push(encrypt(cx, f, &sk, &s, &pk, start)?);
    }
    let steps = cx.range(4, 20);
    let mut ops: Vec<&'static str> = vec![];
    let mut judged = 0;
    for _ in 0..steps {
        let i = cx.u(regs.len());
        let a = regs[i].clone();
        let level = a.level;
        // a partner of the same shape
        let partner = |cx: &mut Cx, regs: &[Reg], same_len: bool| -> Option<Reg> {
            let c: Vec<usize> = (0..regs.len())
                .filter(|j| regs[*j].level == level && (!same_len || regs[*j].ct.len() == a.ct.len()))
                .collect();
            if c.is_empty() { None } else { Some(regs[c[cx.u(c.len())]].clone()) }
        };
        let form = cx.u(3);
        let op = cx.u(if mult { 14 } else { 11 });
        let (name, ct, m, bound, depth): (&'static str, Ciphertext, Vec<BigUint>, BigInt, usize) = match op {
            0 | 1 => {
                let b = if cx.coin(1, 6) {
                    cx.ev("aliased-operands", 1);
                    a.clone()
                } else {
                    partner(cx, &regs, true).unwrap()
                };
                let (x, y) = (a.ct.clone(), b.ct.clone());
                let r = match (form, op) {
                    (0, 0) => &x + &y,
                    (0, _) => &x - &y,
                    (1, 0) => x.clone() + &y,
                    (1, _) => x.clone() - &y,
                    (_, 0) => {
                        let mut z = x.clone();
                        z += &y;
                        z
                    }
                    _ => {
                        let mut z = x.clone();
                        z -= &y;
                        z
                    }
                };
                check!(x == a.ct && y == b.ct, "operand-modified", "add/sub changed an operand");
                let m = if op == 0 { f.madd(&a.m, &b.m) } else { f.msub(&a.m, &b.m) };
                (if op == 0 { "add" } else { "sub" }, r, m, &a.e + &b.e + 3, a.depth.max(b.depth))
            }
            2 => {
                let x = a.ct.clone();
                let r = if form == 0 { -&x } else { -x.clone() };
                check!(x == a.ct, "operand-modified", "neg changed its operand");
                ("neg", r, f.mneg(&a.m), &a.e + 2, a.depth)
            }
            3..=6 => {
                let (pt, pm) = some_pt(cx, f, level, &sk)?;
                let keep = pt.clone();
                let x = a.ct.clone();
                let r = match (op, form) {
                    (3, 0) => &x + &pt,
                    (3, 1) => &pt + &x,
                    (3, _) => {
                        let mut z = x.clone();
                        z += &pt;
                        z
                    }
                    (4, 0) => &x - &pt,
                    (4, 1) => x.clone() - &pt,
                    (4, _) => {
                        let mut z = x.clone();
                        z -= &pt;
                        z
                    }
                    (5, _) => &pt - &x,
                    (_, 0) => &x * &pt,
                    (_, 1) => x.clone() * &pt,
                    _ => {
                        let mut z = x.clone();
                        z *= &pt;
                        z
                    }
                };
                check!(x == a.ct && pt == keep, "operand-modified", "plaintext operation changed an operand");
                match op {
                    3 => ("add-pt", r, f.madd(&a.m, &pm), &a.e + 3, a.depth),
                    4 => ("sub-pt", r, f.msub(&a.m, &pm), &a.e + 3, a.depth),
                    5 => ("pt-sub", r, f.msub(&pm, &a.m), &a.e + 4, a.depth),
                    _ => ("mul-pt", r, f.mmul(&a.m, &pm), (&a.e + 1) * m_l1(&pm) + 2, a.depth),
                }
            }
            7 => {
                // the zero ciphertext is neutral for sums and absorbs products
                let z = Ciphertext::zero(&f.par);
                let k = cx.u(if mult { 9 } else { 7 });
                let x = a.ct.clone();
                let (r, m) = match k {
                    0 => (&x + &z, a.m.clone()),
                    1 => (&z + &x, a.m.clone()),
                    2 => (&x - &z, a.m.clone()),
                    3 => (&z - &x, f.mneg(&a.m)),
                    4 => {
                        let mut y = z.clone();
                        y += &x;
                        (y, a.m.clone())
                    }
                    5 => {
                        let mut y = z.clone();
                        y -= &x;
                        (y, f.mneg(&a.m))
                    }
                    6 => {
                        let mut y = x.clone();
                        y += &z;
                        y -= &z;
                        (y, a.m.clone())
                    }
                    _ => {
                        let y = no_panic("mul-by-zero", || if k == 7 { &z * &x } else { &x * &z })?;
                        cx.ev("op:zero-operand", 1);
                        // an empty ciphertext is zero; otherwise it must decrypt to zero
                        if !y.is_empty() {
                            let d = f.dec(&sk, &y, level)?;
                            check!(d.iter().all(|v| v.is_zero()), "mul-by-zero", "product with the zero ciphertext decrypts to {}; {}", msg_str(&d), f.desc);
                        }
                        let again = no_panic("mul-by-zero", || &y + &x)?;
                        check!(again.len() == x.len(), "mul-by-zero", "sum with a product by zero has {} parts", again.len());
                        continue;
                    }
                };
                check!(x == a.ct, "operand-modified", "operation with zero changed its operand");
                ("zero-operand", r, m, &a.e + 2, a.depth)
            }
            8 => {
                if level >= f.max_level() {
                    continue;
                }
                let mut r = a.ct.clone();
                r.switch_down().lib("switch_down")?;
                let b = b_switch(&a.e, f.q[f.q.len() - 1 - level], &s, a.ct.len());
                if b > f.threshold(level + 1) {
                    continue;
                }
                let j = judge(cx, f, &sk, &s, &r, &a.m, level + 1, "switch_down")?;
                check!(j.noise <= b, "noise:switch", "noise {} after switching down exceeds {b}; {}", j.noise, f.desc);
                cx.ev("op:switch", 1);
                ops.push("switch");
                regs.push(Reg { ct: r, m: a.m.clone(), e: j.noise, level: level + 1, depth: a.depth });
                if regs.len() > 7 {
                    regs.remove(0);
                }
                continue;
            }
            9 => {
                let mut l = level;
                if cx.coin(1, 2) {
                    l = start;
                }
                let r = encrypt(cx, f, &sk, &s, &pk, l)?;
                regs.push(r);
                if regs.len() > 7 {
                    regs.remove(0);
                }
                continue;
            }
            10 => {
                // dot product over registers of the same shape
                let c = cx.range(1, 6);
                let mut cts = vec![];
                let mut pts = vec![];
                let mut m = vec![BigUint::zero(); f.n];
                let mut b = BigInt::from(2);
                let mut depth = 0;
                for _ in 0..c {
                    let r = partner(cx, &regs, true).unwrap();
                    let (pt, pm) = some_pt(cx, f, level, &sk)?;
                    m = f.madd(&m, &f.mmul(&r.m, &pm));
                    b += (&r.e + 1) * m_l1(&pm) + 2;
                    depth = depth.max(r.depth);
                    cts.push(r.ct);
                    pts.push(pt);
                }
                let r = dot_product_scalar(cts.iter(), pts.iter()).lib("dot_product_scalar")?;
                ("dot", r, m, b, depth)
            }
            _ => {
                let sq = cx.coin(1, 3);
                let b = if sq { a.clone() } else { partner(cx, &regs, false).unwrap() };
                if a.ct.len() + b.ct.len() > 6 {
                    continue;
                }
                let bd = b_mul(f, level, &s, (&a.e, &a.m, a.ct.len()), (&b.e, &b.m, b.ct.len()));
                if bd > f.threshold(level) {
                    continue;
                }
                let r = if sq && cx.coin(1, 2) {
                    cx.ev("aliased-operands", 1);
                    &a.ct * &a.ct
                } else {
                    &a.ct * &b.ct
                };
                check!(r.len() == a.ct.len() + b.ct.len() - 1, "mul:parts", "{} parts from {} and {}", r.len(), a.ct.len(), b.ct.len());
                (if sq { "square" } else { "mul" }, r, f.mmul(&a.m, &b.m), bd, a.depth.max(b.depth) + 1)
            }
        };
        if bound > f.threshold(level) {
            // no longer promised to decrypt; forget the result
            continue;
        }
        cx.tr(format!("{name} form {form} bound {bound}"));
        let j = judge(cx, f, &sk, &s, &ct, &m, level, name)?;
        check!(j.noise <= bound, format!("noise:{name}"), "noise {} after {name} (form {form}) exceeds {bound}; {} level {level}; history {ops:?}", j.noise, f.desc);
        cx.ev(
            match name {
                "add" => "op:add",
                "sub" => "op:sub",
                "neg" => "op:neg",
                "add-pt" => "op:add-pt",
                "sub-pt" => "op:sub-pt",
                "pt-sub" => "op:pt-sub",
                "mul-pt" => "op:mul-pt",
                "zero-operand" => "op:zero-operand",
                "dot" => "op:dot",
                "square" => "op:square",
                _ => "op:mul",
            },
            1,
        );
        if form == 2 {
            cx.ev("assigning-forms", 1);
        } else if form == 1 {
            cx.ev("owned-forms", 1);
        }
        if ct.len() > 2 {
            cx.ev("long-ciphertexts", 1);
        }
        if depth >= 2 && (name == "mul" || name == "square") {
            cx.ev("depth-2-products", 1);
        }
        ops.push(name);
        judged += 1;
        let r = Reg { ct, m, e: j.noise, level, depth };
        if regs.len() < 7 && cx.coin(1, 2) {
            regs.push(r);
        } else {
            regs[i] = r;
        }
    }
    if judged >= 2 {
        cx.seen((f.id, f.q.clone(), ops.clone()));
    }
    cx.sample(|| format!("{}: {}", f.desc, ops.join(" ")));
    Ok(())
}

/// Long scalar dot products: the accumulation must not overflow, and the
/// switch to the slow path must not change the value.
fn dot(cx: &mut Cx) -> R {
    let w = Want { budget: 40, max_k: 3, max_logn: 4, max_t: 30, pool: 100, lo: *cx.pick(&[10, 58, 62]), ..ANY };
    let f = fix(cx, w)?;
    let (sk, s) = some_key(cx, &f)?;
    let level = f.level(cx, 36)?;
    let len = cx.range(2, 4);
    let count = match cx.u(5) {
        0 => cx.range(1, 4),
        1 => *cx.pick(&[15, 16, 17, 18, 33]),
        2 => cx.range(60, 70),
        _ => cx.range(5, 40),
    };
    let mut cts = vec![];
    let mut pts = vec![];
    let mut m = vec![BigUint::zero(); f.n];
    let mut b = BigInt::from(2);
    let extreme = cx.coin(1, 3);
    for _ in 0..count {
        let mi = f.rand_msg(cx);
        let e = rnd_i(cx, &BigInt::from(3));
        let sc = f.scaled(&mi, level);
        let mut ph: Vec<BigInt> = sc.iter().map(|x| x + &e).collect();
        let ct = if extreme {
            // every stored residue as large as possible
            let ctx = f.ctx(level)?;
            let c = (0..len).map(|_| max_poly(&ctx, f.n)).collect::<R<Vec<_>>>()?;
            ph = phase(&c, &s, &f.crt[level]);
            Ciphertext::new(c, &f.par).lib("Ciphertext::new")?
        } else {
            craft(cx, &f, level, &s, len, &ph)?
        };
        let (pt, pm) = some_pt(cx, &f, level, &sk)?;
        if extreme {
            // judged on phases below
            let x: Vec<BigInt> = pm.iter().map(int).collect();
            let prod = negacyclic_big(&ph, &x);
            cts.push((ct, prod));
        } else {
            m = f.madd(&m, &f.mmul(&mi, &pm));
            b += BigInt::from(4) * m_l1(&pm) + 2;
            cts.push((ct, vec![]));
        }
        pts.push(pt);
    }
    let r = dot_product_scalar(cts.iter().map(|x| &x.0), pts.iter()).lib("dot_product_scalar")?;
    check!(r.len() == len, "dot:parts", "{} parts", r.len());
    if extreme {
        let mut want = vec![BigInt::zero(); f.n];
        for (_, p) in &cts {
            for (a, b) in want.iter_mut().zip(p) {
                *a += b;
            }
        }
        let q = f.big_q(level);
        let got = phase(&r, &s, &f.crt[level]);
        for (g, w) in got.iter().zip(&want) {
            check!(modp(&(g - w), q).is_zero(), "dot:phase", "dot product of {count} terms has phase {g} instead of {w}; {}", f.desc);
        }
    } else if b <= f.threshold(level) {
        let j = judge(cx, &f, &sk, &s, &r, &m, level, "dot product")?;
        check!(j.noise <= b, "noise:dot", "noise {} after a dot product of {count} terms exceeds {b}; {}", j.noise, f.desc);
    }
    cx.ev("op:dot", 1);
    if count > 16 {
        cx.ev("dot-long", 1);
    }
    if len > 2 {
        cx.ev("dot-pt-long", 1);
    }
    cx.seen((f.id, f.q.clone(), count, len, level, extreme));
    Ok(())
}

fn max_poly(ctx: &Arc<fhe_math::rq::Context>, n: usize) -> R<fhe_math::rq::Poly<fhe_math::rq::Ntt>> {
    use fhe_math::rq::{Ntt, Poly, traits::TryConvertFrom};
    let mut v = vec![];
    for q in ctx.moduli() {
        v.extend(std::iter::repeat_n(q - 1, n));
    }
    Poly::<Ntt>::try_convert_from(v, ctx, true).lib("poly")
}

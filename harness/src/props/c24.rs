//! C24: moving ciphertexts between levels.
use super::c10::{judge, some_key};
use super::c11::{b_mul, m_l1};
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, EvaluationKeyBuilder, Multiplicator, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::{DeserializeParametrized, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::Zero;

pub fn property() -> Property {
    Property {
        id: "C24",
        rule: "a case is a parameter set with two or more moduli, a ciphertext of 2..5 parts (fresh by either key, compressed or read back, a product, or built around a chosen phase with noise up to the threshold) and a path down the chain (single steps, jumps, both). After every step each part must be the coefficient-wise nearest integer to the part divided by the dropped modulus (big-integer oracle), the level and contexts exactly the requested ones, the message unchanged and the noise within the scaled bound. Then the moved ciphertext is combined with plaintexts, fresh ciphertexts and keys generated for its level. Impossible and earlier targets must be errors that leave the bytes unchanged. Distinct = distinct (parameters, start, path, parts, message); non-trivial = a switch happened or was refused.",
        workloads: vec![
            Workload { name: "switch", weight: 5, max: 0, f: switch },
            Workload { name: "combine", weight: 4, max: 0, f: combine },
            Workload { name: "refuse", weight: 2, max: 0, f: refuse },
            Workload { name: "large", weight: 1, max: 0, f: large },
        ],
        required: vec![
            "switches", "exact-roundings", "jumps", "to-last-level", "long-ciphertexts", "noise-at-threshold", "combined:ciphertext", "combined:plaintext", "combined:multiply", "combined:relinearize",
            "combined:rotate", "combined:rgsw", "refused:earlier", "refused:beyond", "refused:last", "read-back", "big-t", "large-switches",
        ],
        finish: None,
    }
}

pub struct Op {
    pub ct: Ciphertext,
    pub m: Vec<BigUint>,
    pub e: BigInt,
    pub level: usize,
}

fn start(cx: &mut Cx, f: &Fix, sk: &SecretKey, s: &[i64], level: usize) -> R<Op> {
    let m = f.rand_msg(cx);
    let ct: Ciphertext = match cx.u(5) {
        0 => sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("sk.try_encrypt")?,
        1 => PublicKey::new(sk, &mut cx.fork()).try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("pk.try_encrypt")?,
        2 => {
            let c: Ciphertext = sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("sk.try_encrypt")?;
            cx.ev("read-back", 1);
            Ciphertext::from_bytes(&c.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?
        }
        k => {
            let th = f.threshold(level).max(BigInt::zero());
            let r = if k == 3 { th } else { rnd_i(cx, &th) };
            if k == 3 {
                cx.ev("noise-at-threshold", 1);
            }
            let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| x + &r).collect();
            let len = cx.range(2, 5);
            if len > 2 {
                cx.ev("long-ciphertexts", 1);
            }
            craft(cx, f, level, s, len, &ph)?
        }
    };
    let ph = phase(&ct, s, &f.crt[level]);
    let e = f.noise_inf(&ph, &m, level);
    Ok(Op { ct, m, e, level })
}

/// Every coefficient of `b` must be the nearest integer to that of `a` divided
/// by the dropped modulus.
fn exact(cx: &mut Cx, f: &Fix, a: &Ciphertext, b: &Ciphertext, level: usize) -> R {
    let (ca, cb) = (&f.crt[level], &f.crt[level + 1]);
    let q = f.q[f.q.len() - 1 - level];
    for (x, y) in a.iter().zip(b.iter()) {
        let (x, y) = (coef(x, ca), coef(y, cb));
        for (u, v) in x.iter().zip(&y) {
            // round half up, modulo the smaller modulus
            let w: BigUint = ((u + q / 2) / q) % &cb.q;
            check!(w == *v, "switch:rounding", "a coefficient {u} divided by {q} became {v} instead of {w}; {} from level {level}", f.desc);
        }
    }
    cx.ev("exact-roundings", (f.n * a.len()) as u64);
    Ok(())
}
fn coef(p: &Poly<Ntt>, crt: &Crt) -> Vec<BigUint> {
    let p = p.clone().into_power_basis();
    cols(&p, crt)
}

/// Move to `to`, step by step or in one call, judging every step.
fn move_to(cx: &mut Cx, f: &Fix, sk: &SecretKey, s: &[i64], a: &mut Op, to: usize) -> R {
    let mut jump = a.ct.clone();
    let from = a.level;
    jump.switch_to_level(to).lib("switch_to_level")?;
    if to > from + 1 {
        cx.ev("jumps", 1);
    }
    while a.level < to {
        let old = a.ct.clone();
        if cx.coin(1, 2) {
            a.ct.switch_down().lib("switch_down")?;
        } else {
            a.ct.switch_to_level(a.level + 1).lib("switch_to_level")?;
        }
        exact(cx, f, &old, &a.ct, a.level)?;
        a.e = b_switch(&a.e, f.q[f.q.len() - 1 - a.level], s, a.ct.len());
        a.level += 1;
        check!(a.ct.len() == old.len() && lvl(f, &a.ct) == a.level, "switch:shape", "{} parts at level {} after switching {} parts to level {}", a.ct.len(), lvl(f, &a.ct), old.len(), a.level);
        let j = judge(cx, f, sk, s, &a.ct, &a.m, a.level, "switch")?;
        check!(j.noise <= a.e, "noise:switch", "noise {} after switching to level {} exceeds {}; {}", j.noise, a.level, a.e, f.desc);
        if a.e > f.threshold(a.level) {
            // no promise about the message any more, but about the noise
            a.e = j.noise.clone();
        }
        a.e = j.noise;
        cx.ev("switches", 1);
    }
    check!(jump == a.ct, "switch:path", "switching from level {from} to {to} at once differs from single steps; {}", f.desc);
    check!(a.ct.max_switchable_level() == f.max_level(), "switch:max", "deepest level reported as {}", a.ct.max_switchable_level());
    if to == f.max_level() {
        cx.ev("to-last-level", 1);
    }
    Ok(())
}

fn switch(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 8, min_k: 2, max_k: 6, max_logn: 6, ..ANY })?;
    let (sk, s) = some_key(cx, &f)?;
    let l0 = f.level(cx, 4)?;
    let mut a = start(cx, &f, &sk, &s, l0)?;
    let to = cx.range(l0, f.max_level());
    move_to(cx, &f, &sk, &s, &mut a, to)?;
    // reading back at the new level
    let r = Ciphertext::from_bytes(&a.ct.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?;
    check!(r == a.ct, "switch:bytes", "a switched ciphertext does not survive serialization; {}", f.desc);
    cx.seen((f.id, f.q.clone(), l0, to, a.ct.len(), a.m));
    Ok(())
}

fn combine(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 50, min_k: 2, max_k: 5, max_logn: 5, max_t: 70, ..ANY })?;
    let (sk, s) = some_key(cx, &f)?;
    let to = f.level(cx, 44)?;
    if to == 0 {
        return Err(Fail::Skip("only the first level has room"));
    }
    let l0 = cx.u(to);
    let m = f.rand_msg(cx);
    let ct: Ciphertext = if cx.coin(1, 2) {
        sk.try_encrypt(&f.encode(&m, l0)?, &mut cx.fork()).lib("sk.try_encrypt")?
    } else {
        PublicKey::new(&sk, &mut cx.fork()).try_encrypt(&f.encode(&m, l0)?, &mut cx.fork()).lib("pk.try_encrypt")?
    };
    let e = f.noise_inf(&phase(&ct, &s, &f.crt[l0]), &m, l0);
    let mut a = Op { ct, m, e, level: l0 };
    move_to(cx, &f, &sk, &s, &mut a, to)?;
    let mb = f.rand_msg(cx);
    let fresh: Ciphertext = sk.try_encrypt(&f.encode(&mb, to)?, &mut cx.fork()).lib("sk.try_encrypt")?;
    let eb = b_sk(&f);
    let k = cx.u(6);
    let (name, ct, m, bound): (&'static str, Ciphertext, Vec<BigUint>, BigInt) = match k {
        0 => ("combined:ciphertext", if cx.coin(1, 2) { &a.ct - &fresh } else { -(&fresh - &a.ct) }, f.msub(&a.m, &mb), &a.e + &eb + 6),
        1 => {
            let pt = f.encode(&mb, to)?;
            if cx.coin(1, 2) {
                ("combined:plaintext", &a.ct + &pt, f.madd(&a.m, &mb), &a.e + 4)
            } else {
                ("combined:plaintext", &a.ct * &pt, f.mmul(&a.m, &mb), (&a.e + 1) * m_l1(&mb) + 3)
            }
        }
        2 | 3 => {
            if f.q.len() < 2 {
                return Ok(());
            }
            let kl = cx.range(0, to.min(f.q.len() - 2));
            let rk = RelinearizationKey::new_leveled(&sk, to, kl, &mut cx.fork()).lib("RelinearizationKey::new_leveled")?;
            let b = b_mul(&f, to, &s, (&a.e, &a.m, 2), (&eb, &mb, 2)) + b_ks(&f, &s, to, kl);
            let m = f.mmul(&a.m, &mb);
            if k == 2 {
                let mu = Multiplicator::default(&rk).lib("Multiplicator::default")?;
                ("combined:multiply", mu.multiply(&a.ct, &fresh).lib("multiply")?, m, b)
            } else {
                let mut c = &a.ct * &fresh;
                rk.relinearizes(&mut c).lib("relinearizes")?;
                ("combined:relinearize", c, m, b)
            }
        }
        4 => {
            let kl = cx.range(0, to);
            let mut b = EvaluationKeyBuilder::new_leveled(&sk, to, kl).lib("EvaluationKeyBuilder")?;
            b.enable_row_rotation().lib("enable_row_rotation")?;
            let ek = b.build(&mut cx.fork()).lib("build")?;
            ("combined:rotate", ek.rotates_rows(&a.ct).lib("rotates_rows")?, f.msubst(&a.m, 2 * f.n - 1), &a.e + b_ks(&f, &s, to, kl) + 4)
        }
        _ => {
            let mut small = vec![BigUint::zero(); f.n];
            small[cx.u(f.n)] = big(1);
            let r: RGSWCiphertext = sk.try_encrypt(&f.encode(&small, to)?, &mut cx.fork()).lib("rgsw")?;
            ("combined:rgsw", &a.ct * &r, f.mmul(&a.m, &small), (&a.e + 1) + b_ks(&f, &s, to, to) * 2 + 4)
        }
    };
    if bound > f.threshold(to) {
        return Err(Fail::Skip("too noisy to promise anything"));
    }
    let j = judge(cx, &f, &sk, &s, &ct, &m, to, name)?;
    check!(j.noise <= bound, format!("noise:{name}"), "noise {} after {name} at level {to} (from {l0}) exceeds {bound}; {}", j.noise, f.desc);
    cx.ev(name, 1);
    cx.sample(|| format!("{name} at level {to} from {l0}: {}", f.desc));
    cx.seen((f.id, f.q.clone(), l0, to, k, m));
    Ok(())
}

fn refuse(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 8, max_k: 5, max_logn: 5, ..ANY })?;
    let (sk, s) = some_key(cx, &f)?;
    let l0 = f.level(cx, 4)?;
    let mut a = start(cx, &f, &sk, &s, l0)?;
    let keep = a.ct.clone();
    let bytes = a.ct.to_bytes();
    let same = |c: &Ciphertext, what: &str| -> R {
        check!(*c == keep && c.to_bytes() == bytes, "refused:modified", "a refused {what} changed the ciphertext; {}", f.desc);
        Ok(())
    };
    for t in (0..l0).chain([f.max_level() + 1, f.max_level() + 2, 1000, usize::MAX]) {
        let r = no_panic("switch_to_level", || a.ct.switch_to_level(t))?;
        check!(r.is_err(), "impossible-level", "switched from level {l0} to {t} of {}; {}", f.max_level(), f.desc);
        same(&a.ct, "switch")?;
        cx.ev(if t < l0 { "refused:earlier" } else { "refused:beyond" }, 1);
    }
    // staying is not an error and changes nothing
    a.ct.switch_to_level(l0).lib("switch_to_level")?;
    same(&a.ct, "stay")?;
    a.ct.switch_to_level(f.max_level()).lib("switch_to_level")?;
    let last = a.ct.clone();
    let r = no_panic("switch_down", || a.ct.switch_down())?;
    check!(r.is_err() && a.ct == last, "switch-past-last", "switching down at the last level: {r:?}; {}", f.desc);
    cx.ev("refused:last", 1);
    cx.seen((f.id, f.q.clone(), l0, a.m));
    Ok(())
}

fn large(cx: &mut Cx) -> R {
    let idx = cx.idx as usize;
    let n = if idx < 3 { 8192 } else if idx < 5 { 8192 << (idx - 2) } else { 1usize << cx.range(7, 11) };
    let k = cx.range(2, 5);
    let q = crate::gen_::moduli(cx, n, k, 50, 62);
    let t = 2 + cx.u64() % 100_000;
    if q.iter().any(|m| t.is_multiple_of(*m)) {
        return Ok(());
    }
    let f = build(50_000 + idx, n, &q, &big(t), cx.range(1, 20))?;
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let m: Vec<BigUint> = (0..n).map(|_| big(cx.u64() % t)).collect();
    let l0 = cx.u(k);
    let mut ct: Ciphertext = sk.try_encrypt(&f.encode(&m, l0)?, &mut cx.fork()).lib("encrypt")?;
    for l in l0..k {
        ct.switch_to_level(l).lib("switch_to_level")?;
        check!(lvl(&f, &ct) == l, "large:level", "level {} instead of {l}", lvl(&f, &ct));
        check!(f.dec(&sk, &ct, l)? == m, "large:switch", "degree {n}: wrong message at level {l} from {l0}; {}", f.desc);
        cx.ev("large-switches", 1);
    }
    cx.seen((n, q, t, l0, m[0].clone()));
    Ok(())
}

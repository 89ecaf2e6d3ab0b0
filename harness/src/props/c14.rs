//! C14: external products with RGSW encryptions.
use super::c10::{judge, some_key};
use super::c11::{m_l1, some_pt};
use crate::fixt::*;
use crate::gen_::primes;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, Encoding, Plaintext, PublicKey, RGSWCiphertext, SecretKey};
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::Zero;

pub fn property() -> Property {
    Property {
        id: "C14",
        rule: "a case is a parameter set, a level, an RGSW encryption of a plaintext of any form (also read back from bytes) and a BFV ciphertext (fresh, or built around a chosen phase with noise up to what the product tolerates); the external product in both operand orders is compared with the product of the messages in the ring modulo t, and its noise, recomputed by schoolbook arithmetic, with the analytical bound. Chains multiply repeatedly, and sums of products select between ciphertexts. Mismatched parameters, levels and part counts must stop. Distinct = distinct (parameters, level, messages, path); non-trivial = a product was judged or refused.",
        workloads: vec![
            Workload { name: "product", weight: 6, max: 0, f: product },
            Workload { name: "chain", weight: 3, max: 0, f: chain },
            Workload { name: "select", weight: 2, max: 0, f: select },
            Workload { name: "mismatch", weight: 1, max: 0, f: mismatch },
            Workload { name: "large", weight: 1, max: 0, f: large },
        ],
        required: vec![
            "products", "products-reversed", "products-at-threshold", "lower-levels", "single-modulus", "multi-modulus", "big-t", "rgsw-from-bytes", "chained-products", "selections", "mismatches-refused",
            "large-products", "batched-multipliers",
        ],
        finish: None,
    }
}

struct Rg {
    c: RGSWCiphertext,
    m: Vec<BigUint>,
}
fn rgsw(cx: &mut Cx, f: &Fix, sk: &SecretKey, level: usize, small: bool) -> R<Rg> {
    let (pt, m) = if small {
        let mut m = vec![BigUint::zero(); f.n];
        let i = cx.u(f.n);
        m[i] = big(cx.u64() % 2);
        (f.encode(&m, level)?, m)
    } else {
        some_pt(cx, f, level, sk)?
    };
    let keep = pt.clone();
    let mut c: RGSWCiphertext = sk.try_encrypt(&pt, &mut cx.fork()).lib("try_encrypt(rgsw)")?;
    check!(keep == pt, "operand-modified", "RGSW encryption changed the plaintext");
    if cx.coin(1, 4) {
        let r = RGSWCiphertext::from_bytes(&c.to_bytes(), &f.par).lib("RGSWCiphertext::from_bytes")?;
        check!(r == c, "rgsw:round-trip", "an RGSW ciphertext changed by serialization; {}", f.desc);
        cx.ev("rgsw-from-bytes", 1);
        c = r;
    }
    Ok(Rg { c, m })
}
fn ext(f: &Fix, s: &[i64], level: usize, e: &BigInt, m: &[BigUint]) -> BigInt {
    (e + 1) * m_l1(m) + b_ks(f, s, level, level) * 2 + 3
}
fn modc(cx: &mut Cx, f: &Fix, level: usize) {
    cx.ev(if level == f.max_level() { "single-modulus" } else { "multi-modulus" }, 1);
}

fn product(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 24, max_logn: 6, ..ANY })?;
    let level = f.level(cx, 18)?;
    let (sk, s) = some_key(cx, &f)?;
    let small = cx.coin(1, 2);
    let r = rgsw(cx, &f, &sk, level, small)?;
    let m = f.rand_msg(cx);
    let th = f.threshold(level);
    let l = m_l1(&r.m);
    let max: BigInt = (&th - ext(&f, &s, level, &BigInt::zero(), &r.m)) / (&l + 1);
    let at = max > BigInt::zero() && cx.coin(1, 3);
    let ct: Ciphertext = match cx.u(3) {
        0 if !at => sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("sk.try_encrypt")?,
        1 if !at => PublicKey::new(&sk, &mut cx.fork()).try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("pk.try_encrypt")?,
        _ => {
            let e = if at { max.clone() } else { BigInt::from(cx.u64() % 5) };
            let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| x + &e).collect();
            craft(cx, &f, level, &s, 2, &ph)?
        }
    };
    let ph = phase(&ct, &s, &f.crt[level]);
    let e = f.noise_inf(&ph, &m, level);
    let bound = ext(&f, &s, level, &e, &r.m);
    let keep = ct.clone();
    let a = &ct * &r.c;
    let b = &r.c * &ct;
    check!(keep == ct, "operand-modified", "the external product changed the ciphertext");
    check!(a == b, "order", "the two operand orders give different ciphertexts; {}", f.desc);
    check!(a.len() == 2 && lvl(&f, &a) == level, "shape", "{} parts at level {} instead of {level}", a.len(), lvl(&f, &a));
    let want = f.mmul(&m, &r.m);
    let j = judge(cx, &f, &sk, &s, &a, &want, level, "external product")?;
    check!(j.noise <= bound, "noise:product", "noise {} after an external product exceeds {bound} (operand {e}); level {level}; {}", j.noise, f.desc);
    cx.ev("products", 1);
    cx.ev("products-reversed", 1);
    modc(cx, &f, level);
    if at && bound <= th {
        cx.ev("products-at-threshold", 1);
    }
    cx.sample(|| format!("{} level {level} noise {} bound {bound}", f.desc, j.noise));
    cx.seen((f.id, f.q.clone(), level, m, r.m));
    Ok(())
}

fn chain(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 40, max_logn: 5, max_t: 40, ..ANY })?;
    let level = f.level(cx, 30)?;
    let (sk, s) = some_key(cx, &f)?;
    let mut m = f.rand_msg(cx);
    let mut ct: Ciphertext = sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("sk.try_encrypt")?;
    let mut e = b_sk(&f);
    let rs: Vec<Rg> = (0..2).map(|_| rgsw(cx, &f, &sk, level, true)).collect::<R<_>>()?;
    let mut k = 0;
    for _ in 0..cx.range(2, 10) {
        let i = cx.u(2);
        let bound = ext(&f, &s, level, &e, &rs[i].m);
        if bound > f.threshold(level) {
            break;
        }
        ct = if cx.coin(1, 2) { &ct * &rs[i].c } else { &rs[i].c * &ct };
        m = f.mmul(&m, &rs[i].m);
        let j = judge(cx, &f, &sk, &s, &ct, &m, level, "chained external product")?;
        check!(j.noise <= bound, "noise:chain", "noise {} after {k} external products exceeds {bound}; {}", j.noise, f.desc);
        e = j.noise;
        k += 1;
        if k > 1 {
            cx.ev("chained-products", 1);
        }
    }
    modc(cx, &f, level);
    cx.seen((f.id, f.q.clone(), level, k, m));
    Ok(())
}

/// CMUX: b + r (a - b).
fn select(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 30, max_logn: 5, ..ANY })?;
    let level = f.level(cx, 24)?;
    let (sk, s) = some_key(cx, &f)?;
    let bit = cx.coin(1, 2);
    let mut rm = vec![BigUint::zero(); f.n];
    rm[0] = big(bit as u64);
    let r: RGSWCiphertext = sk.try_encrypt(&f.encode(&rm, level)?, &mut cx.fork()).lib("try_encrypt(rgsw)")?;
    let (ma, mb) = (f.rand_msg(cx), f.rand_msg(cx));
    let ca: Ciphertext = sk.try_encrypt(&f.encode(&ma, level)?, &mut cx.fork()).lib("encrypt")?;
    let cb: Ciphertext = sk.try_encrypt(&f.encode(&mb, level)?, &mut cx.fork()).lib("encrypt")?;
    let d = &ca - &cb;
    let out = &cb + &(&d * &r);
    let bound = ext(&f, &s, level, &(b_sk(&f) * 2 + 3), &rm) + b_sk(&f) + 3;
    let m = if bit { &ma } else { &mb };
    let j = judge(cx, &f, &sk, &s, &out, m, level, "selection")?;
    check!(j.noise <= bound, "noise:select", "noise {} after a selection exceeds {bound}; {}", j.noise, f.desc);
    cx.ev("selections", 1);
    cx.seen((f.id, f.q.clone(), level, bit, ma));
    Ok(())
}

fn mismatch(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 20, min_k: 2, max_logn: 4, ..ANY })?;
    let level = f.level(cx, 4)?;
    let (sk, s) = some_key(cx, &f)?;
    let r = rgsw(cx, &f, &sk, level, false)?;
    let other = fix(cx, Want { budget: 20, min_k: 2, max_logn: 4, lo: 50, ..ANY })?;
    let (what, ct) = match cx.u(3) {
        0 => {
            let l = cx.u(f.q.len());
            if l == level {
                return Ok(());
            }
            ("level", craft(cx, &f, l, &s, 2, &vec![BigInt::zero(); f.n])?)
        }
        1 => ("parts", craft(cx, &f, level, &s, 3, &vec![BigInt::zero(); f.n])?),
        _ => {
            if other.par == f.par {
                return Ok(());
            }
            let l = level.min(other.max_level());
            let z = vec![0i64; other.n];
            ("parameters", craft(cx, &other, l, &z, 2, &vec![BigInt::zero(); other.n])?)
        }
    };
    let keep = ct.clone();
    check!(catching(|| &ct * &r.c).is_err(), "mismatch-combined", "an external product with another {what} returned a value; {}", f.desc);
    check!(catching(|| &r.c * &ct).is_err(), "mismatch-combined", "an external product with another {what} returned a value; {}", f.desc);
    check!(ct == keep, "operand-modified", "a refused product changed its operand");
    cx.ev("mismatches-refused", 2);
    cx.seen((f.id, f.q.clone(), level, what));
    Ok(())
}

fn large(cx: &mut Cx) -> R {
    let idx = cx.idx as usize;
    let n = match idx {
        0..3 => 4096,
        3 => 16384,
        4 => 65536,
        _ => 1usize << cx.range(7, 11),
    };
    let k = cx.range(2, 4);
    let q = crate::gen_::moduli(cx, n, k, 55, 62);
    let t = primes(if n > 4096 { 22 } else { *cx.pick(&[17u32, 20]) }, n)[0];
    let f = build(40_000 + idx, n, &q, &big(t), cx.range(1, 20))?;
    let level = cx.u(k - 1);
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let (va, vb): (Vec<u64>, Vec<u64>) = ((0..n).map(|_| cx.u64() % t).collect(), (0..n).map(|_| cx.u64() % t).collect());
    let e = || Encoding::simd_at_level(level);
    let ct: Ciphertext = sk.try_encrypt(&Plaintext::try_encode(&va, e(), &f.par).lib("encode")?, &mut cx.fork()).lib("encrypt")?;
    let r: RGSWCiphertext = sk.try_encrypt(&Plaintext::try_encode(&vb, e(), &f.par).lib("encode")?, &mut cx.fork()).lib("encrypt")?;
    let d = Vec::<u64>::try_decode(&sk.try_decrypt(&(&ct * &r)).lib("decrypt")?, e()).lib("decode")?;
    let want: Vec<u64> = va.iter().zip(&vb).map(|(x, y)| mulmod(*x, *y, t)).collect();
    check!(d == want, "large:product", "degree {n}: external product wrong; {}", f.desc);
    cx.ev("large-products", 1);
    cx.ev("batched-multipliers", 1);
    cx.seen((n, q, t, level, va[0]));
    Ok(())
}

//! C10: decryption inverts encryption; noise of fresh ciphertexts.
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, Encoding, Plaintext, PublicKey, SecretKey};
use fhe_traits::{FheDecoder, FheDecrypter, FheEncoder, FheEncrypter};
use num_bigint::{BigInt, BigUint};
use num_traits::{ToPrimitive, Zero};

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "a case is a parameter set (see C09), a level, a message and a way to obtain a ciphertext: secret-key or public-key encryption, re-encryption of a decrypted plaintext, or one built around a chosen phase with noise up to the exact decryption threshold and 2..6 components; the library's decryption and reported noise are compared with the textbook phase recomputed with schoolbook arithmetic, and the noise of fresh ciphertexts with its worst-case bound. Distinct = distinct (parameters, level, message, path, noise class); non-trivial = a ciphertext was decrypted.",
        workloads: vec![
            Workload { name: "secret-key", weight: 3, max: 0, f: secret_key },
            Workload { name: "public-key", weight: 3, max: 0, f: public_key },
            Workload { name: "crafted", weight: 4, max: 0, f: crafted },
            Workload { name: "large", weight: 1, max: 0, f: large },
        ],
        required: vec![
            "sk-encryptions", "pk-encryptions", "decrypted-coefficients", "noise-measurements", "noise-at-threshold", "long-ciphertexts",
            "crafted-decryptions", "lower-levels", "batched", "re-encryptions", "random-phases", "big-t", "t-near-q0", "degree-4096",
        ],
        finish: None,
    }
}

pub struct Judged {
    pub noise: BigInt,
}
/// The true noise of `ct` against message `m`, and the library's view of it.
pub fn judge(cx: &mut Cx, f: &Fix, sk: &SecretKey, s: &[i64], ct: &Ciphertext, m: &[BigUint], level: usize, what: &str) -> R<Judged> {
    let ph = phase(ct, s, &f.crt[level]);
    let e = f.noise_inf(&ph, m, level);
    let before = ct.clone();
    if e <= f.threshold(level) {
        let d = f.dec(sk, ct, level)?;
        check!(d == m, "decrypt:wrong", "{what}: decrypts to {} instead of {} with noise {e} below the threshold {}; {} level {level}", msg_str(&d), msg_str(m), f.threshold(level), f.desc);
        cx.ev("decrypted-coefficients", f.n as u64);
        let b = unsafe { sk.measure_noise(ct) }.lib("measure_noise")?;
        // floor and nearest scaling of the message differ by one
        let lo = bits(&(&e - 1i32).max(BigInt::zero()));
        let hi = bits(&(&e + 1));
        check!((lo..=hi).contains(&(b as u64)), "measure_noise:wrong", "{what}: reported {b} bits, true noise is {e} ({} bits); {} level {level}", bits(&e), f.desc);
        cx.ev("noise-measurements", 1);
    }
    check!(*ct == before, "decrypt:modified", "{what}: decryption changed the ciphertext; {}", f.desc);
    if level > 0 {
        cx.ev("lower-levels", 1);
    }
    if f.ts.is_none() {
        cx.ev("big-t", 1);
    } else if &f.t * 2u32 > big(f.q[0]) {
        cx.ev("t-near-q0", 1);
    }
    Ok(Judged { noise: e })
}

pub fn some_key(cx: &mut Cx, f: &Fix) -> R<(SecretKey, Vec<i64>)> {
    let b = 2 * f.v as i64;
    let sk = match cx.u(6) {
        0 => {
            // extreme but legitimate secrets
            let k = cx.u(3);
            let c: Vec<i64> = (0..f.n)
                .map(|i| match k {
                    0 => b,
                    1 => if i % 2 == 0 { b } else { -b },
                    _ => if i == 0 { -b } else { 0 },
                })
                .collect();
            secret_from(&c, &f.par)?
        }
        _ => SecretKey::random(&f.par, &mut cx.fork()),
    };
    let s = secret(&sk)?;
    check!(s.len() == f.n, "secret:length", "secret of {} coefficients for degree {}", s.len(), f.n);
    Ok((sk, s))
}

fn message(cx: &mut Cx, f: &Fix, level: usize) -> R<(Plaintext, Vec<BigUint>)> {
    if f.simd && cx.coin(1, 2) {
        let v: Vec<u64> = f.rand_msg(cx).iter().map(|x| x.to_u64().unwrap()).collect();
        let pt = Plaintext::try_encode(&v, Encoding::simd_at_level(level), &f.par).lib("encode")?;
        cx.ev("batched", 1);
        let m = f.coeffs(&pt)?;
        return Ok((pt, m));
    }
    let m = f.rand_msg(cx);
    Ok((f.encode(&m, level)?, m))
}

fn secret_key(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 6, ..ANY })?;
    let level = f.level(cx, 3)?;
    let (sk, s) = some_key(cx, &f)?;
    let (pt, m) = message(cx, &f, level)?;
    let copy = pt.clone();
    let ct: Ciphertext = sk.try_encrypt(&pt, &mut cx.fork()).lib("sk.try_encrypt")?;
    check!(pt == copy, "encrypt:modified", "encryption changed the plaintext");
    check!(ct.len() == 2, "encrypt:parts", "{} parts", ct.len());
    let j = judge(cx, &f, &sk, &s, &ct, &m, level, "secret-key encryption")?;
    check!(j.noise <= b_sk(&f), "fresh-noise:sk", "noise {} of a secret-key encryption exceeds {}; {} level {level}", j.noise, b_sk(&f), f.desc);
    cx.ev("sk-encryptions", 1);
    if j.noise <= f.threshold(level) && cx.coin(1, 3) {
        // a decrypted plaintext can be encrypted again
        let d = sk.try_decrypt(&ct).lib("decrypt")?;
        let ct2: Ciphertext = sk.try_encrypt(&d, &mut cx.fork()).lib("re-encrypt")?;
        let j = judge(cx, &f, &sk, &s, &ct2, &m, level, "re-encryption")?;
        check!(j.noise <= b_sk(&f), "fresh-noise:sk", "noise {} of a re-encryption exceeds {}; {}", j.noise, b_sk(&f), f.desc);
        cx.ev("re-encryptions", 1);
        if f.simd {
            let v = Vec::<u64>::try_decode(&d, Encoding::simd_at_level(level)).lib("decode")?;
            let back = Plaintext::try_encode(&v, Encoding::simd_at_level(level), &f.par).lib("encode")?;
            check!(f.coeffs(&back)? == m, "decrypt:slots", "slots of the decryption do not encode the message; {}", f.desc);
        }
    }
    cx.sample(|| format!("{} level {level} noise {}", f.desc, j.noise));
    cx.seen((f.id, f.q.clone(), level, m, 0));
    Ok(())
}

fn public_key(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 14, ..ANY })?;
    let level = f.level(cx, 8)?;
    let (sk, s) = some_key(cx, &f)?;
    let pk = PublicKey::new(&sk, &mut cx.fork());
    let copy = pk.clone();
    let (pt, m) = message(cx, &f, level)?;
    let ct: Ciphertext = pk.try_encrypt(&pt, &mut cx.fork()).lib("pk.try_encrypt")?;
    check!(pk == copy, "encrypt:modified", "encryption changed the public key");
    check!(ct.len() == 2, "encrypt:parts", "{} parts", ct.len());
    let j = judge(cx, &f, &sk, &s, &ct, &m, level, "public-key encryption")?;
    let b = b_pk(&f, level, &s);
    check!(j.noise <= b, "fresh-noise:pk", "noise {} of a public-key encryption exceeds {b}; {} level {level}", j.noise, f.desc);
    cx.ev("pk-encryptions", 1);
    cx.sample(|| format!("{} level {level} noise {} bound {b}", f.desc, j.noise));
    cx.seen((f.id, f.q.clone(), level, m, 1));
    Ok(())
}

fn crafted(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 2, ..ANY })?;
    let level = f.level(cx, 2)?;
    let (sk, s) = some_key(cx, &f)?;
    let m = f.rand_msg(cx);
    let th = f.threshold(level);
    let len = cx.range(2, 6);
    let cls = cx.u(5);
    let q = int(f.big_q(level));
    let ph: Vec<BigInt> = if cls == 4 {
        (0..f.n).map(|_| int(&rand_below(cx, f.big_q(level)))).collect()
    } else {
        if th < BigInt::zero() {
            return Err(Fail::Skip("no noise budget at all"));
        }
        let sc = f.scaled(&m, level);
        (0..f.n)
            .map(|i| {
                let e = match cls {
                    0 => if cx.coin(1, 2) { th.clone() } else { -&th },
                    1 => &th - BigInt::from(cx.u64() % 3).min(th.clone()),
                    2 => BigInt::zero(),
                    _ => rnd_i(cx, &th),
                };
                (&sc[i] + e) % &q
            })
            .collect()
    };
    let ct = craft(cx, &f, level, &s, len, &ph)?;
    let what = format!("crafted ciphertext of {len} parts, noise class {cls}");
    if cls == 4 {
        let c: Vec<BigInt> = ph.iter().map(|p| center(&modp(p, f.big_q(level)), f.big_q(level))).collect();
        let (want, clear) = f.round_phase(&c, level);
        if clear && f.big_q(level) > &(&f.t * 4u32) {
            let d = f.dec(&sk, &ct, level)?;
            check!(d == want, "decrypt:rounding", "{what}: decrypts to {} instead of {}; {} level {level}", msg_str(&d), msg_str(&want), f.desc);
            cx.ev("random-phases", 1);
        }
    } else {
        let j = judge(cx, &f, &sk, &s, &ct, &m, level, &what)?;
        check!(j.noise <= th, "harness", "crafted noise {} above {th}", j.noise);
        if cls < 2 {
            cx.ev("noise-at-threshold", 1);
        }
    }
    if len > 2 {
        cx.ev("long-ciphertexts", 1);
    }
    cx.ev("crafted-decryptions", 1);
    cx.seen((f.id, f.q.clone(), level, m, cls, len));
    Ok(())
}

/// Realistic degrees; messages and noise are checked through decryption and
/// the library's own noise measure (validated against the textbook above).
fn large(cx: &mut Cx) -> R {
    let idx = cx.idx as usize;
    let logn = if idx % 64 == 63 { cx.range(13, 16) } else { *cx.pick(&[7usize, 8, 9, 10, 11, 12]) };
    let n = 1usize << if idx < 4 { 12 } else if idx < 8 { idx + 9 } else { logn };
    let k = cx.range(1, 3);
    let q = crate::gen_::moduli(cx, n, k, 50, 62);
    let simd = cx.coin(1, 2);
    let t = if simd { crate::gen_::primes(22, n)[0] } else { 2 + cx.u64() % 100000 };
    if q.contains(&t) || q.iter().any(|m| t % m == 0) {
        return Err(Fail::Skip("t not coprime"));
    }
    let v = cx.range(1, 32);
    let f = build(10_000 + idx, n, &q, &big(t), v)?;
    let level = f.level(cx, 25)?;
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let s = secret(&sk)?;
    let vals: Vec<u64> = (0..n).map(|_| cx.u64() % t).collect();
    let e = if simd { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) };
    let pt = Plaintext::try_encode(&vals, e.clone(), &f.par).lib("encode")?;
    let use_pk = cx.coin(1, 2);
    let ct = if use_pk {
        PublicKey::new(&sk, &mut cx.fork()).try_encrypt(&pt, &mut cx.fork()).lib("pk.try_encrypt")?
    } else {
        sk.try_encrypt(&pt, &mut cx.fork()).lib("sk.try_encrypt")?
    };
    let d = Vec::<u64>::try_decode(&sk.try_decrypt(&ct).lib("decrypt")?, e).lib("decode")?;
    check!(d == vals, "decrypt:wrong", "degree {n}: decryption differs; {}", f.desc);
    let b = if use_pk { b_pk(&f, level, &s) } else { b_sk(&f) };
    let nb = unsafe { sk.measure_noise(&ct) }.lib("measure_noise")?;
    check!(nb as u64 <= bits(&b), "fresh-noise:large", "degree {n}: {nb} bits of noise, bound {b}; {}", f.desc);
    cx.ev("decrypted-coefficients", n as u64);
    if n >= 4096 {
        cx.ev("degree-4096", 1);
    }
    if simd {
        cx.ev("batched", 1);
    }
    cx.seen((n, q, t, level, v, use_pk, vals[0]));
    Ok(())
}

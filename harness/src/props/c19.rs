//! C19: secrets are erased from memory when they are no longer needed.
use crate::alloc::{Scan, scanning};
use crate::check;
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use crate::open::*;
use fhe::bfv::{Ciphertext, Encoding, EvaluationKeyBuilder, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe::mbfv::*;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis, traits::TryConvertFrom};
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::ToPrimitive;
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C19",
        rule: "a case is a parameter set, a level and one operation that handles secrets: key generation, copies, serialization, encryption (secret key, public key, RGSW), decryption, noise measurement, generation of relinearization and evaluation keys, every multi-party share and aggregate, encoding and decoding, and operations on unpermitted polynomials, on their success paths and on the error paths behind the point where secrets exist. The operation is first run unobserved to recover its errors and randomness exactly; then it is replayed from the same generator state with every heap block inspected at the moment it is freed. No block may contain 16 consecutive words of a secret: the key as integers or residues, its transform (also in Shoup form), its square, its substitutions, its products with the masks, errors and randomness, the phase, and the plaintext as values, coefficients, residues or transform. Distinct = distinct (operation, parameters, level).",
        workloads: vec![
            Workload { name: "keys", weight: 4, max: 0, f: keys },
            Workload { name: "encrypt", weight: 4, max: 0, f: encrypt },
            Workload { name: "decrypt", weight: 4, max: 0, f: decrypt },
            Workload { name: "evaluation", weight: 4, max: 0, f: evaluation },
            Workload { name: "multiparty", weight: 4, max: 0, f: multiparty },
            Workload { name: "plaintexts", weight: 4, max: 0, f: plaintexts },
            Workload { name: "polynomials", weight: 3, max: 0, f: polynomials },
            Workload { name: "self-test", weight: 1, max: 0, f: self_test },
        ],
        required: vec!["blocks", "words", "secret-windows", "seen-when-leaked", "keys", "encryptions", "decryptions", "evaluation-keys", "shares", "plaintexts", "polynomials", "error-paths", "lower-levels", "single-modulus"],
        finish: None,
    }
}

fn big_rows(v: &[BigInt], q: u64) -> Vec<u64> {
    v.iter().map(|x| modu(x, q)).collect()
}
struct Secrets<'a> {
    f: &'a Fix,
    scan: Scan,
}
impl<'a> Secrets<'a> {
    fn new(f: &'a Fix) -> Self {
        Secrets { f, scan: Scan::new() }
    }
    /// Every form of a polynomial with the given coefficients, at a level.
    fn poly(&mut self, name: &str, v: &[BigInt], level: usize) -> R {
        let p = poly_of(v, &self.f.ctx(level)?, &self.f.crt[level])?;
        self.ntt(name, &p, level)
    }
    fn ntt(&mut self, name: &str, p: &Poly<Ntt>, level: usize) -> R {
        let q = &self.f.q[..self.f.q.len() - level];
        for (r, q) in p.coefficients().outer_iter().zip(q) {
            let r = r.to_vec();
            self.scan.add(&format!("{name} (transform)"), &r);
            let sh: Vec<u64> = r.iter().map(|x| (((*x as u128) << 64) / *q as u128) as u64).collect();
            self.scan.add(&format!("{name} (Shoup form)"), &sh);
        }
        let pb = p.clone().into_power_basis();
        for r in pb.coefficients().outer_iter() {
            self.scan.add(&format!("{name} (residues)"), &r.to_vec());
        }
        Ok(())
    }
    fn ints(&mut self, name: &str, v: &[i64]) {
        let w: Vec<u64> = v.iter().map(|x| *x as u64).collect();
        self.scan.add(name, &w);
    }
    fn small(&mut self, name: &str, v: &[i64], level: usize) -> R {
        self.ints(&format!("{name} (integers)"), v);
        let b: Vec<BigInt> = v.iter().map(|x| BigInt::from(*x)).collect();
        self.poly(name, &b, level)
    }
    fn key(&mut self, s: &[i64], level: usize) -> R {
        self.small("the secret key", s, level)
    }
    fn message(&mut self, m: &[BigUint], level: usize) -> R {
        if self.f.t.bits() < 8 {
            return Ok(());
        }
        if let Some(v) = m.iter().map(|x| x.to_u64()).collect::<Option<Vec<u64>>>() {
            self.scan.add("the plaintext (values)", &v);
        }
        let i: Vec<BigInt> = m.iter().map(int).collect();
        self.poly("the plaintext", &i, level)?;
        let sc = self.f.scaled(m, level);
        self.poly("the scaled plaintext", &sc, level)
    }
    fn judge(self, cx: &mut Cx, what: &str) -> R {
        let s = &self.scan;
        cx.ev("blocks", s.blocks.get());
        cx.ev("words", s.words.get());
        cx.ev("secret-windows", s.len() as u64);
        let hits = s.first.borrow();
        if let Some((name, at)) = hits.first() {
            if std::env::var("C19_ALL").is_ok() {
                for (n, a) in hits.iter() {
                    eprintln!("LEAK {what} | {n} | {}", a.replace('\n', " | "));
                }
                return Ok(());
            }
            let frame = at.lines().nth(1).unwrap_or("?").to_string();
            return Err(Fail::Violation { sig: format!("leak:{what}:{name}:{}", frame.split("::h").next().unwrap_or("")), msg: format!("{what}: {name} left in {at}\n({} hits in all); {}", s.hits.get(), self.f.desc) });
        }
        Ok(())
    }
}

fn setup(cx: &mut Cx) -> R<Arc<Fix>> {
    const W: Want = Want { budget: 20, max_k: 4, max_logn: 9, lo: 30, pool: 250, ..ANY };
    for _ in 0..40 {
        let f = fix(cx, W)?;
        if f.n >= 32 && f.v >= 8 && f.q.iter().all(|q| *q >> 29 > 0) {
            return Ok(f);
        }
    }
    Err(Fail::Skip("no suitable parameters"))
}
fn key(cx: &mut Cx, f: &Fix) -> R<(SecretKey, Vec<i64>)> {
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let s = secret(&sk)?;
    Ok((sk, s))
}
fn bigs(s: &[i64]) -> Vec<BigInt> {
    s.iter().map(|x| BigInt::from(*x)).collect()
}
fn levels(cx: &mut Cx, f: &Fix, level: usize) {
    if level > 0 {
        cx.ev("lower-levels", 1);
    }
    if level == f.max_level() {
        cx.ev("single-modulus", 1);
    }
}

fn keys(cx: &mut Cx) -> R {
    let f = setup(cx)?;
    let g = cx.fork();
    let mk = || SecretKey::random(&f.par, &mut g.clone());
    let s = secret(&mk())?;
    let mut x = Secrets::new(&f);
    x.key(&s, 0)?;
    let bytes = mk().to_bytes();
    let kind = cx.u(6);
    let par = &f.par;
    let what = ["SecretKey::random", "SecretKey::clone", "SecretKey::to_bytes", "SecretKey::from_bytes", "SecretKey::from_bytes of a key of another degree", "PublicKey::new"][kind];
    let held = scanning(&x.scan, || -> R<Vec<u8>> {
        Ok(match kind {
            0 => {
                drop(mk());
                vec![]
            }
            1 => {
                let a = mk();
                let b = a.clone();
                let _ = a == b;
                vec![]
            }
            2 => mk().to_bytes(),
            3 => {
                drop(SecretKey::from_bytes(&bytes, par).lib("SecretKey::from_bytes")?);
                vec![]
            }
            _ => vec![],
        })
    })?;
    drop(held);
    if kind == 4 {
        let other = fix(cx, Want { budget: 20, max_k: 2, max_logn: 9, lo: 30, pool: 250, ..ANY })?;
        if other.n == f.n {
            return Err(Fail::Skip("same degree"));
        }
        let r = scanning(&x.scan, || SecretKey::from_bytes(&bytes, &other.par).is_err());
        check!(r, "from-bytes:accepted", "a key of degree {} accepted for degree {}", f.n, other.n);
        cx.ev("error-paths", 1);
    }
    if kind == 5 {
        let sc = Scene::new(&f, mk())?;
        let g = cx.fork();
        let mut h = Haul::default();
        sc.public_key(&mut h, &mut g.clone())?;
        x.small("the error of the public key", &h.errors[0].1, 0)?;
        let a_s = &h.masks[0].2 * &poly_of(&bigs(&s), &f.ctx(0)?, &f.crt[0])?;
        x.ntt("the product of mask and key", &a_s, 0)?;
        let sk = mk();
        scanning(&x.scan, || {
            drop(PublicKey::new(&sk, &mut g.clone()));
            drop(sk);
        });
    }
    cx.ev("keys", 1);
    cx.seen((kind, f.id, f.q.clone()));
    x.judge(cx, what)
}

fn encrypt(cx: &mut Cx) -> R {
    let f = setup(cx)?;
    let level = f.level(cx, 10)?;
    levels(cx, &f, level);
    let (sk, s) = key(cx, &f)?;
    let sc = Scene::new(&f, sk)?;
    let m = f.rand_msg(cx);
    let pt = f.encode(&m, level)?;
    let g = cx.fork();
    let mut h = Haul::default();
    let kind = cx.u(4);
    let mut x = Secrets::new(&f);
    let sp = poly_of(&bigs(&s), &f.ctx(level)?, &f.crt[level])?;
    x.message(&m, level)?;
    let what = match kind {
        0 | 1 => {
            sc.sk_encrypt(&mut h, &m, level, &mut g.clone())?;
            x.key(&s, level)?;
            x.small("the encryption error", &h.errors[0].1, level)?;
            x.ntt("the product of mask and key", &(&h.masks[0].2 * &sp), level)?;
            "secret-key encryption"
        }
        2 => {
            // the randomness of encryptions under any key is that of those under a transparent one
            let Some(glass) = sc.glass()? else { return Err(Fail::Skip("modulus too small for transparent keys")) };
            let m0 = m.clone();
            sc.pk_encrypt(&mut h, &glass, &m0, &mut g.clone())?;
            for (k, e) in &h.errors {
                x.small(k, e, level)?;
            }
            "public-key encryption"
        }
        _ => {
            sc.rgsw(&mut h, &m, level, &mut g.clone())?;
            x.key(&s, level)?;
            for (k, e) in &h.errors {
                x.small(&format!("error of {k}"), e, level)?;
            }
            for (k, _, a) in &h.masks {
                x.ntt(&format!("product of mask and key of {k}"), &(a * &sp), level)?;
            }
            let mi: Vec<BigInt> = m.iter().map(int).collect();
            let mp = poly_of(&mi, &f.ctx(level)?, &f.crt[level])?;
            x.ntt("the product of plaintext and key", &(&mp * &sp), level)?;
            "RGSW encryption"
        }
    };
    let pk = PublicKey::new(&sc.sk, &mut cx.fork());
    let sk = sc.sk.clone();
    let (r, pt) = scanning(&x.scan, || {
        let r = match kind {
            0 | 1 => {
                let c: fhe::Result<Ciphertext> = sk.try_encrypt(&pt, &mut g.clone());
                c.map(|_| ())
            }
            2 => {
                let c: fhe::Result<Ciphertext> = pk.try_encrypt(&pt, &mut g.clone());
                c.map(|_| ())
            }
            _ => {
                let c: fhe::Result<RGSWCiphertext> = sk.try_encrypt(&pt, &mut g.clone());
                c.map(|_| ())
            }
        };
        drop(sk);
        (r, pt)
    });
    r.lib(what)?;
    scanning(&x.scan, || drop(pt));
    cx.ev("encryptions", 1);
    cx.seen((kind, f.id, f.q.clone(), level, m));
    x.judge(cx, what)
}

fn decrypt(cx: &mut Cx) -> R {
    let f = setup(cx)?;
    let level = f.level(cx, 10)?;
    levels(cx, &f, level);
    let (sk, s) = key(cx, &f)?;
    let m = f.rand_msg(cx);
    let len = cx.range(2, 4);
    let noise = BigInt::from(9);
    let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| x + rnd_i(cx, &noise)).collect();
    let ct = craft(cx, &f, level, &s, len, &ph)?;
    let mut x = Secrets::new(&f);
    x.key(&s, level)?;
    x.message(&m, level)?;
    x.poly("the phase", &ph, level)?;
    let sp = poly_of(&bigs(&s), &f.ctx(level)?, &f.crt[level])?;
    let mut pw = sp.clone();
    for i in 1..len {
        x.ntt(&format!("power {i} of the key"), &pw, level)?;
        x.ntt(&format!("part {i} times key"), &(&ct[i] * &pw), level)?;
        pw = &pw * &sp;
    }
    let e = f.noise(&ph, &m, level);
    x.poly("the noise", &e, level)?;
    let kind = cx.u(4);
    let what = ["try_decrypt", "measure_noise", "decrypt and decode", "try_decrypt at a level too low"][kind];
    if kind == 3 {
        // an operation that fails; nothing secret may remain either
        let other = setup(cx)?;
        let (sk2, s2) = key(cx, &other)?;
        x.ints("the other key", &s2);
        let r = scanning(&x.scan, || {
            let r: fhe::Result<Plaintext> = sk2.try_decrypt(&ct);
            drop(sk2);
            r.is_err()
        });
        check!(r || Arc::ptr_eq(&f.par, &other.par), "decrypt:accepted", "foreign ciphertext decrypted");
        cx.ev("error-paths", 1);
    } else {
        let (r, held) = scanning(&x.scan, || {
            let mut held: (Option<Vec<u64>>, Option<Vec<BigUint>>) = (None, None);
            let r = match kind {
                0 => sk.try_decrypt(&ct).map(|_| ()),
                1 => unsafe { sk.measure_noise(&ct).map(|_| ()) },
                _ => sk.try_decrypt(&ct).and_then(|p| {
                    if f.ts.is_some() {
                        held.0 = Some(Vec::<u64>::try_decode(&p, Encoding::poly_at_level(level))?);
                    } else {
                        held.1 = Some(Vec::<BigUint>::try_decode(&p, Encoding::poly_at_level(level))?);
                    }
                    Ok(())
                }),
            };
            drop(sk);
            (r, held)
        });
        r.lib(what)?;
        drop(held);
    }
    cx.ev("decryptions", 1);
    cx.seen((kind, f.id, f.q.clone(), level, len, m));
    x.judge(cx, what)
}

fn evaluation(cx: &mut Cx) -> R {
    let f = setup(cx)?;
    let level = f.level(cx, 10)?;
    levels(cx, &f, level);
    let (sk, s) = key(cx, &f)?;
    let sc = Scene::new(&f, sk)?;
    let g = cx.fork();
    let mut h = Haul::default();
    let mut x = Secrets::new(&f);
    let relin = f.q.len() - level > 1 && cx.coin(1, 2);
    let exact = cx.coin(2, 3);
    let sp = poly_of(&bigs(&s), &f.ctx(level)?, &f.crt[level])?;
    x.key(&s, level)?;
    let by: Vec<usize> = vec![cx.range(1, f.n / 2 - 1)];
    let kl = if exact { level } else { cx.range(0, level) };
    x.key(&s, kl)?;
    let from: Vec<(String, Vec<BigInt>)> = if relin {
        vec![("the square of the key".into(), negacyclic_big(&bigs(&s), &bigs(&s)))]
    } else {
        let n2 = 2 * f.n;
        let e = (0..by[0]).fold(1, |a, _| a * 3 % n2);
        [n2 - 1, e].iter().map(|e| (format!("substitution {e} of the key"), substitute_big(&bigs(&s), *e))).collect()
    };
    if kl == level {
        if relin {
            sc.relin(&mut h, level, &mut g.clone())?;
        } else {
            sc.evaluation(&mut h, level, true, &by, &mut g.clone())?;
        }
        for (k, e) in &h.errors {
            x.small(&format!("error of {k}"), e, level)?;
        }
        for (k, _, a) in &h.masks {
            x.ntt(&format!("product of mask and key of {k}"), &(a * &sp), level)?;
        }
    }
    for (k, v) in &from {
        x.poly(k, v, level)?;
        x.poly(k, v, kl)?;
        // scaled by the gadget, in the context of the key
        if f.q.len() - level > 1 || kl == level {
            let gd = if f.q.len() - kl > 1 { gadget(&f, level, 0) } else { vec![BigInt::from(1u64 << ((64 - (f.q[0] - 1).leading_zeros()) / 2))] };
            for (i, c) in gd.iter().enumerate() {
                let w: Vec<BigInt> = v.iter().map(|y| y * c).collect();
                x.poly(&format!("{k} times gadget {i}"), &w, kl)?;
            }
        }
    }
    let what = if relin { "RelinearizationKey::new_leveled" } else { "EvaluationKeyBuilder::build" };
    let sk = sc.sk.clone();
    let r = scanning(&x.scan, || -> fhe::Result<()> {
        let mut g = g.clone();
        if relin {
            RelinearizationKey::new_leveled(&sk, level, kl, &mut g)?;
        } else {
            let mut b = EvaluationKeyBuilder::new_leveled(&sk, level, kl)?;
            b.enable_row_rotation()?;
            for i in &by {
                b.enable_column_rotation(*i)?;
            }
            b.build(&mut g)?;
        }
        drop(sk);
        Ok(())
    });
    r.lib(what)?;
    // refused on the way: nothing secret may remain either
    let bad = f.q.len() + cx.u(3);
    let sk = sc.sk.clone();
    let n = f.n;
    let e = scanning(&x.scan, || {
        let a = RelinearizationKey::new_leveled(&sk, bad, 0, &mut g.clone()).is_err();
        let b = EvaluationKeyBuilder::new_leveled(&sk, 0, bad).is_err();
        let c = EvaluationKeyBuilder::new(&sk).is_ok_and(|mut b| b.enable_column_rotation(n).is_err());
        drop(sk);
        a && b && c
    });
    check!(e, "bad-level:accepted", "keys for level {bad} of {} moduli built", f.q.len());
    cx.ev("error-paths", 3);
    cx.ev("evaluation-keys", 1);
    cx.seen((relin, f.id, f.q.clone(), level, kl));
    x.judge(cx, what)
}

fn multiparty(cx: &mut Cx) -> R {
    let f = setup(cx)?;
    let level = f.level(cx, 10)?;
    levels(cx, &f, level);
    let (sk, s) = key(cx, &f)?;
    let (sk2, s2) = key(cx, &f)?;
    let m = f.rand_msg(cx);
    let mut x = Secrets::new(&f);
    x.key(&s, level)?;
    x.key(&s, 0)?;
    x.small("the second key", &s2, level)?;
    let sp = |v: &[i64], l: usize| -> R<Poly<Ntt>> { poly_of(&bigs(v), &f.ctx(l)?, &f.crt[l]) };
    let kind = cx.u(5);
    let what = ["PublicKeyShare", "SecretKeySwitchShare", "PublicKeySwitchShare", "RelinKeyGenerator", "DecryptionShare"][kind];
    let noise = BigInt::from(9);
    let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| x + rnd_i(cx, &noise)).collect();
    let ct = Arc::new(craft(cx, &f, level, &s, 2, &ph)?);
    let g = cx.fork();
    // what a share hides, observed through the aggregate of that share alone
    let centred = |p: &Poly<Ntt>, l: usize| -> Vec<BigInt> { cols(&p.clone().into_power_basis(), &f.crt[l]).iter().map(|y| center(y, &f.crt[l].q)).collect() };
    let e = match kind {
        0 => {
            let crp = CommonRandomPoly::new(&f.par, &mut cx.fork()).lib("CommonRandomPoly::new")?;
            let run = |g: &mut ChaCha8Rng| -> fhe::Result<PublicKey> { PublicKey::from_shares([PublicKeyShare::new(&sk, crp.clone(), g)?]) };
            let pk = run(&mut g.clone()).lib(what)?;
            let c = pk_parts(&pk, &f)?;
            x.poly("the error of the share", &phase(&c, &s, &f.crt[0]), 0)?;
            x.ntt("the product of mask and key", &(&c[1] * &sp(&s, 0)?), 0)?;
            x.ntt("the product of mask and key", &-&(&c[1] * &sp(&s, 0)?), 0)?;
            scanning(&x.scan, || run(&mut g.clone()).map(|_| ()))
        }
        1 => {
            let run = |g: &mut ChaCha8Rng| -> fhe::Result<Ciphertext> { Ciphertext::from_shares([SecretKeySwitchShare::new(&sk, &sk2, ct.clone(), g)?]) };
            let c = run(&mut g.clone()).lib(what)?;
            let ds = &sp(&s, level)? - &sp(&s2, level)?;
            let prod = &ct[1] * &ds;
            let e = &(&c[0] - &ct[0]) - &prod;
            x.ntt("the error of the share", &e, level)?;
            x.ntt("the difference of the keys", &ds, level)?;
            x.ntt("the unmasked share", &prod, level)?;
            scanning(&x.scan, || run(&mut g.clone()).map(|_| ()))
        }
        2 => {
            let sc = Scene::new(&f, sk.clone())?;
            let Some(glass) = sc.glass()? else { return Err(Fail::Skip("modulus too small for transparent keys")) };
            let mut h = Haul::default();
            // the same randomness as below, seen through a transparent key at level 0
            let zero = poly_of(&vec![BigInt::from(0); f.n], &f.ctx(0)?, &f.crt[0])?;
            let nil = Ciphertext::new(vec![zero.clone(), zero], &f.par).prep("ciphertext")?;
            let c = Ciphertext::from_shares([PublicKeySwitchShare::new(&sk, &glass, &nil, &mut g.clone()).lib(what)?]).lib(what)?;
            for (i, n) in ["e0", "e1"].iter().enumerate() {
                let v: Vec<i64> = centred(&c[i], 0).iter().map(|y| y.to_i64().unwrap_or(0)).collect();
                let u: Vec<i64> = v.iter().map(|y| (y + 128).div_euclid(256)).collect();
                let e: Vec<i64> = v.iter().zip(&u).map(|(y, u)| y - 256 * u).collect();
                x.small(&format!("the share's {n}"), &e, level)?;
                x.small("the share's u", &u, level)?;
            }
            h.errors.clear();
            x.ntt("the product of ciphertext and key", &(&ct[1] * &sp(&s, level)?), level)?;
            let pk = PublicKey::new(&sk2, &mut cx.fork());
            scanning(&x.scan, || PublicKeySwitchShare::new(&sk, &pk, &ct, &mut g.clone()).and_then(|s| Ciphertext::from_shares([s])).map(|_| ()))
        }
        3 => {
            if f.q.len() < 2 {
                return Err(Fail::Skip("no relinearization with one modulus"));
            }
            let crp = CommonRandomPoly::new_vec(&f.par, &mut cx.fork()).lib("CommonRandomPoly::new_vec")?;
            // u is the first thing drawn: a party with the same generator
            let u = fhe_util::sample_vec_cbd(f.n, f.v, &mut g.clone()).prep("sample")?;
            x.small("the generator's u", &u, 0)?;
            let d: Vec<i64> = u.iter().zip(&s).map(|(a, b)| a - b).collect();
            x.small("u minus the key", &d, 0)?;
            for (i, c) in f.crt[0].coef.iter().enumerate() {
                let w: Vec<BigInt> = s.iter().map(|y| int(c) * *y).collect();
                x.poly(&format!("the key times gadget {i}"), &w, 0)?;
            }
            let r = scanning(&x.scan, || -> fhe::Result<()> {
                let mut g = g.clone();
                let gen_ = RelinKeyGenerator::new(&sk, &crp, &mut g)?;
                let r1 = gen_.round_1(&mut g)?;
                let r1 = Arc::new(RelinKeyShare::<round::R1Aggregated>::from_shares([r1])?);
                let r2 = gen_.round_2(&r1, &mut g)?;
                RelinearizationKey::from_shares([r2])?;
                Ok(())
            });
            r
        }
        _ => {
            x.message(&m, level)?;
            let z = secret_from(&vec![0; f.n], &f.par)?;
            let run = |g: &mut ChaCha8Rng| -> fhe::Result<Ciphertext> {
                Ciphertext::from_shares([SecretKeySwitchShare::new(&sk, &z, ct.clone(), g)?])
            };
            let c = run(&mut g.clone()).lib(what)?;
            x.ntt("the joint phase", &c[0], level)?;
            let prod = &ct[1] * &sp(&s, level)?;
            let e = &(&c[0] - &ct[0]) - &prod;
            x.ntt("the error of the share", &e, level)?;
            x.ntt("the unmasked share", &prod, level)?;
            scanning(&x.scan, || DecryptionShare::new(&sk, &ct, &mut g.clone()).and_then(|s| Plaintext::from_shares([s])).map(|_| ()))
        }
    };
    e.lib(what)?;
    let two = (sk, sk2);
    // shares of things that do not fit are refused after the keys were taken in
    let three = craft(cx, &f, level, &s, 3, &ph)?;
    let three = Arc::new(three);
    let bad = scanning(&x.scan, || {
        let a = SecretKeySwitchShare::new(&two.0, &two.1, three.clone(), &mut g.clone()).is_err();
        let b = DecryptionShare::new(&two.0, &three, &mut g.clone()).is_err();
        drop(two);
        a && b
    });
    check!(bad, "share:accepted", "shares for a ciphertext of three parts");
    cx.ev("error-paths", 2);
    cx.ev("shares", 1);
    cx.seen((kind, f.id, f.q.clone(), level, m));
    x.judge(cx, what)
}

fn plaintexts(cx: &mut Cx) -> R {
    let mut f = setup(cx)?;
    for _ in 0..10 {
        if f.simd {
            break;
        }
        f = setup(cx)?;
    }
    let level = f.level(cx, 10)?;
    levels(cx, &f, level);
    let m = f.rand_msg(cx);
    let mut x = Secrets::new(&f);
    x.message(&m, level)?;
    let (sk, s) = key(cx, &f)?;
    let kind = cx.u(5);
    let what = ["try_encode", "try_encode in slots", "Plaintext::clone", "try_decode", "plaintext arithmetic"][kind];
    let par = &f.par;
    let small: Option<Vec<u64>> = m.iter().map(|x| x.to_u64()).collect();
    let signed: Option<Vec<i64>> = match (&small, f.ts) {
        (Some(v), Some(t)) if cx.coin(1, 3) => Some(v.iter().map(|y| center_u64(*y, t) as i64).collect()),
        _ => None,
    };
    let enc = |slots: bool| -> fhe::Result<Plaintext> {
        let e = if slots { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) };
        if let Some(v) = &signed {
            return Plaintext::try_encode(v.as_slice(), e, par);
        }
        match &small {
            Some(v) => Plaintext::try_encode(v.as_slice(), e, par),
            None => Plaintext::try_encode(m.as_slice(), e, par),
        }
    };
    let slots = kind != 0 && f.simd && small.is_some();
    if kind == 1 && !slots {
        return Err(Fail::Skip("no slots"));
    }
    if slots {
        // values in slots: their coefficients are secret too
        let c = f.coeffs(&enc(true).lib(what)?)?;
        x.message(&c, level)?;
        if let (Some(v), Some(t)) = (&small, f.ts) {
            // signed values
            let i: Vec<i64> = v.iter().map(|y| center_u64(*y, t) as i64).collect();
            x.ints("the plaintext (signed values)", &i);
        }
    }
    let ct: Ciphertext = sk.try_encrypt(&f.encode(&f.rand_msg(cx), level)?, &mut cx.fork()).lib("sk.try_encrypt")?;
    let held = scanning(&x.scan, || -> fhe::Result<(Option<Vec<u64>>, Option<Vec<i64>>, Option<Vec<BigUint>>)> {
        let p = enc(slots)?;
        match kind {
            2 => {
                let q = p.clone();
                let _ = p == q;
                let z = p.clone();
                drop(z);
            }
            3 => {
                let e = if slots { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) };
                // the wrong encoding is refused
                let w = if slots { Encoding::poly_at_level(level) } else { Encoding::poly_at_level(level + 1) };
                let _ = Vec::<u64>::try_decode(&p, w).is_err();
                if signed.is_some() {
                    return Ok((None, Some(Vec::<i64>::try_decode(&p, e)?), None));
                }
                if small.is_some() {
                    return Ok((Some(Vec::<u64>::try_decode(&p, e)?), None, None));
                }
                return Ok((None, None, Some(Vec::<BigUint>::try_decode(&p, e)?)));
            }
            4 => {
                let a = &ct + &p;
                let b = &a - &p;
                let c = &b * &p;
                let mut d = &p - &c;
                d += &p;
                d -= &p;
                d *= &p;
            }
            _ => {}
        }
        Ok((None, None, None))
    })
    .lib(what)?;
    drop(held);
    drop(s);
    cx.ev("plaintexts", 1);
    cx.seen((kind, slots, f.id, f.q.clone(), level, m));
    x.judge(cx, what)
}

/// Polynomials the caller erases: the temporaries of operations on them.
fn polynomials(cx: &mut Cx) -> R {
    use zeroize::Zeroizing;
    let f = setup(cx)?;
    let (_, s) = key(cx, &f)?;
    let level = f.level(cx, 4)?;
    levels(cx, &f, level);
    let ctx = f.ctx(level)?;
    let mut x = Secrets::new(&f);
    x.key(&s, level)?;
    let sub = |e: usize| substitute_big(&bigs(&s), e);
    let e = 2 * cx.range(1, f.n - 1) + 1;
    x.poly("the substituted secret", &sub(e), level)?;
    let g = cx.fork();
    let noise = fhe_util::sample_vec_cbd(f.n, f.v, &mut g.clone()).prep("sample")?;
    x.small("a small polynomial", &noise, level)?;
    if level < f.max_level() {
        x.key(&s, level + 1)?;
    }
    let kind = cx.u(8);
    let what = ["from integers", "conversions", "substitute", "Poly::small", "switch_down", "scale", "multiplication by integers", "multiplication"][kind];
    let other = Poly::<Ntt>::random(&ctx, &mut cx.fork());
    let lower = if level < f.max_level() { Some(f.ctx(level + 1)?) } else { None };
    let upper = f.ctx(0)?;
    x.key(&s, 0)?;
    let sp = poly_of(&bigs(&s), &ctx, &f.crt[level])?;
    x.ntt("a product with the secret", &(&other * &sp), level)?;
    let three: Vec<BigInt> = bigs(&s).iter().map(|y| y * 3).collect();
    x.poly("three times the secret", &three, level)?;
    let neg: Vec<BigInt> = bigs(&s).iter().map(|y| -y).collect();
    x.poly("the negated secret", &neg, level)?;
    let r = scanning(&x.scan, || -> fhe_math::Result<()> {
        let p = Zeroizing::new(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?);
        match kind {
            0 => {}
            1 => {
                let n = Zeroizing::new(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?.into_ntt());
                let sh = Zeroizing::new(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?.into_ntt_shoup());
                let n2 = Zeroizing::new(n.as_ref().clone().into_ntt_shoup());
                let n3 = Zeroizing::new(n2.as_ref().clone().into_ntt());
                let n4 = Zeroizing::new(n3.as_ref().clone().into_power_basis());
                let n5 = Zeroizing::new(sh.as_ref().clone().into_power_basis());
                let _ = n4 == n5;
            }
            2 => {
                let ex = fhe_math::rq::SubstitutionExponent::new(&ctx, e)?;
                let a = Zeroizing::new(p.as_ref().substitute(&ex)?);
                let n = Zeroizing::new(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?.into_ntt());
                let b = Zeroizing::new(n.as_ref().substitute(&ex)?);
                drop((a, b));
            }
            3 => {
                drop(Zeroizing::new(Poly::<PowerBasis>::small(&ctx, f.v, &mut g.clone())?));
                drop(Zeroizing::new(Poly::<Ntt>::small(&ctx, f.v, &mut g.clone())?));
                drop(Zeroizing::new(Poly::<NttShoup>::small(&ctx, f.v, &mut g.clone())?));
            }
            4 => {
                if let Some(l) = &lower {
                    let mut a = Zeroizing::new(p.as_ref().clone());
                    a.as_mut().switch_down_to(l)?;
                    let mut a = Zeroizing::new(p.as_ref().clone());
                    a.as_mut().switch_down()?;
                }
            }
            5 => {
                let sw = fhe_math::rq::switcher::Switcher::new(&ctx, &upper)?;
                let a = Zeroizing::new(p.as_ref().switch(&sw)?);
                drop(a);
                let sc = fhe_math::rq::scaler::Scaler::new(&ctx, &upper, fhe_math::rns::ScalingFactor::one())?;
                let a = Zeroizing::new(p.as_ref().scale(&sc)?);
                drop(a);
            }
            6 => {
                let k = BigUint::from(3u8);
                let a = Zeroizing::new(p.as_ref() * &k);
                let b = Zeroizing::new(&k * p.as_ref());
                let c = Zeroizing::new(-p.as_ref());
                drop((a, b, c));
            }
            _ => {
                let n = Zeroizing::new(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?.into_ntt());
                let a = Zeroizing::new(&other * n.as_ref());
                let b = Zeroizing::new(n.as_ref() + a.as_ref());
                let c = Zeroizing::new(n.as_ref() - b.as_ref());
                drop((a, b, c));
            }
        }
        Ok(())
    });
    r.lib(what)?;
    cx.ev("polynomials", 1);
    cx.seen((kind, f.id, f.q.clone(), level, e));
    x.judge(cx, what)
}

/// The monitor must notice secrets that are left behind.
fn self_test(cx: &mut Cx) -> R {
    let f = setup(cx)?;
    let (_, s) = key(cx, &f)?;
    let mut x = Secrets::new(&f);
    x.key(&s, 0)?;
    let ctx = f.ctx(0)?;
    let form = cx.u(3);
    let r = scanning(&x.scan, || -> fhe_math::Result<()> {
        match form {
            0 => drop(s.clone()),
            1 => drop(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?),
            _ => drop(Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false)?.into_ntt()),
        }
        Ok(())
    });
    r.lib("conversion")?;
    if x.scan.hits.get() == 0 {
        // polynomials may learn to erase themselves; plain vectors will not
        if form == 0 {
            return Err(Fail::Harness("the monitor overlooked a leaked key".into()));
        }
    } else {
        cx.ev("seen-when-leaked", 1);
    }
    Ok(())
}

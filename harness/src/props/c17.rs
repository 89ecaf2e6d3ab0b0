//! C17: randomness is reproducible from seeds and generator states, and fresh
//! everywhere else.
use super::c10::some_key;
use crate::check;
use crate::fixt::*;
use crate::gen_;
use crate::model::*;
use crate::mon::*;
use crate::open::*;
use crate::stats::Fresh;
use fhe::bfv::{Ciphertext, EvaluationKeyBuilder, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe::mbfv::*;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis};
use fhe_traits::{DeserializeParametrized, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use prost::Message;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use std::collections::HashSet;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C17",
        rule: "a case is (a) a context and a seed, expanded repeatedly, in every representation, in equal contexts and next to seeds that differ in one bit; (b) a randomized operation run from two copies of a generator and from a third state, with its results and recovered errors compared; (c) a session of 4..16 randomized operations on repeated inputs with one generator, whose masks, masked parts and recovered errors are entered window by window into a table in which nothing may occur twice; (d) a few hundred seeds written by ciphertexts and keys, compared bit by bit. Distinct = distinct contexts, parameters, operations; non-trivial = something random was compared.",
        workloads: vec![
            Workload { name: "seeds", weight: 4, max: 0, f: seeds },
            Workload { name: "replay", weight: 6, max: 0, f: replay },
            Workload { name: "session", weight: 8, max: 0, f: session },
            Workload { name: "seed-bits", weight: 1, max: 0, f: seed_bits },
        ],
        required: vec![
            "expansions", "seed-flips", "all-256-flips", "replayed:secret-key", "replayed:sk-encryption", "replayed:public-key", "replayed:pk-encryption", "replayed:relinearization-key", "replayed:evaluation-key", "replayed:rgsw",
            "replayed:shares", "replayed:polynomials", "mask-windows", "error-windows", "sessions", "seeds-compared", "lower-levels", "re-expanded-ciphertexts", "keys-above-ciphertext",
        ],
        finish: None,
    }
}

fn raw<'a>(p: impl Iterator<Item = &'a u64>) -> Vec<u64> {
    p.copied().collect()
}

fn seeds(cx: &mut Cx) -> R {
    let (c, q, n) = gen_::rand_ctx(cx, 4, 7)?;
    let mut seed = [0u8; 32];
    match cx.u(8) {
        0 => {}
        1 => seed = [0xff; 32],
        2 => seed[cx.u(32)] = 1,
        _ => cx.rng.fill_bytes(&mut seed),
    }
    let e = |s: [u8; 32], c: &Arc<fhe_math::rq::Context>| raw(Poly::<Ntt>::random_from_seed(c, s).coefficients().iter());
    let a = e(seed, &c);
    for _ in 0..2 {
        check!(a == e(seed, &c), "seed:differs", "two expansions of a seed differ; n={n} q={q:?}");
    }
    // an equal context that shares nothing with the first
    let c2 = fhe_math::rq::Context::new_arc(&q, n).lib("Context::new_arc")?;
    check!(a == e(seed, &c2), "seed:context", "a seed expands differently in an equal context; n={n} q={q:?}");
    let b = raw(Poly::<NttShoup>::random_from_seed(&c, seed).coefficients().iter());
    let d = raw(Poly::<PowerBasis>::random_from_seed(&c, seed).coefficients().iter());
    check!(a == b && a == d, "seed:representation", "a seed expands differently by representation; n={n} q={q:?}");
    let sh = Poly::<NttShoup>::random_from_seed(&c, seed);
    check!(Poly::<Ntt>::random_from_seed(&c, seed).into_ntt_shoup() == sh, "seed:representation", "the Shoup form of a seeded polynomial differs");
    let th = std::thread::scope(|s| s.spawn(|| e(seed, &c)).join());
    check!(th.as_ref().is_ok_and(|x| *x == a), "seed:thread", "a seed expands differently on another thread");
    cx.ev("expansions", 7);
    if q[0] < 1 << 9 {
        return Ok(());
    }
    // seeds that differ in one bit have nothing in common
    let mut f = Fresh::new(8);
    let w = n.min(16);
    f.add("the seed".into(), &a[..w])?;
    let flips: Vec<usize> = if n <= 16 && cx.coin(1, 6) {
        cx.ev("all-256-flips", 1);
        (0..256).collect()
    } else {
        let mut v: Vec<usize> = (0..6).map(|_| cx.u(256)).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    for i in &flips {
        let mut s = seed;
        s[i / 8] ^= 1 << (i % 8);
        f.add(format!("the seed with bit {i} flipped"), &e(s, &c)[..w])?;
    }
    cx.ev("seed-flips", flips.len() as u64);
    cx.seen((q, n, seed));
    Ok(())
}

/// The same operation from two equal states and from another.
fn replay(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 20, max_k: 4, max_logn: 6, ..ANY })?;
    let level = f.level(cx, 4)?;
    let (sk, _) = some_key(cx, &f)?;
    let sc = Scene::new(&f, sk)?;
    let g = cx.fork();
    let other = cx.fork();
    let m = f.rand_msg(cx);
    let kind = cx.u(9);
    let (name, r) = match kind {
        0 => ("secret-key", thrice(&f, &g, &other, |g| Ok((SecretKey::random(&f.par, g).to_bytes(), vec![])))?),
        1 => (
            "sk-encryption",
            thrice(&f, &g, &other, |g| {
                let mut h = Haul::default();
                let c = sc.sk_encrypt(&mut h, &m, level, g)?;
                Ok((c.to_bytes(), h.errors))
            })?,
        ),
        2 => (
            "public-key",
            thrice(&f, &g, &other, |g| {
                let mut h = Haul::default();
                let pk = sc.public_key(&mut h, g)?;
                Ok((pk.to_bytes(), h.errors))
            })?,
        ),
        3 => {
            let pk = PublicKey::new(&sc.sk, &mut cx.fork());
            let pt = f.encode(&m, level)?;
            (
                "pk-encryption",
                thrice(&f, &g, &other, |g| {
                    let c: Ciphertext = pk.try_encrypt(&pt, g).lib("pk.try_encrypt")?;
                    Ok((c.to_bytes(), vec![]))
                })?,
            )
        }
        4 => {
            if f.q.len() < 2 {
                return Err(Fail::Skip("no relinearization with one modulus"));
            }
            let level = level.min(f.q.len() - 2);
            let kl = cx.range(0, level);
            (
                "relinearization-key",
                thrice(&f, &g, &other, |g| {
                    let rk = RelinearizationKey::new_leveled(&sc.sk, level, kl, g).lib("RelinearizationKey::new_leveled")?;
                    Ok((rk.to_bytes(), vec![]))
                })?,
            )
        }
        5 => {
            let kl = cx.range(0, level);
            let by: Vec<usize> = (0..cx.range(1, 4)).map(|_| cx.range(1, f.n / 2 - 1)).collect();
            let (sum, row, ex) = (cx.coin(1, 2), cx.coin(1, 2), cx.u(f.n.ilog2() as usize));
            let mk = |g: &mut ChaCha8Rng| {
                let mut b = EvaluationKeyBuilder::new_leveled(&sc.sk, level, kl).lib("EvaluationKeyBuilder::new_leveled")?;
                for i in &by {
                    b.enable_column_rotation(*i).lib("enable_column_rotation")?;
                }
                if sum {
                    b.enable_inner_sum().lib("enable_inner_sum")?;
                }
                if row {
                    b.enable_row_rotation().lib("enable_row_rotation")?;
                }
                if ex > 0 {
                    b.enable_expansion(ex).lib("enable_expansion")?;
                }
                b.build(g).lib("EvaluationKeyBuilder::build")
            };
            let (a, b, c) = (mk(&mut g.clone())?, mk(&mut g.clone())?, mk(&mut other.clone())?);
            check!(a == b, "replay:evaluation-key", "the same generator state built different evaluation keys (columns {by:?} sum {sum} rows {row} expansion {ex}); {}", f.desc);
            check!(a != c, "stale:evaluation-key", "different generator states built the same evaluation key");
            ("evaluation-key", true)
        }
        6 => {
            let pt = f.encode(&m, level)?;
            (
                "rgsw",
                thrice(&f, &g, &other, |g| {
                    let c: RGSWCiphertext = sc.sk.try_encrypt(&pt, g).lib("rgsw encryption")?;
                    Ok((c.to_bytes(), vec![]))
                })?,
            )
        }
        7 => {
            let glass = sc.glass()?;
            (
                "shares",
                thrice(&f, &g, &other, |g| {
                    let mut h = Haul::default();
                    sc.shares(&mut h, glass.as_ref(), level, g)?;
                    let m: Vec<u8> = h.masks.iter().flat_map(|x| x.2.to_bytes()).collect();
                    Ok((m, h.errors))
                })?,
            )
        }
        _ => {
            let ctx = f.ctx(level)?;
            (
                "polynomials",
                thrice(&f, &g, &other, |g| {
                    let mut b = Poly::<Ntt>::random(&ctx, g).to_bytes();
                    b.extend(Poly::<PowerBasis>::random(&ctx, g).to_bytes());
                    b.extend(Poly::<NttShoup>::random(&ctx, g).to_bytes());
                    b.extend(Poly::<Ntt>::small(&ctx, f.v, g).lib("Poly::small")?.to_bytes());
                    b.extend(CommonRandomPoly::new_leveled(&f.par, level, g).map(|c| format!("{c:?}").into_bytes()).lib("CommonRandomPoly")?);
                    Ok((b, vec![]))
                })?,
            )
        }
    };
    if r {
        cx.ev(&format!("replayed:{name}"), 1);
    }
    if level > 0 {
        cx.ev("lower-levels", 1);
    }
    cx.seen((f.id, f.q.clone(), kind, level, m));
    Ok(())
}
type Result_ = (Vec<u8>, Vec<(String, Vec<i64>)>);
fn thrice(f: &Fix, g: &ChaCha8Rng, other: &ChaCha8Rng, op: impl Fn(&mut ChaCha8Rng) -> R<Result_>) -> R<bool> {
    let (mut g1, mut g2) = (g.clone(), g.clone());
    let a = op(&mut g1)?;
    let b = op(&mut g2)?;
    check!(a.1 == b.1, "replay:errors", "the same generator state gave different errors; {}", f.desc);
    check!(a.0 == b.0, "replay:result", "the same generator state gave different results; {}", f.desc);
    check!(g1 == g2, "replay:state", "the same operation left different generator states; {}", f.desc);
    // eight coefficients of variance one coincide now and then: look again
    let mut o = other.clone();
    for i in 0.. {
        let c = op(&mut o)?;
        if a.0 != c.0 {
            break;
        }
        check!(i < 12, "stale:result", "different generator states keep giving the same result; {}", f.desc);
    }
    for i in 0.. {
        let c = op(&mut g1)?;
        if a.0 != c.0 {
            break;
        }
        check!(i < 12, "stale:result", "the advancing generator keeps giving the same result; {}", f.desc);
    }
    Ok(true)
}

struct Table<'a> {
    f: &'a Fix,
    masks: Fresh,
    errors: Fresh,
}
impl Table<'_> {
    fn mask(&mut self, name: &str, p: &Poly<Ntt>) -> R {
        self.rows(name, rows(p))
    }
    fn rows(&mut self, name: &str, r: Vec<Vec<u64>>) -> R {
        for (x, q) in r.iter().zip(&self.f.q) {
            // 16 residues of ten bits carry 160 bits
            self.masks.add(format!("{name} modulo {q}"), x)?;
        }
        Ok(())
    }
    fn ct(&mut self, name: &str, c: &[Poly<Ntt>]) -> R {
        for (i, p) in c.iter().enumerate() {
            self.mask(&format!("part {i} of {name}"), p)?;
        }
        Ok(())
    }
}

fn session(cx: &mut Cx) -> R {
    let mut f = fix(cx, Want { budget: 20, max_k: 4, max_logn: 9, pool: 250, ..ANY })?;
    for _ in 0..12 {
        if f.n >= 64 || cx.coin(1, 5) {
            break;
        }
        f = fix(cx, Want { budget: 20, max_k: 4, max_logn: 9, pool: 250, ..ANY })?;
    }
    if f.n < 16 {
        return Err(Fail::Skip("too short for windows"));
    }
    let mut g = cx.fork();
    let sk = SecretKey::random(&f.par, &mut g);
    let sc = Scene::new(&f, sk)?;
    let pk = PublicKey::new(&sc.sk, &mut g);
    let glass = sc.glass()?;
    let mut t = Table { f: &f, masks: Fresh::new(16), errors: Fresh::new(64) };
    t.ct("the public key", &pk_parts(&pk, &f)?)?;
    if f.n >= 64 {
        t.errors.add_i("the secret key".into(), &sc.s)?;
    }
    // the same message over and over
    let m = f.rand_msg(cx);
    let steps = cx.range(4, if f.n > 256 { 8 } else { 16 });
    let top = f.level(cx, 4)?;
    let mut kinds: Vec<usize> = vec![];
    let mut prev: Option<usize> = None;
    for step in 0..steps {
        let level = cx.range(0, top);
        if level > 0 {
            cx.ev("lower-levels", 1);
        }
        let kind = match prev {
            Some(k) if cx.coin(1, 2) => k,
            _ => cx.u(10),
        };
        prev = Some(kind);
        kinds.push(kind);
        let mut h = Haul::default();
        match kind {
            0 => {
                let c = sc.sk_encrypt(&mut h, &m, level, &mut g)?;
                t.mask(&format!("ciphertext {step}, first part"), &c[0])?;
                let d = Ciphertext::from_bytes(&c.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?;
                check!(d == c && d[1] == c[1], "seed:ciphertext", "a ciphertext re-expanded from its seed differs; {}", f.desc);
                cx.ev("re-expanded-ciphertexts", 1);
            }
            1 => {
                let c: Ciphertext = pk.try_encrypt(&f.encode(&m, level)?, &mut g).lib("pk.try_encrypt")?;
                t.ct(&format!("public-key encryption {step}"), &c)?;
            }
            2 => {
                if let Some(p) = &glass {
                    sc.pk_encrypt(&mut h, p, &m, &mut g)?;
                }
            }
            3 => {
                let p = sc.public_key(&mut h, &mut g)?;
                t.mask(&format!("public key {step}"), &pk_parts(&p, &f)?[0])?;
            }
            4 => {
                let s = secret(&SecretKey::random(&f.par, &mut g))?;
                h.errors.push((format!("secret key {step}"), s));
            }
            5 => {
                sc.rgsw(&mut h, &m, level, &mut g)?;
            }
            6 => {
                if f.q.len() - level > 1 {
                    sc.relin(&mut h, level, &mut g)?;
                    if level > 0 {
                        // keys above the level of the ciphertext: what is left after switching down
                        let kl = cx.u(level);
                        let rk = RelinearizationKey::new_leveled(&sc.sk, level, kl, &mut g).lib("RelinearizationKey::new_leveled")?;
                        if f.q[f.q.len() - level..f.q.len() - kl].iter().all(|q| *q > 1 << 12) {
                            let (_, a) = relin(&f, &rk, level)?;
                            for (i, p) in a.iter().enumerate() {
                                t.mask(&format!("switched component {i} of key {step}"), &p.1)?;
                            }
                            cx.ev("keys-above-ciphertext", 1);
                        }
                    }
                }
            }
            7 => {
                let mut by: Vec<usize> = (0..cx.u(3)).map(|_| cx.range(1, f.n / 2 - 1)).collect();
                by.sort_unstable();
                by.dedup();
                sc.evaluation(&mut h, level, true, &by, &mut g)?;
            }
            8 => sc.shares(&mut h, glass.as_ref(), level, &mut g)?,
            _ => {
                let c = CommonRandomPoly::new_vec(&f.par, &mut g).lib("CommonRandomPoly::new_vec")?;
                for (i, c) in c.iter().enumerate() {
                    // seen through the public key it leads to
                    let sh = PublicKeyShare::new(&sc.sk, c.clone(), &mut g).lib("PublicKeyShare::new")?;
                    let p = PublicKey::from_shares([sh]).lib("PublicKey::from_shares")?;
                    t.ct(&format!("common random polynomial {i} of step {step}"), &pk_parts(&p, &f)?)?;
                }
                let ct: Ciphertext = sc.sk.try_encrypt(&f.encode(&m, level)?, &mut g).lib("sk.try_encrypt")?;
                let ct = Arc::new(ct);
                for i in 0..2 {
                    let sh = SecretKeySwitchShare::new(&sc.sk, &secret_from(&vec![0; f.n], &f.par)?, ct.clone(), &mut g).lib("SecretKeySwitchShare::new")?;
                    let c = Ciphertext::from_shares([sh]).lib("Ciphertext::from_shares")?;
                    let v: Vec<BigInt> = {
                        let crt = &f.crt[level];
                        cols(&c[0].clone().into_power_basis(), crt).iter().map(|x| center(x, &crt.q)).collect()
                    };
                    let e = f.noise(&v, &m, level);
                    let plain = phase(&ct, &sc.s, &f.crt[level]);
                    let own = f.noise(&plain, &m, level);
                    use num_traits::ToPrimitive;
                    let d: Vec<i64> = e.iter().zip(&own).map(|(x, y)| (x - y).to_i64().unwrap_or(i64::MAX)).collect();
                    check!(d.iter().all(|x| x.unsigned_abs() <= 2 * f.v as u64), "error-bound", "the error of a decryption share is out of bounds; {}", f.desc);
                    h.errors.push((format!("decryption share {i} of step {step}"), d));
                }
            }
        }
        for (k, _, p) in &h.masks {
            t.mask(&format!("{k} of step {step}"), p)?;
        }
        if f.n >= 64 {
            for (k, e) in &h.errors {
                t.errors.add_i(format!("{k} of step {step}"), e)?;
            }
        }
    }
    let (a, b) = (t.masks.windows, t.errors.windows);
    cx.ev("mask-windows", a);
    cx.ev("error-windows", b);
    cx.ev("sessions", 1);
    cx.seen((f.id, f.q.clone(), kinds, m));
    Ok(())
}

/// Every bit of the seeds that objects carry is random.
fn seed_bits(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 6, max_k: 3, max_logn: 4, min_k: 2, ..ANY })?;
    let (sk, _) = some_key(cx, &f)?;
    let mut g = cx.fork();
    let level = f.level(cx, 4)?;
    let kind = cx.u(4);
    let m: Vec<BigUint> = f.rand_msg(cx);
    let pt = f.encode(&m, level)?;
    let mut all: Vec<Vec<u8>> = vec![];
    for _ in 0..256 {
        use fhe::proto::bfv as pb;
        match kind {
            0 => {
                let c: Ciphertext = sk.try_encrypt(&pt, &mut g).lib("sk.try_encrypt")?;
                all.push(pb::Ciphertext::from(&c).seed);
            }
            1 => {
                let c: RGSWCiphertext = sk.try_encrypt(&pt, &mut g).lib("rgsw encryption")?;
                let p = pb::RgswCiphertext::from(&c);
                all.extend(p.ksk0.map(|k| k.seed));
                all.extend(p.ksk1.map(|k| k.seed));
            }
            2 => {
                let rk = RelinearizationKey::new(&sk, &mut g).lib("RelinearizationKey::new")?;
                all.extend(pb::RelinearizationKey::from(&rk).ksk.map(|k| k.seed));
            }
            _ => {
                let p = pb::PublicKey::decode(PublicKey::new(&sk, &mut g).to_bytes().as_slice()).prep("public key bytes")?;
                all.extend(p.c.map(|c| c.seed));
            }
        }
    }
    // objects need not carry a seed; those that do must carry a random one
    all.retain(|s| !s.is_empty());
    let n = all.len();
    if n >= 128 {
        let distinct: HashSet<&Vec<u8>> = all.iter().collect();
        check!(distinct.len() == n, "seed:repeated", "{} distinct seeds among {n}", distinct.len());
        for b in 0..8 * all[0].len() {
            let c = all.iter().filter(|s| s[b / 8] >> (b % 8) & 1 == 1).count() as f64;
            let z = (c - n as f64 / 2.0) / (n as f64 / 4.0).sqrt();
            check!(z.abs() < 9.0, "seed:bits", "bit {b} of {n} seeds is set {c} times");
        }
        cx.ev("seeds-compared", n as u64);
    }
    cx.seen((f.id, f.q.clone(), kind, level, m));
    Ok(())
}


//! C20: multiparty protocols produce what the joint secret key would.
use super::c10::{judge, some_key};
use super::c11::b_mul;
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, Encoding, Multiplicator, Plaintext, PublicKey, RelinearizationKey, SecretKey};
use fhe::mbfv::round::R1Aggregated;
use fhe::mbfv::{Aggregate, AggregateIter, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare, SecretKeySwitchShare};
use fhe_math::rq::{Ntt, NttShoup, Poly};
use fhe_traits::{DeserializeParametrized, DeserializeWithContext, FheDecoder, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::Zero;
use prost::Message;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C20",
        rule: "a case is a set of 1..9 parties (now and then 24) with random or extreme secrets over random parameters, and one protocol: public key, relinearization key (both rounds), secret-key switching, public-key switching, decryption, or a full session chaining them. The joint secret is the integer sum of the parties' secrets; results are judged by their true phase under it (or under the target secret) against the worst-case noise the shares may add, and by the library's own decryption. Every aggregation is repeated in a permuted order and over iterators of results, without one share and with one share twice. Distinct = distinct (protocol, parameters, parties, level); non-trivial = an aggregate was judged.",
        workloads: vec![
            Workload { name: "public-key", weight: 3, max: 0, f: public_key },
            Workload { name: "relinearization", weight: 3, max: 0, f: relinearization },
            Workload { name: "switch", weight: 4, max: 0, f: switch },
            Workload { name: "decrypt", weight: 4, max: 0, f: decrypt },
            Workload { name: "session", weight: 2, max: 0, f: session },
        ],
        required: vec![
            "public-keys", "pk-encryptions", "relin-keys", "relinearized", "sk-switched", "pk-switched", "decryptions", "noise-at-threshold", "sessions", "products", "permuted", "missing-share", "own-round-one", "duplicate-share",
            "fresh-shares", "one-party", "many-parties", "lower-levels", "big-t", "results-iterator", "session-lower-level",
        ],
        finish: None,
    }
}

const W: Want = Want { min_k: 1, max_k: 4, max_logn: 6, budget: 14, pool: 200, ..ANY };

struct Parties {
    sk: Vec<SecretKey>,
    s: Vec<Vec<i64>>,
    joint: SecretKey,
    js: Vec<i64>,
}
fn parties(cx: &mut Cx, f: &Fix, max: usize) -> R<Parties> {
    let k = if max > 8 && cx.coin(1, 20) { 24 } else { cx.range(1, max.min(9)) };
    let (mut sk, mut s) = (vec![], vec![]);
    for _ in 0..k {
        let (a, b) = some_key(cx, f)?;
        sk.push(a);
        s.push(b);
    }
    let js: Vec<i64> = (0..f.n).map(|i| s.iter().map(|v| v[i]).sum()).collect();
    match k {
        1 => cx.ev("one-party", 1),
        2..=7 => {}
        _ => cx.ev("many-parties", 1),
    }
    Ok(Parties { joint: secret_from(&js, &f.par)?, js, sk, s })
}
fn shuffle<T>(cx: &mut Cx, mut v: Vec<T>) -> Vec<T> {
    for i in (1..v.len()).rev() {
        v.swap(i, cx.u(i + 1));
    }
    cx.ev("permuted", 1);
    v
}
fn pk_ct(f: &Fix, pk: &PublicKey) -> R<Ciphertext> {
    let p = fhe::proto::bfv::PublicKey::decode(pk.to_bytes().as_slice()).prep("public key bytes")?;
    Ciphertext::from_bytes(&p.c.unwrap_or_default().encode_to_vec(), &f.par).lib("Ciphertext::from_bytes")
}
/// Worst-case noise of an encryption under a public key whose own error is
/// at most e0.
fn b_pk_of(f: &Fix, level: usize, s: &[i64], e0: &BigInt) -> BigInt {
    let b = BigInt::from(2 * f.v);
    let n = BigInt::from(f.n);
    let mut e = e0.clone();
    for l in 0..level {
        e = b_switch(&e, f.q[f.q.len() - 1 - l], s, 2);
    }
    &n * &b * (&e + 1) + &b + &n * &b * linf(s) + 2
}
fn e_party(f: &Fix) -> BigInt {
    BigInt::from(2 * f.v)
}
/// Whether a uniformly wrong message could not be the right one by accident.
fn wide(f: &Fix) -> bool {
    f.t.bits().saturating_sub(1) * f.n as u64 >= 64
}
/// Noise far above what errors can explain.
fn is_noise(e: &BigInt, bound: &BigInt, f: &Fix, level: usize) -> Option<bool> {
    let q = int(f.big_q(level));
    // only conclusive when random phases exceed the bound with certainty
    if (bound << 40usize) > q || f.n < 8 {
        return None;
    }
    Some(e > bound)
}

fn joint_pk(cx: &mut Cx, f: &Fix, p: &Parties) -> R<(PublicKey, Vec<PublicKeyShare>)> {
    let mut r = cx.fork();
    let crp = CommonRandomPoly::new(&f.par, &mut r).lib("CommonRandomPoly::new")?;
    let mut shares = vec![];
    for sk in &p.sk {
        let b4 = sk.to_bytes();
        shares.push(PublicKeyShare::new(sk, crp.clone(), &mut r).lib("PublicKeyShare::new")?);
        check!(sk.to_bytes() == b4, "pk-share:secret-changed", "a public key share changed the secret");
    }
    let pk = PublicKey::from_shares(shares.clone()).lib("PublicKey::from_shares")?;
    Ok((pk, shares))
}

fn public_key(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let p = parties(cx, f, 9)?;
    let np = p.sk.len();
    cx.seen(("pk", f.id, np));
    cx.sample(|| format!("{np} parties; {}", f.desc));
    let (pk, shares) = joint_pk(cx, f, &p)?;
    let c = pk_ct(f, &pk)?;
    let e0 = e_party(f) * BigInt::from(np);
    let ph = phase(&c, &p.js, &f.crt[0]);
    let noise = BigInt::from(inf_norm(&ph));
    check!(c.len() == 2 && noise <= e0, "pk:noise", "the joint public key has error {noise} > {e0} under the joint secret; {np} parties; {}", f.desc);
    check!(lvl(f, &c) == 0, "pk:level", "the joint public key is not at level 0; {}", f.desc);
    cx.ev("public-keys", 1);
    // any order, any iterator
    let again = PublicKey::from_shares(shuffle(cx, shares.clone())).lib("PublicKey::from_shares")?;
    check!(again == pk && again.to_bytes() == pk.to_bytes(), "pk:order", "the order of the shares matters; {np} parties; {}", f.desc);
    let again: PublicKey = shares.iter().cloned().aggregate().lib("aggregate")?;
    check!(again == pk, "pk:iterator", "aggregate() differs from from_shares; {}", f.desc);
    let again: PublicKey = shares.iter().cloned().map(Ok::<_, fhe::Error>).aggregate().lib("aggregate")?;
    check!(again == pk, "pk:iterator", "aggregating results differs; {}", f.desc);
    cx.ev("results-iterator", 1);
    // missing and duplicate shares
    let i = cx.u(np);
    if np > 1 && !p.s[i].iter().all(|x| *x == 0) {
        let mut v = shares.clone();
        v.remove(i);
        let c = pk_ct(f, &PublicKey::from_shares(v).lib("PublicKey::from_shares")?)?;
        let e = BigInt::from(inf_norm(&phase(&c, &p.js, &f.crt[0])));
        if let Some(big) = is_noise(&e, &e0, f, 0) {
            check!(big, "pk:missing-share", "leaving out share {i} of {np} leaves the joint public key valid; {}", f.desc);
            cx.ev("missing-share", 1);
        }
    }
    let mut v = shares.clone();
    v.push(shares[i].clone());
    let d = PublicKey::from_shares(v).lib("PublicKey::from_shares")?;
    check!(d != pk, "pk:duplicate-share", "a duplicate share does not change the key; {}", f.desc);
    cx.ev("duplicate-share", 1);
    // every share carries its own error, even for equal secrets and masks
    if f.n >= 32 {
        let mut r = cx.fork();
        let crp = CommonRandomPoly::new(&f.par, &mut r).lib("CommonRandomPoly::new")?;
        let mut es: Vec<Vec<BigInt>> = vec![];
        for _ in 0..3 {
            let s = PublicKeyShare::new(&p.sk[0], crp.clone(), &mut r).lib("PublicKeyShare::new")?;
            let c = pk_ct(f, &PublicKey::from_shares([s]).lib("PublicKey::from_shares")?)?;
            let e = phase(&c, &p.s[0], &f.crt[0]);
            check!(!es.contains(&e) && e.iter().any(|x| !x.is_zero()), "pk:stale-error", "two public key shares carry the same error; {}", f.desc);
            es.push(e);
        }
        let (a, b) = (CommonRandomPoly::new(&f.par, &mut r).lib("CommonRandomPoly::new")?, CommonRandomPoly::new_vec(&f.par, &mut r).lib("CommonRandomPoly::new_vec")?);
        check!(a != crp && !b.contains(&a) && b.iter().enumerate().all(|(i, x)| !b[..i].contains(x)), "crp:stale", "common random polynomials repeat; {}", f.desc);
        cx.ev("fresh-shares", 1);
    }
    // the key encrypts for the joint secret
    let level = f.level(cx, 3)?;
    let m = f.rand_msg(cx);
    let ct: Ciphertext = pk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("pk.try_encrypt")?;
    let j = judge(cx, f, &p.joint, &p.js, &ct, &m, level, "encryption under a joint public key")?;
    let b = b_pk_of(f, level, &p.js, &e0);
    check!(j.noise <= b, "pk:encryption-noise", "noise {} of an encryption under a joint public key exceeds {b}; level {level}, {np} parties; {}", j.noise, f.desc);
    cx.ev("pk-encryptions", 1);
    Ok(())
}

struct Rounds {
    r1: Arc<RelinKeyShare<R1Aggregated>>,
    rk: RelinearizationKey,
}
fn joint_rk(cx: &mut Cx, f: &Fix, p: &Parties, crp: &[CommonRandomPoly]) -> R<Rounds> {
    let mut r = cx.fork();
    let mut gens = vec![];
    for sk in &p.sk {
        gens.push(RelinKeyGenerator::new(sk, crp, &mut r).lib("RelinKeyGenerator::new")?);
    }
    let mut s1 = vec![];
    for g in &gens {
        s1.push(g.round_1(&mut r).lib("round_1")?);
    }
    let agg = RelinKeyShare::<R1Aggregated>::from_shares(s1.clone()).lib("from_shares(r1)")?;
    let shuffled = RelinKeyShare::<R1Aggregated>::from_shares(shuffle(cx, s1.clone())).lib("from_shares(r1)")?;
    check!(agg == shuffled, "rk:round-one-order", "the order of the round-one shares matters; {}", f.desc);
    if gens.len() > 1 {
        let less = RelinKeyShare::<R1Aggregated>::from_shares(s1[1..].to_vec()).lib("from_shares(r1)")?;
        check!(less != agg, "rk:round-one-missing", "leaving out a round-one share changes nothing; {}", f.desc);
        check!(s1.iter().enumerate().all(|(i, x)| !s1[..i].contains(x)), "rk:stale-share", "two parties made the same round-one share; {}", f.desc);
    }
    let again = gens[0].round_1(&mut r).lib("round_1")?;
    check!(f.n < 32 || again != s1[0], "rk:stale-error", "round one of a party repeats its errors; {}", f.desc);
    let r1 = Arc::new(agg);
    let keep = r1.as_ref().clone();
    let mut s2 = vec![];
    // the aggregate comes from one party, or each party makes its own
    let own = cx.coin(1, 2);
    for g in &gens {
        if own {
            let mine = RelinKeyShare::<R1Aggregated>::from_shares(shuffle(cx, s1.clone())).lib("from_shares(r1)")?;
            s2.push(g.round_2(&Arc::new(mine), &mut r).lib("round_2")?);
        } else {
            s2.push(g.round_2(&r1, &mut r).lib("round_2")?);
        }
    }
    if own && gens.len() > 1 {
        cx.ev("own-round-one", 1);
    }
    let again = gens[0].round_2(&r1, &mut r).lib("round_2")?;
    check!(f.n < 32 || again != s2[0], "rk:stale-error", "round two of a party repeats its errors; {}", f.desc);
    check!(*r1 == keep, "rk:round-one-changed", "the aggregated round-one share changed; {}", f.desc);
    let rk = RelinearizationKey::from_shares(s2.clone()).lib("RelinearizationKey::from_shares")?;
    let shuffled: RelinearizationKey = shuffle(cx, s2.clone()).into_iter().map(Ok::<_, fhe::Error>).aggregate().lib("aggregate")?;
    check!(shuffled == rk && shuffled.to_bytes() == rk.to_bytes(), "rk:order", "the order of the round-two shares matters; {}", f.desc);
    if gens.len() > 1 {
        let i = cx.u(s2.len());
        let mut v = s2.clone();
        v.remove(i);
        let less = RelinearizationKey::from_shares(v).lib("RelinearizationKey::from_shares")?;
        check!(less != rk, "rk:missing-share", "leaving out round-two share {i} changes nothing; {}", f.desc);
        cx.ev("missing-share", 1);
    }
    cx.ev("fresh-shares", 1);
    Ok(Rounds { r1, rk })
}
/// Worst-case error of each component of a joint relinearization key.
fn e_rk(f: &Fix, p: &Parties) -> BigInt {
    let k = BigInt::from(p.sk.len());
    let b = BigInt::from(2 * f.v);
    let kb = &k * &b;
    // s e0 + u e1 + e2 + e3
    &kb * l1(&p.js) + &kb * &kb * BigInt::from(f.n) + &kb * 2
}

fn relinearization(cx: &mut Cx) -> R {
    let f = fix(cx, Want { min_k: 2, budget: 20, ..W })?;
    let f = &f;
    let p = parties(cx, f, 5)?;
    let np = p.sk.len();
    cx.seen(("rk", f.id, np));
    cx.sample(|| format!("{np} parties; {}", f.desc));
    let crp = CommonRandomPoly::new_vec(&f.par, &mut cx.fork()).lib("CommonRandomPoly::new_vec")?;
    check!(crp.len() == f.q.len(), "crp:count", "{} common random polynomials for {} moduli", crp.len(), f.q.len());
    let Rounds { rk, .. } = joint_rk(cx, f, &p, &crp)?;
    // the key itself: c0_i + c1_i s = g_i s^2 + e_i
    let e = e_rk(f, &p);
    let ksk = fhe::proto::bfv::RelinearizationKey::decode(rk.to_bytes().as_slice()).prep("rk bytes")?.ksk.unwrap_or_default();
    check!(ksk.c0.len() == f.q.len() && ksk.c1.len() == f.q.len() && ksk.ciphertext_level == 0 && ksk.ksk_level == 0, "rk:shape", "the joint relinearization key has {} and {} parts at levels {} and {}; {}", ksk.c0.len(), ksk.c1.len(), ksk.ciphertext_level, ksk.ksk_level, f.desc);
    let ctx = f.ctx(0)?;
    let sb: Vec<BigInt> = p.js.iter().map(|x| BigInt::from(*x)).collect();
    let s2 = negacyclic_big(&sb, &sb);
    let q = f.big_q(0);
    for i in 0..f.q.len() {
        let poly = |b: &[u8]| -> R<Poly<Ntt>> { Ok(Poly::<NttShoup>::from_bytes(b, &ctx).lib("Poly::from_bytes")?.into_ntt()) };
        let ph = phase(&[poly(&ksk.c0[i])?, poly(&ksk.c1[i])?], &p.js, &f.crt[0]);
        // g_i is 1 modulo q_i and 0 modulo the others
        let qi = f.q[i];
        let rest = q / qi;
        let inv = invmod((&rest % qi).iter_u64_digits().next().unwrap_or(0), qi).unwrap_or(1);
        let g = &rest * inv;
        for (j, x) in ph.iter().enumerate() {
            let d = center(&modp(&(x - int(&g) * &s2[j]), q), q);
            check!(abs(&d) <= e, "rk:noise", "component {i} of the joint relinearization key has error {d} > {e}; {np} parties; {}", f.desc);
        }
    }
    cx.ev("relin-keys", 1);
    // its use
    let m: Vec<BigInt> = (0..f.n).map(|_| BigInt::from(cx.u(1 << 20))).collect();
    let mut ct = craft(cx, f, 0, &p.js, 3, &m)?;
    rk.relinearizes(&mut ct).lib("relinearizes")?;
    check!(ct.len() == 2, "rk:parts", "{} parts after relinearization", ct.len());
    let b: BigInt = f.q.iter().map(|q| &e * BigInt::from(f.n) * BigInt::from(*q)).sum();
    if (&b << 1usize) < int(q) {
        let ph = phase(&ct, &p.js, &f.crt[0]);
        let d = ph.iter().zip(&m).map(|(a, b)| center(&modp(&(a - b), q), q)).map(|x| abs(&x)).max().unwrap_or_default();
        check!(d <= b, "rk:relinearized-noise", "relinearizing with a joint key adds {d} > {b}; {np} parties; {}", f.desc);
        cx.ev("relinearized", 1);
    }
    Ok(())
}

/// A ciphertext under the joint secret, its message and true noise.
fn joint_ct(cx: &mut Cx, f: &Fix, p: &Parties, level: usize, room: &BigInt) -> R<(Ciphertext, Vec<BigUint>, BigInt)> {
    let m = f.rand_msg(cx);
    let th = f.threshold(level) - room;
    let ct = if cx.coin(1, 2) || th <= BigInt::zero() {
        p.joint.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("sk.try_encrypt")?
    } else {
        // noise as large as the protocol still allows
        cx.ev("noise-at-threshold", 1);
        let neg = cx.coin(1, 2);
        let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| if neg { x - &th } else { x + &th }).collect();
        craft(cx, f, level, &p.js, 2, &ph)?
    };
    let e = f.noise_inf(&phase(&ct, &p.js, &f.crt[level]), &m, level);
    Ok((ct, m, e))
}

fn switch(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let p = parties(cx, f, 9)?;
    let np = p.sk.len();
    let level = f.level(cx, 3)?;
    if level > 0 {
        cx.ev("lower-levels", 1);
    }
    if f.ts.is_none() {
        cx.ev("big-t", 1);
    }
    let by_pk = cx.coin(1, 2);
    cx.seen(("switch", by_pk, f.id, np, level));
    cx.sample(|| format!("{np} parties level {level}; {}", f.desc));
    let mut r = cx.fork();
    let k = BigInt::from(np);
    if !by_pk {
        let mut out = vec![];
        let mut so = vec![];
        for _ in 0..np {
            let (a, b) = some_key(cx, f)?;
            out.push(a);
            so.push(b);
        }
        let js: Vec<i64> = (0..f.n).map(|i| so.iter().map(|v| v[i]).sum()).collect();
        let add = e_party(f) * &k;
        let (ct, m, e) = joint_ct(cx, f, &p, level, &add)?;
        let ct = Arc::new(ct);
        let keep = ct.as_ref().clone();
        let shares = |r: &mut rand_chacha::ChaCha8Rng| -> R<Vec<SecretKeySwitchShare>> {
            p.sk.iter().zip(&out).map(|(a, b)| SecretKeySwitchShare::new(a, b, ct.clone(), r).lib("SecretKeySwitchShare::new")).collect()
        };
        let v = shuffle(cx, shares(&mut r)?);
        let c2 = Ciphertext::from_shares(v).lib("Ciphertext::from_shares(sks)")?;
        check!(*ct == keep, "sks:input-changed", "switching changed its input; {}", f.desc);
        check!(c2.len() == 2 && c2[1] == ct[1] && lvl(f, &c2) == level, "sks:shape", "{} parts, level {} instead of {level}; {}", c2.len(), lvl(f, &c2), f.desc);
        let target = secret_from(&js, &f.par)?;
        let j = judge(cx, f, &target, &js, &c2, &m, level, "secret-key switched")?;
        check!(j.noise <= &e + &add, "sks:noise", "noise {} after switching exceeds {e} + {add}; {np} parties level {level}; {}", j.noise, f.desc);
        cx.ev("sk-switched", 1);
        // shares are fresh
        if f.n >= 32 {
            let c3 = Ciphertext::from_shares(shares(&mut r)?).lib("Ciphertext::from_shares(sks)")?;
            check!(c3 != c2, "sks:stale-error", "two runs of the protocol used the same errors; {}", f.desc);
            // a single share differs from an error-free one
            let one = Ciphertext::from_shares([SecretKeySwitchShare::new(&p.sk[0], &p.sk[0], ct.clone(), &mut r).lib("SecretKeySwitchShare::new")?]).lib("from_shares")?;
            check!(one[0] != ct[0], "sks:no-error", "a switching share carries no error; {}", f.desc);
            cx.ev("fresh-shares", 1);
        }
        // without one share the result differs
        let i = cx.u(np);
        if np > 1 && p.s[i] != so[i] {
            let mut v = shares(&mut r)?;
            v.remove(i);
            let c = Ciphertext::from_shares(v).lib("Ciphertext::from_shares(sks)")?;
            let e2 = f.noise_inf(&phase(&c, &js, &f.crt[level]), &m, level);
            let bound = &e + &add;
            if wide(f) && (&bound << 40usize) < int(f.big_q(level)) {
                check!(e2 > bound, "sks:missing-share", "leaving out share {i} of {np} changes nothing; {}", f.desc);
                cx.ev("missing-share", 1);
            }
        }
    } else {
        let (sk_out, s_out) = some_key(cx, f)?;
        let pk_out = PublicKey::new(&sk_out, &mut r);
        let mut e_pk = e_party(f);
        for l in 0..level {
            e_pk = b_switch(&e_pk, f.q[f.q.len() - 1 - l], &s_out, 2);
        }
        let b = BigInt::from(2 * f.v);
        let add = &k * (BigInt::from(f.n) * &b * &e_pk + &b + BigInt::from(f.n) * &b * linf(&s_out));
        let (ct, m, e) = joint_ct(cx, f, &p, level, &add)?;
        let keep = (ct.clone(), pk_out.clone());
        let shares = |r: &mut rand_chacha::ChaCha8Rng| -> R<Vec<PublicKeySwitchShare>> { p.sk.iter().map(|a| PublicKeySwitchShare::new(a, &pk_out, &ct, r).lib("PublicKeySwitchShare::new")).collect() };
        let v = shuffle(cx, shares(&mut r)?);
        let c2 = Ciphertext::from_shares(v).lib("Ciphertext::from_shares(pks)")?;
        check!(ct == keep.0 && pk_out == keep.1, "pks:input-changed", "switching changed its input; {}", f.desc);
        check!(c2.len() == 2 && lvl(f, &c2) == level, "pks:shape", "{} parts, level {} instead of {level}; {}", c2.len(), lvl(f, &c2), f.desc);
        let j = judge(cx, f, &sk_out, &s_out, &c2, &m, level, "public-key switched")?;
        check!(j.noise <= &e + &add, "pks:noise", "noise {} after public-key switching exceeds {e} + {add}; {np} parties level {level}; {}", j.noise, f.desc);
        cx.ev("pk-switched", 1);
        if f.n >= 32 {
            let c3 = Ciphertext::from_shares(shares(&mut r)?).lib("Ciphertext::from_shares(pks)")?;
            check!(c3[0] != c2[0] && c3[1] != c2[1], "pks:stale-error", "two runs of the protocol used the same randomness; {}", f.desc);
            cx.ev("fresh-shares", 1);
        }
        let i = cx.u(np);
        if np > 1 && p.s[i].iter().any(|x| *x != 0) {
            let mut v = shares(&mut r)?;
            v.remove(i);
            let c = Ciphertext::from_shares(v).lib("Ciphertext::from_shares(pks)")?;
            let e2 = f.noise_inf(&phase(&c, &s_out, &f.crt[level]), &m, level);
            let bound = &e + &add;
            if wide(f) && (&bound << 40usize) < int(f.big_q(level)) {
                check!(e2 > bound, "pks:missing-share", "leaving out share {i} of {np} changes nothing; {}", f.desc);
                cx.ev("missing-share", 1);
            }
        }
    }
    Ok(())
}

/// Collective decryption of a ciphertext whose noise leaves room for it.
fn together(cx: &mut Cx, f: &Fix, p: &Parties, ct: &Ciphertext, m: &[BigUint], e: &BigInt, level: usize, what: &str) -> R {
    let np = p.sk.len();
    let add = e_party(f) * BigInt::from(np);
    let ct = Arc::new(ct.clone());
    let mut r = cx.fork();
    let shares = |r: &mut rand_chacha::ChaCha8Rng| -> R<Vec<DecryptionShare>> { p.sk.iter().map(|a| DecryptionShare::new(a, &ct, r).lib("DecryptionShare::new")).collect() };
    let v = shares(&mut r)?;
    let v = if cx.coin(1, 2) { shuffle(cx, v) } else { v };
    let pt = if cx.coin(1, 3) {
        cx.ev("results-iterator", 1);
        Plaintext::from_shares(v.into_iter().map(Ok::<_, fhe::Error>)).lib("Plaintext::from_shares")?
    } else {
        Plaintext::from_shares(v).lib("Plaintext::from_shares")?
    };
    check!(pt.level() == level, "decrypt:level", "{what}: a plaintext at level {} instead of {level}; {}", pt.level(), f.desc);
    if e + &add <= f.threshold(level) {
        let d = Vec::<BigUint>::try_decode(&pt, Encoding::poly_at_level(level)).lib("decode")?;
        check!(d == m, "decrypt:wrong", "{what}: {np} parties decrypt {} instead of {} with noise {e} + {add} below {}; level {level}; {}", msg_str(&d), msg_str(m), f.threshold(level), f.desc);
        check!(pt == f.encode(m, level)?, "decrypt:plaintext", "{what}: the collective plaintext differs from the encoded message; {}", f.desc);
        cx.ev("decryptions", 1);
        let i = cx.u(np);
        if np > 1 && wide(f) && p.s[i].iter().any(|x| *x != 0) {
            let mut v = shares(&mut r)?;
            v.remove(i);
            let d = Vec::<BigUint>::try_decode(&Plaintext::from_shares(v).lib("Plaintext::from_shares")?, Encoding::poly_at_level(level)).lib("decode")?;
            check!(d != m, "decrypt:missing-share", "{what}: {np} parties decrypt without share {i}; {}", f.desc);
            cx.ev("missing-share", 1);
        }
        if wide(f) && p.s[i].iter().any(|x| *x != 0) {
            let mut v = shares(&mut r)?;
            v.push(DecryptionShare::new(&p.sk[i], &ct, &mut r).lib("DecryptionShare::new")?);
            let d = Vec::<BigUint>::try_decode(&Plaintext::from_shares(v).lib("Plaintext::from_shares")?, Encoding::poly_at_level(level)).lib("decode")?;
            check!(d != m, "decrypt:duplicate-share", "{what}: {np} parties decrypt with share {i} twice; {}", f.desc);
            cx.ev("duplicate-share", 1);
        }
    }
    Ok(())
}

fn decrypt(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let p = parties(cx, f, 9)?;
    let level = f.level(cx, 3)?;
    let np = p.sk.len();
    if level > 0 {
        cx.ev("lower-levels", 1);
    }
    if f.ts.is_none() {
        cx.ev("big-t", 1);
    }
    cx.seen(("decrypt", f.id, np, level));
    cx.sample(|| format!("{np} parties level {level}; {}", f.desc));
    let room = e_party(f) * BigInt::from(np);
    let (ct, m, e) = joint_ct(cx, f, &p, level, &room)?;
    together(cx, f, &p, &ct, &m, &e, level, "collective decryption")
}

fn session(cx: &mut Cx) -> R {
    let f = fix(cx, Want { min_k: 2, budget: 60, max_t: 40, small_t: true, lo: 30, ..W })?;
    let f = &f;
    let p = parties(cx, f, 5)?;
    let np = p.sk.len();
    cx.seen(("session", f.id, np));
    cx.sample(|| format!("{np} parties; {}", f.desc));
    let (pk, _) = joint_pk(cx, f, &p)?;
    let crp = CommonRandomPoly::new_vec(&f.par, &mut cx.fork()).lib("CommonRandomPoly::new_vec")?;
    let Rounds { rk, .. } = joint_rk(cx, f, &p, &crp)?;
    let (m1, m2) = (f.rand_msg(cx), f.rand_msg(cx));
    let enc = |cx: &mut Cx, m: &[BigUint]| -> R<Ciphertext> { pk.try_encrypt(&f.encode(m, 0)?, &mut cx.fork()).lib("pk.try_encrypt") };
    let (c1, c2) = (enc(cx, &m1)?, enc(cx, &m2)?);
    let noise = |c: &Ciphertext, m: &[BigUint], l: usize| f.noise_inf(&phase(c, &p.js, &f.crt[l]), m, l);
    let (e1, e2) = (noise(&c1, &m1, 0), noise(&c2, &m2, 0));
    let mult = Multiplicator::default(&rk).lib("Multiplicator::default")?;
    let c = mult.multiply(&c1, &c2).lib("multiply")?;
    let m = f.mmul(&m1, &m2);
    let e = noise(&c, &m, 0);
    let b = b_mul(f, 0, &p.js, (&e1, &m1, 2), (&e2, &m2, 2)) + f.q.iter().map(|q| e_rk(f, &p) * BigInt::from(f.n) * BigInt::from(*q)).sum::<BigInt>();
    if (&b << 1usize) < int(f.big_q(0)) / int(&f.t) {
        check!(e <= b, "session:noise", "noise {e} of a product relinearized with a joint key exceeds {b}; {np} parties; {}", f.desc);
        cx.ev("products", 1);
    }
    // everything continues under the joint secret: sums, lower levels, switching to one owner
    let mut sum = &c + &c1;
    let mut ms = f.madd(&m, &m1);
    let mut level = 0;
    let mut es = noise(&sum, &ms, 0);
    if cx.coin(1, 2) && f.deepest(30).unwrap_or(0) > 0 && es <= f.threshold(0) {
        level = cx.range(1, f.deepest(30).unwrap_or(0));
        sum.switch_to_level(level).lib("switch_to_level")?;
        es = noise(&sum, &ms, level);
        cx.ev("session-lower-level", 1);
    }
    together(cx, f, &p, &sum, &ms, &es, level, "session")?;
    let (owner, so) = some_key(cx, f)?;
    let pk_out = PublicKey::new(&owner, &mut cx.fork());
    let mut r = cx.fork();
    let out: Ciphertext = p.sk.iter().map(|s| PublicKeySwitchShare::new(s, &pk_out, &sum, &mut r)).aggregate().lib("aggregate")?;
    if es <= f.threshold(level) {
        judge(cx, f, &owner, &so, &out, &ms, level, "session switched to its owner")?;
    }
    // the owner adds and it is still one message
    let fresh: Ciphertext = owner.try_encrypt(&f.encode(&m2, level)?, &mut cx.fork()).lib("encrypt")?;
    let fin = &out + &fresh;
    ms = f.madd(&ms, &m2);
    judge(cx, f, &owner, &so, &fin, &ms, level, "session continued by its owner")?;
    cx.ev("sessions", 1);
    Ok(())
}

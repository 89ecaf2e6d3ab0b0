//! C12: ciphertext multiplication, configurable multipliers, relinearization.
use super::c10::{judge, some_key};
use super::c11::{b_mul, m_l1};
use crate::fixt::*;
use crate::gen_::{many_primes, primes};
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, Encoding, Multiplicator, Plaintext, PublicKey, RelinearizationKey, SecretKey};
use fhe_math::rns::ScalingFactor;
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};

pub fn property() -> Property {
    Property {
        id: "C12",
        rule: "a case is a parameter set, a level, two ciphertexts (fresh, or built around a chosen phase with noise up to what the product tolerates, or the results of earlier products) and a way to multiply: the operator, the default multiplier, or a custom multiplier with scaling of either side and disjoint or overlapping extended bases, each with or without relinearization key (of the same or an earlier key level) and modulus switching. The phase of the result is recomputed with schoolbook arithmetic: its message must be the negacyclic product modulo t and its noise within the analytical bound of tensoring, key switching and rounding. Relinearization alone is judged on three-part ciphertexts of arbitrary phase. Distinct = distinct (parameters, strategy, levels, messages); non-trivial = a product was judged.",
        workloads: vec![
            Workload { name: "multiply", weight: 10, max: 0, f: multiply },
            Workload { name: "relinearize", weight: 7, max: 0, f: relinearize },
            Workload { name: "chain", weight: 4, max: 0, f: chain },
            Workload { name: "self", weight: 3, max: 0, f: selfmul },
            Workload { name: "parts", weight: 3, max: 0, f: parts },
            Workload { name: "large", weight: 1, max: 0, f: large },
        ],
        required: vec![
            "strategy:operator", "strategy:default", "strategy:wide-basis", "strategy:disjoint-basis", "strategy:scaled-rhs", "strategy:scaled-lhs",
            "with-relinearization", "without-relinearization", "with-mod-switching", "lower-levels", "key-above-ciphertext", "relinearized", "relinearized-at-threshold",
            "self-products", "chained-products", "big-t", "keys-from-bytes", "large-products", "exact-products", "exact-squares", "exact-many-parts",
        ],
        finish: None,
    }
}

struct Op {
    ct: Ciphertext,
    m: Vec<BigUint>,
    e: BigInt,
}

fn operand(cx: &mut Cx, f: &Fix, sk: &SecretKey, s: &[i64], level: usize, noise: &BigInt) -> R<Op> {
    let m = f.rand_msg(cx);
    let ct: Ciphertext = match cx.u(4) {
        0 => sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("sk.try_encrypt")?,
        1 => PublicKey::new(sk, &mut cx.fork()).try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("pk.try_encrypt")?,
        _ => {
            let all = cx.coin(1, 3);
            let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| x + if all { noise.clone() } else { rnd_i(cx, noise) }).collect();
            craft(cx, f, level, s, 2, &ph)?
        }
    };
    let ph = phase(&ct, s, &f.crt[level]);
    let e = f.noise_inf(&ph, &m, level);
    Ok(Op { ct, m, e })
}

/// A relinearization key for a level, with its key level.
fn some_rk(cx: &mut Cx, f: &Fix, sk: &SecretKey, level: usize) -> R<Option<(RelinearizationKey, usize)>> {
    let k = f.q.len();
    // the key context needs at least two moduli
    if k < 2 {
        return Ok(None);
    }
    let max = level.min(k - 2);
    let kl = cx.range(0, max);
    let rk = if level == 0 && kl == 0 && cx.coin(1, 2) {
        RelinearizationKey::new(sk, &mut cx.fork()).lib("RelinearizationKey::new")?
    } else {
        RelinearizationKey::new_leveled(sk, level, kl, &mut cx.fork()).lib("RelinearizationKey::new_leveled")?
    };
    let rk = if cx.coin(1, 5) {
        cx.ev("keys-from-bytes", 1);
        let r = RelinearizationKey::from_bytes(&rk.to_bytes(), &f.par).lib("RelinearizationKey::from_bytes")?;
        check!(r == rk, "rk:round-trip", "a relinearization key changed by serialization; {}", f.desc);
        r
    } else {
        rk
    };
    if kl < level {
        cx.ev("key-above-ciphertext", 1);
    }
    Ok(Some((rk, kl)))
}

/// `count` NTT primes of 62 bits outside `not`.
fn extra(cx: &mut Cx, n: usize, count: usize, not: &[u64]) -> Vec<u64> {
    let p = many_primes(n);
    let mut v: Vec<u64> = vec![];
    while v.len() < count {
        let c = p[cx.u(p.len())];
        if !not.contains(&c) && !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn build_mult(cx: &mut Cx, f: &Fix, level: usize, rk: Option<&RelinearizationKey>, s: &[i64], a: &Op, b: &Op) -> R<(&'static str, Multiplicator, BigInt)> {
    let q = f.big_q(level).clone();
    let moduli = &f.q[..f.q.len() - level];
    let one = ScalingFactor::one;
    let tq = || ScalingFactor::new(&f.t, &q);
    let base = b_mul(f, level, s, (&a.e, &a.m, 2), (&b.e, &b.m, 2));
    let need = (q.bits() as usize + f.n.ilog2() as usize + 4).div_ceil(61);
    let wrap = |m: fhe::Result<Multiplicator>, what: &str| m.lib(what);
    let strat = cx.u(if rk.is_some() { 5 } else { 4 });
    let delta = pow_sum(s, 2) / 2 + 2;
    let nt = int(&f.t) * BigInt::from(f.n);
    let k = pow_sum(s, 2) / 2 + 2;
    // extra noise when one side is scaled by P/Q and the product by t/P
    let scaled = |p: &BigUint, x: &Op| -> BigInt {
        let p = int(p);
        &delta * (int(&q) * (m_l1(&x.m) + &nt * &k) + &nt * (&x.e + 1)) / p + 2
    };
    let leveled = level > 0 || cx.coin(1, 2);
    let mk = |l, r, ext: &[u64], post| {
        if leveled {
            Multiplicator::new_leveled(l, r, ext, post, level, &f.par)
        } else {
            Multiplicator::new(l, r, ext, post, &f.par)
        }
    };
    Ok(match strat {
        0 => {
            let mut ext = moduli.to_vec();
            ext.extend(extra(cx, f.n, need, moduli));
            ("strategy:wide-basis", wrap(mk(one(), one(), &ext, tq()), "Multiplicator::new")?, base)
        }
        1 => {
            let c = (2 * q.bits() as usize + f.n.ilog2() as usize + 4).div_ceil(61);
            let ext = extra(cx, f.n, c, moduli);
            ("strategy:disjoint-basis", wrap(mk(one(), one(), &ext, tq()), "Multiplicator::new")?, base)
        }
        2 | 3 => {
            let c = (q.bits() as usize).div_ceil(61) + cx.u(2);
            let ps = extra(cx, f.n, c, moduli);
            let p: BigUint = prod(&ps);
            let mut ext = moduli.to_vec();
            ext.extend(&ps);
            let up = ScalingFactor::new(&p, &q);
            let tp = ScalingFactor::new(&f.t, &p);
            if strat == 2 {
                ("strategy:scaled-rhs", wrap(mk(one(), up, &ext, tp), "Multiplicator::new")?, base + scaled(&p, a))
            } else {
                ("strategy:scaled-lhs", wrap(mk(up, one(), &ext, tp), "Multiplicator::new")?, base + scaled(&p, b))
            }
        }
        _ => ("strategy:default", wrap(Multiplicator::default(rk.unwrap()), "Multiplicator::default")?, base),
    })
}

fn multiply(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 40, max_k: 6, max_logn: 5, ..ANY })?;
    let level = f.level(cx, 34)?;
    let (sk, s) = some_key(cx, &f)?;
    // noise the product should tolerate: a random share of what is left
    let room: BigInt = int(f.big_q(level)) / (int(&f.t) * 4 * BigInt::from(f.n) * int(&f.t) * (pow_sum(&s, 2) + 2) + 1);
    let noise = if cx.coin(1, 2) { room.clone() } else { room.min(BigInt::from(5)) };
    let noise = noise.max(BigInt::from(0));
    let a = operand(cx, &f, &sk, &s, level, &noise)?;
    let b = operand(cx, &f, &sk, &s, level, &noise)?;
    let (x, y) = (a.ct.clone(), b.ct.clone());
    let rk = if cx.coin(2, 3) { some_rk(cx, &f, &sk, level)? } else { None };
    let mut switch = false;
    let (name, ct, mut bound, mut nlv) = if cx.coin(1, 6) {
        let mut c = &a.ct * &b.ct;
        let mut bd = b_mul(&f, level, &s, (&a.e, &a.m, 2), (&b.e, &b.m, 2));
        check!(c.len() == 3, "mul:parts", "{} parts", c.len());
        if let Some((rk, kl)) = &rk {
            rk.relinearizes(&mut c).lib("relinearizes")?;
            bd += b_ks(&f, &s, level, *kl);
        }
        ("strategy:operator", c, bd, level)
    } else {
        let (name, mut mu, mut bd) = build_mult(cx, &f, level, rk.as_ref().map(|x| &x.0), &s, &a, &b)?;
        if let Some((rk, kl)) = &rk {
            if name != "strategy:default" || cx.coin(1, 4) {
                mu.enable_relinearization(rk).lib("enable_relinearization")?;
            }
            bd += b_ks(&f, &s, level, *kl);
        }
        if level < f.max_level() && cx.coin(1, 3) {
            mu.enable_mod_switching().lib("enable_mod_switching")?;
            switch = true;
        }
        let c = mu.multiply(&a.ct, &b.ct).lib("multiply")?;
        (name, c, bd, level)
    };
    check!(x == a.ct && y == b.ct, "operand-modified", "multiplication changed an operand");
    let parts = if rk.is_some() { 2 } else { 3 };
    if switch {
        bound = b_switch(&bound, f.q[f.q.len() - 1 - level], &s, parts);
        nlv += 1;
    }
    check!(ct.len() == parts, "mul:parts", "{} parts instead of {parts} ({name})", ct.len());
    check!(lvl(&f, &ct) == nlv, "mul:level", "product at level {} instead of {nlv}", lvl(&f, &ct));
    cx.tr(format!("{name} rk {:?} switch {switch} noise {} {} bound {bound}", rk.as_ref().map(|x| x.1), a.e, b.e));
    if bound > f.threshold(nlv) {
        return Err(Fail::Skip("product too noisy to promise anything"));
    }
    let m = f.mmul(&a.m, &b.m);
    let j = judge(cx, &f, &sk, &s, &ct, &m, nlv, name)?;
    check!(j.noise <= bound, format!("noise:{name}"), "noise {} after {name} exceeds {bound} (operands {} {}); rk {:?} switch {switch} level {level}; {}", j.noise, a.e, b.e, rk.as_ref().map(|x| x.1), f.desc);
    cx.ev(name, 1);
    cx.ev(if rk.is_some() { "with-relinearization" } else { "without-relinearization" }, 1);
    if switch {
        cx.ev("with-mod-switching", 1);
    }
    cx.sample(|| format!("{name} {} level {level} noise {} bound {bound}", f.desc, j.noise));
    cx.seen((f.id, f.q.clone(), name, rk.map(|x| x.1), switch, level, m));
    Ok(())
}

fn relinearize(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 20, min_k: 2, max_k: 5, max_logn: 5, ..ANY })?;
    let level = f.level(cx, 8)?;
    let (sk, s) = some_key(cx, &f)?;
    let Some((rk, kl)) = some_rk(cx, &f, &sk, level)? else { return Err(Fail::Skip("one modulus")) };
    let ks = b_ks(&f, &s, level, kl);
    let th = f.threshold(level);
    let m = f.rand_msg(cx);
    // any phase at all: the added noise is what relinearization is judged on
    let e: BigInt = match cx.u(3) {
        0 => &th - &ks,
        1 => BigInt::from(0),
        _ => rnd_i(cx, &abs(&th)),
    };
    let ph: Vec<BigInt> = f.scaled(&m, level).into_iter().map(|x| x + &e).collect();
    let mut ct = craft(cx, &f, level, &s, 3, &ph)?;
    let before = phase(&ct, &s, &f.crt[level]);
    if cx.coin(1, 8) {
        // extreme third component
        let ctx = f.ctx(level)?;
        let v: Vec<BigInt> = (0..f.n).map(|_| BigInt::from(-1)).collect();
        let top = poly_of(&v, &ctx, &f.crt[level])?;
        let c: Vec<_> = vec![ct[0].clone(), ct[1].clone(), top];
        ct = Ciphertext::new(c, &f.par).lib("Ciphertext::new")?;
        let before = phase(&ct, &s, &f.crt[level]);
        rk.relinearizes(&mut ct).lib("relinearizes")?;
        return added(cx, &f, &s, &ct, &before, level, kl, &ks);
    }
    rk.relinearizes(&mut ct).lib("relinearizes")?;
    added(cx, &f, &s, &ct, &before, level, kl, &ks)?;
    if &e + &ks <= th && -&e + &ks <= th {
        judge(cx, &f, &sk, &s, &ct, &m, level, "relinearization")?;
        if &e + &ks == th {
            cx.ev("relinearized-at-threshold", 1);
        }
    }
    cx.seen((f.id, f.q.clone(), level, kl, m));
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn added(cx: &mut Cx, f: &Fix, s: &[i64], ct: &Ciphertext, before: &[BigInt], level: usize, kl: usize, ks: &BigInt) -> R {
    check!(ct.len() == 2, "relin:parts", "{} parts after relinearization", ct.len());
    check!(lvl(&f, &ct) == level, "relin:level", "level {} after relinearization at {level}", lvl(&f, &ct));
    let after = phase(ct, s, &f.crt[level]);
    let q = f.big_q(level);
    for (a, b) in after.iter().zip(before) {
        let d = center(&modp(&(a - b), q), q);
        check!(abs(&d) <= *ks, "noise:relinearization", "relinearization added noise {d}, bound {ks}; level {level} key level {kl}; {}", f.desc);
    }
    cx.ev("relinearized", 1);
    Ok(())
}

/// Products of products, down the chain.
fn chain(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 110, min_k: 3, max_k: 6, max_logn: 4, max_t: 40, lo: 30, ..ANY })?;
    let (sk, s) = some_key(cx, &f)?;
    let mut level = f.level(cx, 90)?;
    let mut a = operand(cx, &f, &sk, &s, level, &BigInt::from(1))?;
    let mut steps = 0;
    while steps < 5 {
        let Some((rk, kl)) = some_rk(cx, &f, &sk, level)? else { break };
        let mut mu = Multiplicator::default(&rk).lib("Multiplicator::default")?;
        let sw = level < f.max_level() && cx.coin(1, 2);
        if sw {
            mu.enable_mod_switching().lib("enable_mod_switching")?;
        }
        let b = if cx.coin(1, 3) { Op { ct: a.ct.clone(), m: a.m.clone(), e: a.e.clone() } } else { operand(cx, &f, &sk, &s, level, &BigInt::from(1))? };
        let mut bound = b_mul(&f, level, &s, (&a.e, &a.m, 2), (&b.e, &b.m, 2)) + b_ks(&f, &s, level, kl);
        let mut nl = level;
        if sw {
            bound = b_switch(&bound, f.q[f.q.len() - 1 - level], &s, 2);
            nl += 1;
        }
        if bound > f.threshold(nl) {
            break;
        }
        let ct = mu.multiply(&a.ct, &b.ct).lib("multiply")?;
        let m = f.mmul(&a.m, &b.m);
        check!(lvl(&f, &ct) == nl, "mul:level", "product at level {} instead of {nl}", lvl(&f, &ct));
        let j = judge(cx, &f, &sk, &s, &ct, &m, nl, "chained product")?;
        check!(j.noise <= bound, "noise:chain", "noise {} after product {steps} exceeds {bound}; {}", j.noise, f.desc);
        a = Op { ct, m, e: j.noise };
        level = nl;
        steps += 1;
        if steps > 1 {
            cx.ev("chained-products", 1);
        }
    }
    if steps > 0 {
        cx.seen((f.id, f.q.clone(), level, steps, a.m));
    }
    Ok(())
}

fn selfmul(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 30, max_k: 4, max_logn: 5, ..ANY })?;
    let level = f.level(cx, 4)?;
    let (sk, s) = some_key(cx, &f)?;
    let len = cx.range(2, 4);
    let a = operand(cx, &f, &sk, &s, level, &BigInt::from(3))?;
    let ct = if len == 2 {
        a.ct.clone()
    } else {
        let ph = phase(&a.ct, &s, &f.crt[level]);
        craft(cx, &f, level, &s, len, &ph)?
    };
    // an equal ciphertext that shares nothing with it
    let twin = Ciphertext::from_bytes(&ct.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?;
    let x = &ct * &ct;
    let y = &ct * &ct.clone();
    let z = &ct * &twin;
    check!(x.len() == 2 * len - 1, "self:parts", "{} parts", x.len());
    let same = |u: &Ciphertext, v: &Ciphertext| u.iter().zip(v.iter()).all(|(p, q)| p == q) && u.len() == v.len();
    check!(same(&x, &y) && same(&x, &z), "self:differs", "squaring a ciphertext of {len} parts differs from multiplying equal ciphertexts; {}", f.desc);
    // multiplying by something different must not be mistaken for squaring
    let other = &ct + &twin;
    let w = &ct * &other;
    let w2 = &other * &ct;
    check!(same(&w, &w2), "mul:commutes", "products in the two orders differ; {}", f.desc);
    if len == 2 {
        if let Some((rk, _)) = some_rk(cx, &f, &sk, level)? {
            let mu = Multiplicator::default(&rk).lib("Multiplicator::default")?;
            let p = mu.multiply(&ct, &ct).lib("multiply")?;
            let q = mu.multiply(&ct, &twin).lib("multiply")?;
            check!(p == q, "self:differs", "the multiplier treats a shared operand differently; {}", f.desc);
        }
    }
    cx.ev("self-products", 1);
    cx.seen((f.id, f.q.clone(), level, len, a.m));
    Ok(())
}

/// Products of ciphertexts of any lengths, every coefficient of every part
/// against the integer tensor product.
fn parts(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 25, max_k: 4, max_logn: 4, ..ANY })?;
    let level = f.level(cx, 4)?;
    let crt = &f.crt[level];
    let (_, s) = some_key(cx, &f)?;
    let mk = |cx: &mut Cx, len: usize| -> R<Ciphertext> {
        let q = int(f.big_q(level));
        // extreme coefficients as often as uniform ones
        let ph: Vec<BigInt> = (0..f.n).map(|_| rnd_i(cx, &(&q / 2))).collect();
        craft(cx, &f, level, &s, len, &ph)
    };
    let (la, lb) = (cx.range(2, 5), cx.range(2, 5));
    let a = mk(cx, la)?;
    let square = cx.coin(1, 2);
    let b = if square { a.clone() } else { mk(cx, lb)? };
    let c = &a * &b;
    let lift = |ct: &Ciphertext| -> Vec<Vec<BigInt>> {
        ct.iter().map(|p| cols(&p.clone().into_power_basis(), crt).iter().map(|x| center(x, &crt.q)).collect()).collect()
    };
    let (pa, pb, pc) = (lift(&a), lift(&b), lift(&c));
    check!(pc.len() == pa.len() + pb.len() - 1, "parts:count", "{} parts from {} and {}", pc.len(), pa.len(), pb.len());
    let (t, q) = (int(&f.t), int(&crt.q));
    for k in 0..pc.len() {
        let mut d = vec![BigInt::from(0); f.n];
        for i in 0..pa.len() {
            if k >= i && k - i < pb.len() {
                for (x, y) in d.iter_mut().zip(negacyclic_big(&pa[i], &pb[k - i])) {
                    *x += y;
                }
            }
        }
        for j in 0..f.n {
            let (want, _) = round_div(&(&d[j] * &t), &q);
            let diff = center(&modp(&(&pc[k][j] - want), &crt.q), &crt.q);
            check!(abs(&diff) <= BigInt::from(1), "parts:value", "part {k} of the product of {} and {} parts (square {square}) is off by {diff} at coefficient {j}; {}", pa.len(), pb.len(), f.desc);
        }
    }
    cx.ev(if square { "exact-squares" } else { "exact-products" }, 1);
    if pa.len() > 3 && pb.len() > 3 {
        cx.ev("exact-many-parts", 1);
    }
    cx.seen((f.id, f.q.clone(), level, pa));
    Ok(())
}

/// Realistic degrees, judged through decryption.
fn large(cx: &mut Cx) -> R {
    let idx = cx.idx as usize;
    let n = match idx {
        0..3 => 4096,
        3 => 16384,
        4 => 65536,
        _ => 1usize << cx.range(7, 11),
    };
    let k = cx.range(3, 5);
    let q = crate::gen_::moduli(cx, n, k, 55, 62);
    let t = primes(if n > 4096 { 24 } else { *cx.pick(&[17u32, 20, 24]) }, n)[0];
    let f = build(20_000 + idx, n, &q, &big(t), cx.range(1, 32))?;
    let level = cx.u(k - 2);
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let kl = cx.range(0, level);
    let rk = RelinearizationKey::new_leveled(&sk, level, kl, &mut cx.fork()).lib("RelinearizationKey::new_leveled")?;
    let vals = |cx: &mut Cx| (0..n).map(|_| cx.u64() % t).collect::<Vec<u64>>();
    let (va, vb) = (vals(cx), vals(cx));
    let enc = |cx: &mut Cx, v: &Vec<u64>| -> R<Ciphertext> {
        let pt = Plaintext::try_encode(v, Encoding::simd_at_level(level), &f.par).lib("encode")?;
        sk.try_encrypt(&pt, &mut cx.fork()).lib("encrypt")
    };
    let (ca, cb) = (enc(cx, &va)?, enc(cx, &vb)?);
    let mut mu = Multiplicator::default(&rk).lib("Multiplicator::default")?;
    let sw = cx.coin(1, 2);
    if sw {
        mu.enable_mod_switching().lib("enable_mod_switching")?;
    }
    let c1 = mu.multiply(&ca, &cb).lib("multiply")?;
    let mut c2 = &ca * &cb;
    rk.relinearizes(&mut c2).lib("relinearizes")?;
    let want: Vec<u64> = va.iter().zip(&vb).map(|(x, y)| mulmod(*x, *y, t)).collect();
    for (c, l, what) in [(&c1, level + sw as usize, "multiplier"), (&c2, level, "operator")] {
        check!(lvl(&f, c) == l && c.len() == 2, "mul:shape", "{what}: level {} with {} parts", lvl(&f, c), c.len());
        let d = Vec::<u64>::try_decode(&sk.try_decrypt(c).lib("decrypt")?, Encoding::simd_at_level(l)).lib("decode")?;
        check!(d == want, "mul:large", "degree {n}: {what} product decrypts wrongly; level {level} key level {kl}; {}", f.desc);
    }
    cx.ev("large-products", 2);
    cx.seen((n, q, t, level, kl, sw, va[0]));
    Ok(())
}

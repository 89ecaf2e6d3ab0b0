//! C16: secrets, errors and masks follow their stated distributions.
use super::c10::some_key;
use crate::fixt::*;
use crate::gen_;
use crate::model::*;
use crate::mon::*;
use crate::open::*;
use crate::stats::{self, Fresh};
use crate::{check, viol};
use fhe::bfv::SecretKey;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis};
use fhe_math::zq::Modulus;
use rand::{CryptoRng, Rng, SeedableRng};
use std::collections::BTreeMap;

pub fn property() -> Property {
    Property {
        id: "C16",
        rule: "a case draws samples from one place: the sampler itself (every variance, lengths from 0 to 131072, several generators, and scripted generators that produce extreme words), small polynomials of every representation and context, uniform residues of moduli of every size, uniform and seeded polynomials, or whole operations (key generation, secret- and public-key encryption, relinearization, Galois and RGSW keys, multi-party shares) whose errors and masks are recovered exactly from their results: secret-key phases, encryptions under a known transparent public key, and the answers of keys to the digits of one. Every sample is bounded; samples are tested against the exact distribution, for mean and variance, for dependence on samples at 30 distances, between residues of different moduli and between the errors of one operation, and for windows of samples that occur twice. Every statistic fails a correct sampler with probability below exp(-30). Distinct = distinct sources (variance, modulus, context, parameters).",
        workloads: vec![
            Workload { name: "sampler", weight: 6, max: 0, f: sampler },
            Workload { name: "edges", weight: 2, max: 0, f: edges },
            Workload { name: "small", weight: 4, max: 0, f: small },
            Workload { name: "uniform", weight: 4, max: 0, f: uniform },
            Workload { name: "polynomials", weight: 4, max: 0, f: polynomials },
            Workload { name: "operations", weight: 8, max: 0, f: operations },
        ],
        required: vec![
            "samples", "lag-tests", "residues", "scripted", "small-polynomials", "variance-1", "variance-16", "variance-17", "variance-32", "secret-keys", "seeded-polynomials",
            "errors:sk-encryption", "errors:pk-encryption", "errors:public-key", "errors:rgsw", "errors:relinearization-key", "errors:galois-key", "errors:public-key-share", "errors:secret-key-switch-share",
            "errors:public-key-switch-share", "errors:relin-share",
        ],
        finish: None,
    }
}

fn variance(cx: &mut Cx) -> usize {
    match cx.u(4) {
        0 => *cx.pick(&[1, 10, 16, 17, 31, 32]),
        _ => cx.range(1, 32),
    }
}

/// A generator that emits a repeating script of words.
struct Script(Vec<u64>, usize);
impl rand::TryRng for Script {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.next() as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        Ok(self.next())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Self::Error> {
        for c in dst.chunks_mut(8) {
            let w = self.next().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        Ok(())
    }
}
impl rand::TryCryptoRng for Script {}
impl Script {
    fn next(&mut self) -> u64 {
        self.1 += 1;
        self.0[(self.1 - 1) % self.0.len()]
    }
}

fn with_rng<T>(cx: &mut Cx, f: impl FnOnce(&mut dyn FnMut(usize, usize) -> R<Vec<i64>>) -> R<T>) -> R<T> {
    fn go<G: Rng + CryptoRng, T>(mut g: G, f: impl FnOnce(&mut dyn FnMut(usize, usize) -> R<Vec<i64>>) -> R<T>) -> R<T> {
        f(&mut |n, v| fhe_util::sample_vec_cbd(n, v, &mut g).lib("sample_vec_cbd"))
    }
    let c = cx.fork();
    match cx.u(4) {
        0 => go(rand::rngs::StdRng::seed_from_u64(cx.u64()), f),
        1 => go(rand_chacha::ChaCha20Rng::seed_from_u64(cx.u64()), f),
        _ => go(c, f),
    }
}

fn sampler(cx: &mut Cx) -> R {
    let var = if cx.idx < 320 { cx.idx as usize % 32 + 1 } else { variance(cx) };
    let calls = *cx.pick(&[1usize, 1, 2, 7, 64]);
    let total = 1usize << cx.range(14, 17);
    let odd = cx.u(9);
    let v = with_rng(cx, |s| {
        let mut v = vec![];
        for i in 0..calls {
            let len = (total / calls + (i * odd) % 9).max(1);
            let x = s(len, var)?;
            check!(x.len() == len, "cbd:length", "{} samples instead of {len}", x.len());
            v.extend(x);
        }
        Ok(v)
    })?;
    let what = format!("sample_vec_cbd in {calls} calls");
    stats::cbd(cx, &what, &v, var)?;
    Fresh::new(64).add_i(what, &v)?;
    match var {
        1 => cx.ev("variance-1", 1),
        16 => cx.ev("variance-16", 1),
        17 => cx.ev("variance-17", 1),
        32 => cx.ev("variance-32", 1),
        _ => {}
    }
    let d = (var, v);
    cx.seen(d);
    Ok(())
}

/// Short vectors and generators that emit extreme words: bounds and lengths.
fn edges(cx: &mut Cx) -> R {
    let var = variance(cx);
    let n = cx.u(200);
    let words: Vec<u64> = match cx.u(5) {
        0 => vec![u64::MAX],
        1 => vec![0],
        2 => vec![u64::MAX, 0],
        3 => vec![(1u128 << (2 * var).min(64)).wrapping_sub(1) as u64, 0],
        _ => (0..cx.range(1, 9)).map(|_| *cx.pick(&[0, u64::MAX, u64::MAX << 32, u64::MAX >> 32, 0xaaaa_aaaa_aaaa_aaaa, 1, 1 << 63])).collect(),
    };
    let v = fhe_util::sample_vec_cbd(n, var, &mut Script(words.clone(), 0)).lib("sample_vec_cbd")?;
    check!(v.len() == n, "cbd:length", "{} samples instead of {n}", v.len());
    stats::cbd(cx, "scripted words", &v, var)?;
    for bad in [0usize, 33, 34, 64, usize::MAX, 33 + cx.u(1000)] {
        check!(fhe_util::sample_vec_cbd(n, bad, &mut cx.fork()).is_err(), "cbd:variance-accepted", "variance {bad} accepted");
    }
    let (c, q, d) = gen_::rand_ctx(cx, 3, 6)?;
    let p = Poly::<PowerBasis>::small(&c, var, &mut Script(words.clone(), 0)).lib("Poly::small")?;
    residues(&p, &q, d, var)?;
    cx.ev("scripted", 1);
    cx.seen((var, n, words));
    Ok(())
}

/// The integers behind a small polynomial; every residue must show the same.
fn residues(p: &Poly<PowerBasis>, q: &[u64], n: usize, var: usize) -> R<Vec<i64>> {
    let c = p.coefficients();
    check!(c.shape() == [q.len(), n], "small:shape", "shape {:?}", c.shape());
    let b = 2 * var as i128;
    // the modulus with the widest range decides which integer it is
    let w = (0..q.len()).max_by_key(|i| q[*i]).unwrap_or(0);
    let mut out = Vec::with_capacity(n);
    for j in 0..n {
        let x = center_u64(c[[w, j]], q[w]);
        if q[w] as i128 > 2 * b {
            check!(x.abs() <= b, "cbd:bound", "coefficient {j} is {x} although the variance is {var}");
        }
        for (i, m) in q.iter().enumerate() {
            check!(c[[i, j]] as i128 == x.rem_euclid(*m as i128), "small:residues", "coefficient {j} is {x} modulo {} and {} modulo {m}", q[w], c[[i, j]]);
        }
        out.push(x as i64);
    }
    Ok(out)
}

fn small(cx: &mut Cx) -> R {
    let var = variance(cx);
    let (c, q, n) = gen_::rand_ctx(cx, 4, 11)?;
    let count = (16384 / n).clamp(1, 512);
    let mut g = cx.fork();
    let rep = cx.u(3);
    let (mut v, mut first) = (vec![], vec![]);
    for _ in 0..count {
        let p = match rep {
            0 => Poly::<PowerBasis>::small(&c, var, &mut g).lib("Poly::small")?,
            1 => Poly::<Ntt>::small(&c, var, &mut g).lib("Poly::small")?.into_power_basis(),
            _ => Poly::<NttShoup>::small(&c, var, &mut g).lib("Poly::small")?.into_ntt().into_power_basis(),
        };
        let x = residues(&p, &q, n, var)?;
        first.push(x[0]);
        v.extend(x);
    }
    cx.ev("small-polynomials", count as u64);
    if q.iter().any(|m| *m as i64 > 4 * var as i64) {
        stats::cbd(cx, &format!("small polynomials of degree {n}"), &v, var)?;
        stats::cbd(cx, &format!("first coefficients of small polynomials of degree {n}"), &first, var)?;
        for l in [n, 2 * n, n / 2] {
            if v.len() >= 2 * l {
                stats::pair("small polynomials", &v[..v.len() - l], &v[l..], var, &format!("at distance {l} (degree {n})"))?;
            }
        }
        if n >= 64 {
            Fresh::new(64).add_i(format!("{count} small polynomials of degree {n}"), &v)?;
        }
    }
    cx.seen((var, q, n, rep, v));
    Ok(())
}

fn uniform(cx: &mut Cx) -> R {
    let bits = cx.range(2, 62) as u32;
    let mut p = (cx.u64() >> (64 - bits)) | 1 << (bits - 1);
    match cx.u(6) {
        // moduli for which careless reductions of 2^64 or 2^63 are most biased
        0 => p = (1u64 << (bits - 1)) + (1u64 << (bits - 1)) / 2 + cx.u(9) as u64,
        1 => p = (1u64 << (bits - 1)) / 3 * 4 + 1,
        2 => p = (1u64 << (bits - 1)) + 1,
        3 => p = ((1u128 << bits) - 1 - cx.u(3) as u128) as u64,
        _ => {}
    }
    let p = p.clamp(2, (1 << 62) - 1);
    let m = Modulus::new(p).lib("Modulus::new")?;
    let calls = *cx.pick(&[1usize, 1, 3, 16]);
    let total = 1usize << cx.range(13, 17);
    let mut g = cx.fork();
    let mut v = vec![];
    for i in 0..calls {
        let len = total / calls + i;
        let x = m.random_vec(len, &mut g);
        check!(x.len() == len, "uniform:length", "{} residues instead of {len}", x.len());
        v.extend(x);
    }
    let what = format!("random_vec modulo {p}");
    stats::uniform(cx, &what, &v, p)?;
    if bits >= 8 {
        Fresh::new(16).add(what, &v)?;
    }
    cx.seen((p, v));
    Ok(())
}

/// Rows of uniform polynomials, alone and against each other.
fn masks(cx: &mut Cx, what: &str, polys: &[Vec<Vec<u64>>], q: &[u64]) -> R {
    let rows: Vec<Vec<u64>> = (0..q.len()).map(|i| polys.iter().flat_map(|p| p[i].iter().copied()).collect()).collect();
    for (r, m) in rows.iter().zip(q) {
        stats::uniform(cx, what, r, *m)?;
    }
    for i in 0..q.len() {
        for j in 0..i {
            for l in [0usize, 1, 2] {
                let n = rows[i].len();
                if n > l {
                    stats::flat(what, (&rows[i][..n - l], q[i]), (&rows[j][l..], q[j]), &format!("of two moduli at distance {l}"))?;
                    stats::flat(what, (&rows[i][l..], q[i]), (&rows[j][..n - l], q[j]), &format!("of two moduli at distance {l}"))?;
                }
            }
        }
    }
    Ok(())
}

fn polynomials(cx: &mut Cx) -> R {
    let (c, q, n) = gen_::rand_ctx(cx, 4, 11)?;
    let count = (8192 / n).clamp(1, 256);
    let mut g = cx.fork();
    let rep = cx.u(5);
    let mut polys = vec![];
    for _ in 0..count {
        let mut seed = [0u8; 32];
        g.fill_bytes(&mut seed);
        let r = |p: &[u64]| p.to_vec();
        let arr = match rep {
            0 => Poly::<PowerBasis>::random(&c, &mut g).coefficients().to_owned(),
            1 => Poly::<Ntt>::random(&c, &mut g).coefficients().to_owned(),
            2 => Poly::<NttShoup>::random(&c, &mut g).coefficients().to_owned(),
            3 => Poly::<Ntt>::random_from_seed(&c, seed).coefficients().to_owned(),
            _ => Poly::<NttShoup>::random_from_seed(&c, seed).coefficients().to_owned(),
        };
        polys.push(arr.outer_iter().map(|x| r(x.as_slice().unwrap_or(&[]))).collect::<Vec<_>>());
    }
    masks(cx, if rep < 3 { "random polynomials" } else { "seeded polynomials" }, &polys, &q)?;
    if rep >= 3 {
        cx.ev("seeded-polynomials", count as u64);
    }
    // no run of residues twice, whatever the modulus and the polynomial
    let mut f = Fresh::new(16);
    for (i, p) in polys.iter().enumerate() {
        for (r, m) in p.iter().zip(&q) {
            if *m > 255 {
                f.add(format!("polynomial {i} modulo {m}"), r)?;
            }
        }
    }
    cx.seen((q, n, rep, polys));
    Ok(())
}

/// Errors and masks of whole operations.
fn operations(cx: &mut Cx) -> R {
    let mut f = fix(cx, Want { budget: 3, max_k: 4, max_logn: 12, pool: 300, ..ANY })?;
    for _ in 0..20 {
        if f.n >= 64 {
            break;
        }
        f = fix(cx, Want { budget: 3, max_k: 4, max_logn: 12, pool: 300, ..ANY })?;
    }
    let level = f.level(cx, 2)?;
    let mut g = cx.fork();
    let sk = SecretKey::random(&f.par, &mut g);
    let sc = Scene::new(&f, sk)?;
    let (odd_sk, _) = some_key(cx, &f)?;
    let odd = Scene::new(&f, odd_sk)?;
    let glass = sc.glass()?;
    let mut h = Haul::default();
    let want = 8192;
    let kind = cx.u(8);
    let per = match kind {
        4 | 5 => 2,
        _ => 1,
    };
    let count = (want / f.n / per).clamp(1, 40);
    for i in 0..count {
        let who = if i % 5 == 4 { &odd } else { &sc };
        let m = f.rand_msg(cx);
        match kind {
            0 => {
                who.sk_encrypt(&mut h, &m, level, &mut g)?;
            }
            1 => {
                if let Some(p) = &glass {
                    who.pk_encrypt(&mut h, p, &m, &mut g)?;
                }
            }
            2 => {
                who.public_key(&mut h, &mut g)?;
            }
            3 => {
                let sk = SecretKey::random(&f.par, &mut g);
                h.errors.push(("secret-key".into(), secret(&sk)?));
                cx.ev("secret-keys", 1);
            }
            4 => {
                who.rgsw(&mut h, &m, level, &mut g)?;
            }
            5 => {
                if f.q.len() - level < 2 {
                    return Err(Fail::Skip("no relinearization with one modulus"));
                }
                who.relin(&mut h, level, &mut g)?;
            }
            6 => {
                let mut by: Vec<usize> = (0..cx.u(3)).map(|_| cx.range(1, f.n / 2 - 1)).collect();
                by.sort_unstable();
                by.dedup();
                who.evaluation(&mut h, level, true, &by, &mut g)?;
            }
            _ => who.shares(&mut h, glass.as_ref(), level, &mut g)?,
        }
    }
    // by kind of error
    let mut by: BTreeMap<String, Vec<i64>> = BTreeMap::new();
    for (k, e) in &h.errors {
        let k = k.split('[').next().unwrap_or(k).to_string();
        by.entry(k).or_default().extend(e);
    }
    for (k, e) in &by {
        stats::cbd(cx, &format!("errors of {k} (degree {})", f.n), e, f.v)?;
        let k = k.split(':').next().unwrap_or(k);
        let k = if k.starts_with("galois-key") { "galois-key" } else { k.trim_end_matches(|c: char| c == '0' || c == '1') };
        cx.ev(&format!("errors:{k}"), e.len() as u64);
    }
    // between the errors of one operation
    for (a, x) in &by {
        for (b, y) in &by {
            if a < b && x.len() == y.len() {
                for l in [0usize, 1] {
                    stats::pair(&format!("errors of {a} and {b}"), &x[l..], &y[..y.len() - l], f.v, &format!("at distance {l}"))?;
                }
            }
        }
    }
    if f.n >= 64 {
        let mut fr = Fresh::new(64);
        for (k, e) in &h.errors {
            fr.add_i(k.clone(), e)?;
        }
        cx.ev("error-windows", fr.windows);
    }
    let mut fr = Fresh::new(16);
    let mut polys: BTreeMap<usize, Vec<Vec<Vec<u64>>>> = BTreeMap::new();
    for (k, l, m) in &h.masks {
        let r = rows(m);
        for (x, q) in r.iter().zip(&f.q) {
            if *q > 255 {
                fr.add(format!("{k} modulo {q}"), x)?;
            }
        }
        polys.entry(*l).or_default().push(r);
    }
    for (l, p) in &polys {
        masks(cx, "masks of keys and ciphertexts", p, &f.q[..f.q.len() - l])?;
    }
    cx.ev("mask-windows", fr.windows);
    if h.errors.is_empty() {
        return Err(Fail::Skip("modulus too small for transparent keys"));
    }
    cx.seen((f.id, f.q.clone(), kind, level, h.errors));
    Ok(())
}

//! Generators shared by the monitors: prime pools, contexts, parameters.
#![allow(dead_code)]
use crate::model::*;
use crate::mon::*;
use fhe_math::rq::Context;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

static PRIMES: OnceLock<Mutex<HashMap<(u32, u64), Arc<Vec<u64>>>>> = OnceLock::new();
/// The largest `bits`-bit primes congruent to 1 modulo 2 * degree.
pub fn primes(bits: u32, degree: usize) -> Arc<Vec<u64>> {
    let m = PRIMES.get_or_init(Default::default);
    let k = (bits, 2 * degree as u64);
    if let Some(v) = m.lock().unwrap().get(&k) {
        return v.clone();
    }
    let v = Arc::new(ntt_primes(bits, k.1, 12, 0));
    m.lock().unwrap().insert(k, v.clone());
    v
}
/// Four dozen 62-bit NTT primes for this degree.
pub fn many_primes(degree: usize) -> Arc<Vec<u64>> {
    let m = PRIMES.get_or_init(Default::default);
    let k = (1062, 2 * degree as u64);
    if let Some(v) = m.lock().unwrap().get(&k) {
        return v.clone();
    }
    let v = Arc::new(ntt_primes(62, k.1, 48, 0));
    m.lock().unwrap().insert(k, v.clone());
    v
}
/// A list of distinct NTT primes for this degree, with sizes drawn from `bits`.
pub fn moduli(cx: &mut Cx, degree: usize, count: usize, lo: u32, hi: u32) -> Vec<u64> {
    let mut out: Vec<u64> = vec![];
    let mut tries = 0;
    let lo = lo.max((2 * degree as u64).ilog2() + 1);
    let hi = hi.max(lo);
    while out.len() < count && tries < 200 {
        tries += 1;
        let b = if cx.coin(1, 3) { hi } else { cx.range(lo as usize, hi as usize) as u32 };
        let p = primes(b, degree);
        if p.is_empty() {
            continue;
        }
        let q = p[cx.u(p.len())];
        if !out.contains(&q) {
            out.push(q);
        }
    }
    out
}

type CtxMap = HashMap<(Vec<u64>, usize), Arc<Context>>;
static CTXS: OnceLock<Mutex<CtxMap>> = OnceLock::new();
pub fn ctx(moduli: &[u64], degree: usize) -> R<Arc<Context>> {
    let m = CTXS.get_or_init(Default::default);
    let k = (moduli.to_vec(), degree);
    if let Some(c) = m.lock().unwrap().get(&k) {
        return Ok(c.clone());
    }
    let c = Context::new_arc(moduli, degree).lib("Context::new")?;
    let mut g = m.lock().unwrap();
    if g.len() > 3000 {
        g.clear();
    }
    g.insert(k, c.clone());
    Ok(c)
}
/// A random context: small degrees mostly, one to `maxk` moduli of mixed sizes.
pub fn rand_ctx(cx: &mut Cx, maxk: usize, max_log: usize) -> R<(Arc<Context>, Vec<u64>, usize)> {
    let degree = 1usize << cx.range(3, max_log);
    let k = cx.range(1, maxk);
    let style = cx.u(4);
    let (lo, hi) = match style {
        0 => (62, 62),
        1 => (10, 62),
        2 => (10, 30),
        _ => (40, 62),
    };
    let m = moduli(cx, degree, k, lo, hi);
    if m.is_empty() {
        return Err(Fail::Skip("no primes"));
    }
    Ok((ctx(&m, degree)?, m, degree))
}

/// Residues with boundary values over-represented.
pub fn residue(cx: &mut Cx, p: u64) -> u64 {
    match cx.u(12) {
        0 => 0,
        1 => p - 1,
        2 => 1 % p,
        3 => p / 2,
        4 => (p / 2 + 1) % p,
        _ => cx.u64() % p,
    }
}
pub fn residues(cx: &mut Cx, n: usize, p: u64) -> Vec<u64> {
    if n == 0 {
        return vec![];
    }
    match cx.u(8) {
        0 => vec![p - 1; n],
        1 => {
            let mut v = vec![0; n];
            let i = cx.u(n);
            v[i] = residue(cx, p);
            v
        }
        2 => (0..n).map(|_| if cx.coin(1, 2) { p - 1 } else { 0 }).collect(),
        3 => {
            let s = cx.range(1, 40);
            (0..n).map(|_| (cx.u64() % s as u64) % p).collect()
        }
        4 => (0..n).map(|_| residue(cx, p)).collect(),
        _ => (0..n).map(|_| cx.u64() % p).collect(),
    }
}

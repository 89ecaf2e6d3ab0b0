//! Statistical oracles. Every test here fails a correct sampler with
//! probability below about exp(-30), so that no run is expected to fail one.
use crate::mon::*;
use crate::{check, viol};
use std::collections::HashMap;

/// Chi-square of observed counts against expected ones; neighbouring cells are
/// merged until each expects at least 25.
pub fn chi2(obs: &[f64], exp: &[f64]) -> Option<String> {
    let (mut o, mut e): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
    let (mut a, mut b) = (0.0, 0.0);
    for (x, y) in obs.iter().zip(exp) {
        a += x;
        b += y;
        if b >= 25.0 {
            o.push(a);
            e.push(b);
            a = 0.0;
            b = 0.0;
        }
    }
    if let (Some(x), Some(y)) = (o.last_mut(), e.last_mut()) {
        *x += a;
        *y += b;
    } else {
        return None;
    }
    if o.len() < 2 {
        return None;
    }
    let d = (o.len() - 1) as f64;
    let x: f64 = o.iter().zip(&e).map(|(o, e)| (o - e) * (o - e) / e).sum();
    // Laurent-Massart with exp(-40); the slack covers the finite counts
    let t = 40.0;
    let lim = d + 2.0 * (d * t).sqrt() + 2.0 * t;
    (x > lim).then(|| format!("chi-square {x:.1} with {d} degrees of freedom (limit {lim:.1})"))
}

/// Probabilities of the centred binomial distribution of variance v.
pub fn cbd_pmf(v: usize) -> Vec<f64> {
    let n = 4 * v;
    let mut p = vec![0.0f64; n + 1];
    p[0] = 0.5f64.powi(n as i32);
    for i in 1..=n {
        p[i] = p[i - 1] * (n - i + 1) as f64 / i as f64;
    }
    p
}

const LAGS: [usize; 30] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 31, 32, 33, 48, 63, 64, 65, 128, 256, 512, 1024, 2048, 4096, 8192, 16384];

/// Independent centred binomial samples of variance v.
pub fn cbd(cx: &mut Cx, what: &str, v: &[i64], var: usize) -> R {
    let n = v.len() as f64;
    let fv = var as f64;
    let b = 2 * var as i64;
    if let Some(i) = v.iter().position(|x| x.abs() > b) {
        viol!("cbd:bound", "{what}: sample {i} is {} although the variance is {var}", v[i]);
    }
    cx.ev("samples", v.len() as u64);
    if v.len() < 2048 {
        return Ok(());
    }
    let sum: f64 = v.iter().map(|x| *x as f64).sum();
    check!(sum.abs() < 9.0 * (n * fv).sqrt(), "cbd:mean", "{what}: mean {} of {n} samples of variance {var}", sum / n);
    let sq: f64 = v.iter().map(|x| (x * x) as f64).sum();
    // excess kurtosis is negative, so the variance of a square is at most 2v²
    check!((sq - n * fv).abs() < 10.0 * (2.0 * n).sqrt() * fv, "cbd:variance", "{what}: variance {} of {n} samples instead of {var}", sq / n);
    let mut obs = vec![0.0; 4 * var + 1];
    v.iter().for_each(|x| obs[(x + b) as usize] += 1.0);
    let exp: Vec<f64> = cbd_pmf(var).iter().map(|p| p * n).collect();
    if let Some(e) = chi2(&obs, &exp) {
        viol!("cbd:distribution", "{what}: {e} for variance {var}, {n} samples");
    }
    for l in LAGS.into_iter().filter(|l| l * 2 <= v.len()) {
        pair(what, &v[..v.len() - l], &v[l..], var, &format!("at distance {l}"))?;
    }
    cx.ev("lag-tests", 2 * LAGS.len() as u64);
    // joint distribution of neighbours
    if v.len() >= 8192 {
        let class = |x: i64| -> usize {
            let t = (fv.sqrt() * 0.6).round().max(1.0) as i64;
            if x <= -t { 0 } else if x < 0 { 1 } else if x == 0 { 2 } else if x < t { 3 } else { 4 }
        };
        let p = cbd_pmf(var);
        let mut pc = [0.0; 5];
        p.iter().enumerate().for_each(|(i, q)| pc[class(i as i64 - b)] += q);
        for l in [1, 2] {
            let mut o = vec![0.0; 25];
            let mut cnt = 0.0;
            let mut i = 0;
            while i + l < v.len() {
                o[class(v[i]) * 5 + class(v[i + l])] += 1.0;
                cnt += 1.0;
                i += 2 * l;
            }
            let e: Vec<f64> = (0..25).map(|k| pc[k / 5] * pc[k % 5] * cnt).collect();
            let (o, e): (Vec<f64>, Vec<f64>) = o.into_iter().zip(e).filter(|x| x.1 > 0.0).unzip();
            if let Some(m) = chi2(&o, &e) {
                viol!("cbd:neighbours", "{what}: samples at distance {l} are dependent: {m}, variance {var}");
            }
        }
    }
    Ok(())
}

/// Two vectors of samples of the same variance must be uncorrelated.
pub fn pair(what: &str, a: &[i64], b: &[i64], var: usize, how: &str) -> R {
    let n = a.len().min(b.len()) as f64;
    if n < 1024.0 {
        return Ok(());
    }
    let v = var as f64;
    let c: f64 = a.iter().zip(b).map(|(x, y)| (x * y) as f64).sum();
    let c = c / (n.sqrt() * v);
    check!(c.abs() < 9.5, "cbd:correlation", "{what}: samples {how} are correlated: {c:.1} sigma over {n} pairs of variance {var}");
    let m = 2.0 * v * v;
    let c: f64 = a.iter().zip(b).map(|(x, y)| ((x * x) as f64 - v) * ((y * y) as f64 - v)).sum();
    let c = c / (n.sqrt() * m);
    check!(c.abs() < 14.0, "cbd:square-correlation", "{what}: magnitudes of samples {how} are correlated: {c:.1} sigma over {n} pairs of variance {var}");
    Ok(())
}

/// Uniform canonical residues.
pub fn uniform(cx: &mut Cx, what: &str, v: &[u64], p: u64) -> R {
    if let Some(i) = v.iter().position(|x| *x >= p) {
        viol!("uniform:canonical", "{what}: residue {i} is {} modulo {p}", v[i]);
    }
    cx.ev("residues", v.len() as u64);
    let n = v.len() as f64;
    if n < 2048.0 {
        return Ok(());
    }
    let test = |name: &str, cells: usize, f: &dyn Fn(u64) -> usize, size: &dyn Fn(usize) -> f64| -> R {
        let mut o = vec![0.0; cells];
        v.iter().for_each(|x| o[f(*x)] += 1.0);
        let e: Vec<f64> = (0..cells).map(|c| size(c) * n / p as f64).collect();
        if let Some(m) = chi2(&o, &e) {
            viol!(format!("uniform:{name}"), "{what}: {m} ({name}) modulo {p}, {n} residues");
        }
        Ok(())
    };
    if p <= 8192 {
        test("value", p as usize, &|x| x as usize, &|_| 1.0)?;
    }
    // equal slices of [0, p)
    let cells = 64u64.min(p) as u128;
    let start = |c: u128| (c * p as u128).div_ceil(cells);
    test("range", cells as usize, &|x| ((x as u128 * cells) / p as u128) as usize, &|c| (start(c as u128 + 1) - start(c as u128)) as f64)?;
    test("low-bits", cells as usize, &|x| (x % cells as u64) as usize, &|c| (p / cells as u64 + ((c as u64) < p % cells as u64) as u64) as f64)?;
    if p > 1 << 30 {
        for sh in [8u32, 16, 24, 32, 40] {
            if p >> sh > 1 << 16 {
                test("middle-bits", 64, &|x| (x >> sh) as usize % 64, &|_| p as f64 / 64.0)?;
            }
        }
    }
    // neighbours
    let cells = 8u128.min(p as u128);
    let cls = |x: u64| ((x as u128 * cells) / p as u128) as usize;
    let start = |c: u128| (c * p as u128).div_ceil(cells);
    let pc: Vec<f64> = (0..cells).map(|c| (start(c + 1) - start(c)) as f64 / p as f64).collect();
    let k = cells as usize;
    let mut o = vec![0.0; k * k];
    let mut cnt = 0.0;
    for w in v.chunks_exact(2) {
        o[cls(w[0]) * k + cls(w[1])] += 1.0;
        cnt += 1.0;
    }
    let e: Vec<f64> = (0..k * k).map(|i| pc[i / k] * pc[i % k] * cnt).collect();
    if let Some(m) = chi2(&o, &e) {
        viol!("uniform:neighbours", "{what}: neighbouring residues are dependent: {m} modulo {p}");
    }
    for l in LAGS.into_iter().filter(|l| l * 2 <= v.len()) {
        flat(what, (&v[..v.len() - l], p), (&v[l..], p), &format!("at distance {l}"))?;
    }
    cx.ev("lag-tests", LAGS.len() as u64);
    Ok(())
}
/// Correlation of two vectors of residues, of any moduli.
pub fn flat(what: &str, a: (&[u64], u64), b: (&[u64], u64), how: &str) -> R {
    let n = a.0.len().min(b.0.len()) as f64;
    if n < 1024.0 || a.1 < 3 || b.1 < 3 {
        return Ok(());
    }
    let f = |x: u64, p: u64| (x as f64 - (p - 1) as f64 / 2.0) / p as f64;
    let c: f64 = a.0.iter().zip(b.0).map(|(x, y)| f(*x, a.1) * f(*y, b.1)).sum();
    let var = |p: u64| (1.0 - 1.0 / (p as f64 * p as f64)) / 12.0;
    let c = c / (n * var(a.1) * var(b.1)).sqrt();
    check!(c.abs() < 9.5, "uniform:correlation", "{what}: residues {how} are correlated: {c:.1} sigma over {n} pairs, moduli {} and {}", a.1, b.1);
    Ok(())
}

/// Remembers every window of consecutive values; reports windows seen twice.
pub struct Fresh {
    w: usize,
    seen: HashMap<u64, (usize, usize)>,
    names: Vec<String>,
    pub windows: u64,
}
impl Fresh {
    pub fn new(w: usize) -> Self {
        Fresh { w, seen: HashMap::new(), names: vec![], windows: 0 }
    }
    pub fn add(&mut self, name: String, v: &[u64]) -> R {
        let id = self.names.len();
        self.names.push(name);
        const M: u64 = 0x9e37_79b9_7f4a_7c15;
        let w = self.w;
        if v.len() < w {
            return Ok(());
        }
        let mix = |x: u64| {
            let y = (x ^ (x >> 31)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            y ^ (y >> 29)
        };
        let top = (0..w - 1).fold(1u64, |a, _| a.wrapping_mul(M));
        let mut h = 0u64;
        for i in 0..v.len() {
            if i >= w {
                h = h.wrapping_sub(mix(v[i - w]).wrapping_mul(top));
            }
            h = h.wrapping_mul(M).wrapping_add(mix(v[i]));
            if i + 1 >= w {
                self.windows += 1;
                let at = i + 1 - w;
                if let Some((o, p)) = self.seen.insert(h, (id, at)) {
                    viol!("repeated", "{} values from {at} of {} repeat those from {p} of {}", w, self.names[id], self.names[o]);
                }
            }
        }
        Ok(())
    }
    pub fn add_i(&mut self, name: String, v: &[i64]) -> R {
        let u: Vec<u64> = v.iter().map(|x| *x as u64).collect();
        self.add(name, &u)
    }
}

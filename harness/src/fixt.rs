//! BFV fixtures: parameter sets of every shape, and the textbook scheme the
//! oracles compare against (phases, rounding and noise in big integers).
#![allow(dead_code)]
use crate::gen_::{moduli, primes};
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{BfvParameters, BfvParametersBuilder, Ciphertext, Encoding, Plaintext, SecretKey};
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, Poly, PowerBasis};
use fhe_traits::{FheDecoder, FheDecrypter, FheEncoder, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, ToPrimitive, Zero};
use prost::Message;
use rand::{Rng, RngExt};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Want {
    pub simd: bool,
    pub small_t: bool,
    pub max_k: usize,
    pub min_k: usize,
    pub max_logn: usize,
    /// bits(Q at every level the case may use) - bits(t) at level 0
    pub budget: u64,
    /// smallest modulus size drawn
    pub lo: u32,
    /// largest plaintext modulus size drawn (0: no limit)
    pub max_t: u64,
    pub pool: usize,
}
pub const ANY: Want = Want { simd: false, small_t: false, max_k: 5, min_k: 1, max_logn: 6, budget: 24, lo: 10, max_t: 0, pool: 400 };

pub struct Fix {
    pub id: usize,
    pub par: Arc<BfvParameters>,
    pub n: usize,
    pub q: Vec<u64>,
    pub t: BigUint,
    pub ts: Option<u64>,
    pub v: usize,
    pub simd: bool,
    /// per level
    pub crt: Vec<Crt>,
    pub desc: String,
}

type Pool = HashMap<(Want, usize, u64), Arc<Fix>>;
static POOL: OnceLock<Mutex<Pool>> = OnceLock::new();

pub fn fix(cx: &mut Cx, w: Want) -> R<Arc<Fix>> {
    let id = cx.u(w.pool);
    let m = POOL.get_or_init(Default::default);
    let key = (w, id, cx.seed);
    if let Some(f) = m.lock().unwrap().get(&key) {
        return Ok(f.clone());
    }
    let h = w.pool as u64 * 31 + w.max_k as u64 * 7 + w.budget * 1009 + w.simd as u64 * 3 + w.small_t as u64 * 5 + w.lo as u64 * 131 + w.max_t;
    let mut g = Cx {
        rng: case_rng("fixt", "pool", cx.seed.wrapping_mul(1_000_003).wrapping_add(h), id as u64),
        idx: id as u64,
        seed: cx.seed,
        thorough: cx.thorough,
        stats: Stats::default(),
        sample: None,
        trace: vec![],
        outs: vec![],
    };
    for _ in 0..400 {
        let Some((n, q, t, v)) = draw(&mut g, &w) else { continue };
        let f = build(id, n, &q, &t, v)?;
        if w.simd && !f.simd {
            continue;
        }
        let f = Arc::new(f);
        m.lock().unwrap().insert(key, f.clone());
        return Ok(f);
    }
    Err(Fail::Harness(format!("no parameters for {w:?} #{id}")))
}

pub fn build(id: usize, n: usize, q: &[u64], t: &BigUint, v: usize) -> R<Fix> {
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_moduli(q).set_variance(v);
    if let Some(x) = t.to_u64() {
        b.set_plaintext_modulus(x);
    } else {
        b.set_plaintext_modulus_biguint(t.clone());
    }
    let par = b.build_arc().map_err(|e| Fail::Violation {
        sig: "valid-parameters-refused".into(),
        msg: format!("n={n} q={q:?} t={t} v={v}: {e:?}"),
    })?;
    let crt = (0..q.len()).map(|l| Crt::new(&q[..q.len() - l])).collect();
    let ts = t.to_u64();
    let simd = ts.is_some_and(|x| is_prime(x) && x % (2 * n as u64) == 1);
    Ok(Fix { id, par, n, q: q.to_vec(), t: t.clone(), ts, v, simd, crt, desc: format!("n={n} t={t} q={q:?} v={v}") })
}

fn draw(g: &mut Cx, w: &Want) -> Option<(usize, Vec<u64>, BigUint, usize)> {
    // now and then a long chain over a small ring
    let long = w.max_k >= 4 && g.coin(1, 40);
    let n = if long { 8usize } else { 8usize << g.u(w.max_logn - 2) };
    let k = if long { g.range(7, 12) } else { g.range(w.min_k, w.max_k) };
    let (lo, hi) = *g.pick(&[(62u32, 62u32), (10, 62), (10, 30), (45, 62), (50, 55), (30, 45), (58, 62)]);
    let mut q = moduli(g, n, k, lo.max(w.lo), hi.max(w.lo));
    match g.u(8) {
        0 => q.sort_by(|a, b| b.cmp(a)),
        1 => q.sort(),
        2 if k > 1 => {
            // large moduli first, small ones last
            let h = g.range(k / 2, k - 1);
            q = moduli(g, n, h, 58, 62);
            for x in moduli(g, n, k - q.len(), w.lo, w.lo.max(24)) {
                if !q.contains(&x) {
                    q.push(x);
                }
            }
        }
        _ => {}
    }
    if q.len() < w.min_k {
        return None;
    }
    let qb = prod(&q);
    let q0 = q[0];
    let style = if w.simd { 0 } else { g.u(if w.small_t { 7 } else { 10 }) };
    let t: BigUint = match style {
        0 => {
            let b = g.range(2 * n.ilog2() as usize / 2 + 2, 61) as u32;
            let p = primes(b, n);
            if p.is_empty() {
                return None;
            }
            big(p[g.u(p.len())])
        }
        1 => big(2 + g.u64() % 100),
        2 => BigUint::one() << g.range(1, 61),
        3 | 4 => {
            let b = g.range(2, 61);
            let x = (g.u64() >> (64 - b)) | (1 << (b - 1));
            big(x.max(2))
        }
        5 => {
            // near the first ciphertext modulus
            let c = [q0 - 1, q0 + 1, q0 / 2, q0 / 2 + 1, q0 / 3 * 2, q0 - 2, q0 + 2, q0 / 2 + 12345 % q0.max(3)];
            big(*g.pick(&c)).max(big(2))
        }
        6 => big(*g.pick(&[(1u64 << 62) - 1, (1 << 62) - 57, (1 << 61) + 1, (1 << 61) - 1, 65537, 2, 3])),
        7 => (BigUint::one() << if g.coin(1, 4) { 64 } else { g.range(64, 140) }) + big(g.u64() % 3),
        _ => {
            let b = g.range(65, 160);
            let mut bytes = vec![0u8; b.div_ceil(8)];
            g.rng.fill_bytes(&mut bytes);
            let x = BigUint::from_bytes_le(&bytes) >> (bytes.len() * 8 - b);
            x | (BigUint::one() << (b - 1))
        }
    };
    if w.max_t != 0 && t.bits() > w.max_t {
        return None;
    }
    if t.bits() > 62 && t.bits() <= 64 {
        return None;
    }
    if w.small_t && t.bits() > 62 {
        return None;
    }
    if qb.bits() < t.bits() + w.budget {
        return None;
    }
    if q.iter().any(|m| (&t % big(*m)).is_zero()) {
        return None;
    }
    let v = match g.u(4) {
        0 => 10,
        1 => 1,
        2 => 32,
        _ => g.range(1, 32),
    };
    Some((n, q, t, v))
}

impl Fix {
    pub fn max_level(&self) -> usize {
        self.q.len() - 1
    }
    pub fn big_q(&self, level: usize) -> &BigUint {
        &self.crt[level].q
    }
    /// Deepest level whose modulus still exceeds t by `bits` bits, if any.
    pub fn deepest(&self, bits: u64) -> Option<usize> {
        (0..self.q.len()).rev().find(|l| self.crt[*l].q.bits() >= self.t.bits() + bits)
    }
    pub fn ctx(&self, level: usize) -> R<Arc<Context>> {
        Ok(self.par.context_at_level(level).lib("context_at_level")?.clone())
    }
    /// A random level with `bits` of head-room.
    pub fn level(&self, cx: &mut Cx, bits: u64) -> R<usize> {
        match self.deepest(bits) {
            None => Err(Fail::Skip("no level with enough room")),
            Some(d) => Ok(cx.range(0, d)),
        }
    }
    /// floor(Q m / t): what the textbook scheme adds for message m.
    pub fn scaled(&self, m: &[BigUint], level: usize) -> Vec<BigInt> {
        m.iter().map(|x| int(&(self.big_q(level) * x / &self.t))).collect()
    }
    /// round(t phase / Q) mod t, and whether every coefficient is further than
    /// 2^-40 from a tie.
    pub fn round_phase(&self, phase: &[BigInt], level: usize) -> (Vec<BigUint>, bool) {
        let q = int(self.big_q(level));
        let t = int(&self.t);
        let mut clear = true;
        let m = phase
            .iter()
            .map(|p| {
                let v: BigInt = p * &t;
                let r = round_div(&v, &q).0;
                let d = (&v - &r * &q).magnitude().clone() * 2u32; // 2*dist
                if ((self.big_q(level) - d.min(self.big_q(level).clone())) << 40usize) <= *self.big_q(level) {
                    clear = false;
                }
                modp(&r, &self.t)
            })
            .collect();
        (m, clear)
    }
    /// True noise of a phase that should encrypt m.
    pub fn noise(&self, phase: &[BigInt], m: &[BigUint], level: usize) -> Vec<BigInt> {
        let q = self.big_q(level);
        let s = self.scaled(m, level);
        phase.iter().zip(&s).map(|(p, s)| center(&modp(&(p - s), q), q)).collect()
    }
    pub fn noise_inf(&self, phase: &[BigInt], m: &[BigUint], level: usize) -> BigInt {
        BigInt::from(inf_norm(&self.noise(phase, m, level)))
    }
    /// Largest noise that must still decrypt: |t e - [Qm]_t| < Q/2, less the
    /// documented fixed-point precision of the scaling near a tie.
    pub fn threshold(&self, level: usize) -> BigInt {
        let q = int(self.big_q(level));
        (&q - int(&self.t) * 2 - (&q >> 50usize)) / (int(&self.t) * 2) - 1
    }
    pub fn rand_msg(&self, cx: &mut Cx) -> Vec<BigUint> {
        let n = self.n;
        let t1: BigUint = &self.t - 1u32;
        match cx.u(8) {
            0 => vec![t1; n],
            1 => vec![BigUint::zero(); n],
            2 => {
                let mut v = vec![BigUint::zero(); n];
                let i = cx.u(n);
                v[i] = if cx.coin(1, 2) { BigUint::one() % &self.t } else { t1 };
                v
            }
            3 => (0..n)
                .map(|_| match cx.u(5) {
                    0 => BigUint::zero(),
                    1 => t1.clone(),
                    2 => &self.t >> 1,
                    3 => (&self.t >> 1usize) + 1u32 % 2u32,
                    _ => self.rand_big(cx),
                })
                .map(|x| x % &self.t)
                .collect(),
            _ => (0..n).map(|_| self.rand_big(cx)).collect(),
        }
    }
    pub fn rand_big(&self, cx: &mut Cx) -> BigUint {
        rand_below(cx, &self.t)
    }
    /// Message ring operations.
    pub fn madd(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        a.iter().zip(b).map(|(x, y)| (x + y) % &self.t).collect()
    }
    pub fn msub(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        a.iter().zip(b).map(|(x, y)| (x + &self.t - y) % &self.t).collect()
    }
    pub fn mneg(&self, a: &[BigUint]) -> Vec<BigUint> {
        a.iter().map(|x| (&self.t - x) % &self.t).collect()
    }
    pub fn mmul(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        if let Some(t) = self.ts {
            let f = |v: &[BigUint]| v.iter().map(|x| x.to_u64().unwrap()).collect::<Vec<_>>();
            return negacyclic(&f(a), &f(b), t).into_iter().map(big).collect();
        }
        let f = |v: &[BigUint]| v.iter().map(int).collect::<Vec<_>>();
        negacyclic_big(&f(a), &f(b)).iter().map(|x| modp(x, &self.t)).collect()
    }
    pub fn msubst(&self, a: &[BigUint], e: usize) -> Vec<BigUint> {
        let f = |v: &[BigUint]| v.iter().map(int).collect::<Vec<_>>();
        substitute_big(&f(a), e).iter().map(|x| modp(x, &self.t)).collect()
    }
    /// Coefficient-encode a message through the library.
    pub fn encode(&self, m: &[BigUint], level: usize) -> R<Plaintext> {
        let e = Encoding::poly_at_level(level);
        match self.ts {
            Some(_) => {
                let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
                Plaintext::try_encode(&v, e, &self.par).lib("encode-poly")
            }
            None => Plaintext::try_encode(m, e, &self.par).lib("encode-poly-big"),
        }
    }
    /// The coefficients a plaintext holds, as the library reports them.
    pub fn coeffs(&self, pt: &Plaintext) -> R<Vec<BigUint>> {
        let ctx = self.ctx(pt.level())?;
        let p = Poly::<PowerBasis>::try_convert_from(pt, &ctx, false).lib("plaintext-poly")?;
        let crt = &self.crt[pt.level()];
        Ok(cols(&p, crt).into_iter().map(|x| x % &self.t).collect())
    }
    /// Decrypt with the library and decode as coefficients.
    pub fn dec(&self, sk: &SecretKey, ct: &Ciphertext, level: usize) -> R<Vec<BigUint>> {
        let pt = sk.try_decrypt(ct).lib("try_decrypt")?;
        Vec::<BigUint>::try_decode(&pt, Encoding::poly_at_level(level)).lib("decode-poly")
    }
}

pub fn rand_below(cx: &mut Cx, q: &BigUint) -> BigUint {
    let mut b = vec![0u8; (q.bits() as usize).div_ceil(8) + 8];
    cx.rng.fill_bytes(&mut b);
    BigUint::from_bytes_le(&b) % q
}

/// Integer coefficients in [0, Q) of a polynomial.
pub fn cols(p: &Poly<PowerBasis>, crt: &Crt) -> Vec<BigUint> {
    let c = p.coefficients();
    let n = c.ncols();
    (0..n).map(|j| crt.lift(&c.column(j).to_vec())).collect()
}
pub fn rows(p: &Poly<Ntt>) -> Vec<Vec<u64>> {
    let p = p.clone().into_power_basis();
    p.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}

/// The secret coefficients, from the serialized key.
pub fn secret(sk: &SecretKey) -> R<Vec<i64>> {
    let p = fhe::proto::bfv::SecretKey::decode(sk.to_bytes().as_slice()).prep("secret key bytes")?;
    Ok(p.coeffs)
}
pub fn secret_from(coeffs: &[i64], par: &Arc<BfvParameters>) -> R<SecretKey> {
    use fhe_traits::DeserializeParametrized;
    let b = fhe::proto::bfv::SecretKey { coeffs: coeffs.to_vec() }.encode_to_vec();
    SecretKey::from_bytes(&b, par).lib("SecretKey::from_bytes")
}
pub fn l1(s: &[i64]) -> BigInt {
    BigInt::from(s.iter().map(|x| x.unsigned_abs() as u128).sum::<u128>())
}
pub fn linf(s: &[i64]) -> BigInt {
    BigInt::from(s.iter().map(|x| x.unsigned_abs()).max().unwrap_or(0))
}

/// c_0 + c_1 s + c_2 s^2 + ... modulo the ciphertext modulus, centred.
pub fn phase(polys: &[Poly<Ntt>], s: &[i64], crt: &Crt) -> Vec<BigInt> {
    let n = s.len();
    let r: Vec<Vec<Vec<u64>>> = polys.iter().map(rows).collect();
    let mut out: Vec<Vec<u64>> = vec![];
    for (i, &q) in crt.moduli.iter().enumerate() {
        let sq: Vec<u64> = s.iter().map(|x| x.rem_euclid(q as i64) as u64).collect();
        let mut acc = vec![0u64; n];
        for p in r.iter().rev() {
            acc = negacyclic(&acc, &sq, q);
            for (a, b) in acc.iter_mut().zip(&p[i]) {
                *a = addmod(*a, *b, q);
            }
        }
        out.push(acc);
    }
    (0..n)
        .map(|j| {
            let c: Vec<u64> = out.iter().map(|r| r[j]).collect();
            center(&crt.lift(&c), &crt.q)
        })
        .collect()
}

/// An Ntt polynomial with these integer coefficients.
pub fn poly_of(v: &[BigInt], ctx: &Arc<Context>, crt: &Crt) -> R<Poly<Ntt>> {
    let u: Vec<BigUint> = v.iter().map(|x| modp(x, &crt.q)).collect();
    Ok(Poly::<PowerBasis>::try_convert_from(u.as_slice(), ctx, false).lib("from-big")?.into_ntt())
}
/// A ciphertext of `len` parts with the given phase and uniform other parts.
pub fn craft(cx: &mut Cx, f: &Fix, level: usize, s: &[i64], len: usize, ph: &[BigInt]) -> R<Ciphertext> {
    let ctx = f.ctx(level)?;
    let crt = &f.crt[level];
    let mut polys: Vec<Poly<Ntt>> = vec![];
    let mut rng = cx.fork();
    for _ in 1..len {
        polys.push(Poly::<Ntt>::random(&ctx, &mut rng));
    }
    // c0 = phase - (c1 s + ...)
    let zero = poly_of(&vec![BigInt::zero(); f.n], &ctx, crt)?;
    let mut all = vec![zero];
    all.extend(polys.iter().cloned());
    let rest = phase(&all, s, crt);
    let c0: Vec<BigInt> = ph.iter().zip(&rest).map(|(a, b)| a - b).collect();
    all[0] = poly_of(&c0, &ctx, crt)?;
    Ciphertext::new(all, &f.par).lib("Ciphertext::new")
}

/// Worst-case noise of a fresh secret-key encryption.
pub fn b_sk(f: &Fix) -> BigInt {
    BigInt::from(2 * f.v + 1)
}
/// Worst-case noise of a fresh public-key encryption at a level.
pub fn b_pk(f: &Fix, level: usize, s: &[i64]) -> BigInt {
    let b = BigInt::from(2 * f.v);
    let n = BigInt::from(f.n);
    let mut e = b.clone();
    for l in 0..level {
        e = b_switch(&e, f.q[f.q.len() - 1 - l], s, 2);
    }
    &n * &b * (&e + 1) + &b + &n * &b * linf(s) + 2
}
/// Noise bound after dropping the modulus `q` from a ciphertext of `len` parts.
pub fn b_switch(e: &BigInt, q: u64, s: &[i64], len: usize) -> BigInt {
    // e/q plus rounding error of every part times the secret powers
    e / BigInt::from(q) + 1 + pow_sum(s, len) / 2 + 3
}
/// 1 + |s|_1 + |s|_1^2 + ... (len terms)
pub fn pow_sum(s: &[i64], len: usize) -> BigInt {
    let n = l1(s);
    let mut p = BigInt::one();
    let mut r = BigInt::zero();
    for _ in 0..len {
        r += &p;
        p *= &n;
    }
    r
}
pub fn abs(x: &BigInt) -> BigInt {
    x.abs()
}
pub fn msg_str(m: &[BigUint]) -> String {
    format!("[{}]", m.iter().take(8).map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
pub fn pick_rng(cx: &mut Cx) -> rand_chacha::ChaCha8Rng {
    cx.fork()
}
pub fn rnd_i(cx: &mut Cx, bound: &BigInt) -> BigInt {
    // uniform in [-bound, bound]
    let b = bound.magnitude();
    let w = b * 2u32 + 1u32;
    int(&rand_below(cx, &w)) - bound
}
pub fn small_rng_bool(cx: &mut Cx) -> bool {
    cx.rng.random_range(0..2) == 1
}
/// Worst-case noise added by switching one polynomial with a key-switching key.
pub fn b_ks(f: &Fix, s: &[i64], ct_level: usize, key_level: usize) -> BigInt {
    let k = f.q.len();
    let e = BigInt::from(2 * f.v * f.n);
    if k - key_level == 1 {
        let lm = f.q[0].next_power_of_two().ilog2() as usize;
        let lb = lm / 2;
        return e * BigInt::from(lm.div_ceil(lb)) * (BigInt::one() << lb) + 1;
    }
    let mut b: BigInt = f.q[..k - ct_level].iter().map(|q| &e * BigInt::from(*q)).sum();
    for l in key_level..ct_level {
        b = b_switch(&b, f.q[k - 1 - l], s, 2);
    }
    b + 1
}
/// The level of a ciphertext, from the contexts of its parts and from what it
/// writes about itself; usize::MAX when these disagree.
pub fn lvl(f: &Fix, ct: &Ciphertext) -> usize {
    let l: Vec<usize> = ct.iter().map(|p| f.q.len() - p.ctx().moduli().len()).collect();
    let p = fhe::proto::bfv::Ciphertext::decode(fhe_traits::Serialize::to_bytes(ct).as_slice());
    match p {
        Ok(p) if l.iter().all(|x| *x == p.level as usize) => p.level as usize,
        _ => usize::MAX,
    }
}
/// The wire format of a polynomial (the library keeps its own private).
#[derive(Clone, PartialEq, prost::Message)]
pub struct RqWire {
    #[prost(int32, tag = "1")]
    pub representation: i32,
    #[prost(uint32, tag = "2")]
    pub degree: u32,
    #[prost(bytes = "vec", tag = "3")]
    pub coefficients: Vec<u8>,
    #[prost(bool, tag = "4")]
    pub allow_variable_time: bool,
}

//! Opens key material by observing what it does: the components of a key
//! switching key are the answers to the digits of one.
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, EvaluationKey, RGSWCiphertext, RelinearizationKey};
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::Serialize;
use num_bigint::BigInt;
use prost::Message;

pub type Parts = Vec<(Poly<Ntt>, Poly<Ntt>)>;

fn constant(f: &Fix, level: usize, c: &BigInt) -> R<Poly<Ntt>> {
    let mut v = vec![BigInt::from(0); f.n];
    v[0] = c.clone();
    poly_of(&v, &f.ctx(level)?, &f.crt[level])
}
/// The constants whose digits are (0, .., 1, .., 0): the gadget.
pub fn gadget(f: &Fix, level: usize, log_base: u32) -> Vec<BigInt> {
    if log_base == 0 {
        f.crt[level].coef.iter().map(int).collect()
    } else {
        let bits = 64 - (f.q[0] - 1).leading_zeros();
        (0..bits.div_ceil(log_base)).map(|i| BigInt::from(1u64 << (i * log_base))).collect()
    }
}
fn two(c: &Ciphertext) -> (Poly<Ntt>, Poly<Ntt>) {
    (c[0].clone(), c[1].clone())
}
pub fn rgsw(f: &Fix, g: &RGSWCiphertext, level: usize) -> R<(Vec<BigInt>, Parts, Parts)> {
    let p = fhe::proto::bfv::RgswCiphertext::decode(g.to_bytes().as_slice()).prep("rgsw bytes")?;
    let lb = p.ksk0.map(|k| k.log_base).unwrap_or(0);
    let gd = gadget(f, level, lb);
    let zero = constant(f, level, &BigInt::from(0))?;
    let (mut a, mut b) = (vec![], vec![]);
    for x in &gd {
        let d = constant(f, level, x)?;
        let l = Ciphertext::new(vec![d.clone(), zero.clone()], &f.par).prep("ciphertext")?;
        let r = Ciphertext::new(vec![zero.clone(), d], &f.par).prep("ciphertext")?;
        a.push(two(&(&l * g)));
        b.push(two(&(&r * g)));
    }
    Ok((gd, a, b))
}
pub fn relin(f: &Fix, rk: &RelinearizationKey, level: usize) -> R<(Vec<BigInt>, Parts)> {
    let gd = gadget(f, level, 0);
    let zero = constant(f, level, &BigInt::from(0))?;
    let mut a = vec![];
    for x in &gd {
        let mut c = Ciphertext::new(vec![zero.clone(), zero.clone(), constant(f, level, x)?], &f.par).prep("ciphertext")?;
        rk.relinearizes(&mut c).lib("relinearizes")?;
        a.push(two(&c));
    }
    Ok((gd, a))
}
/// The component for the rows rotation (None) or a column rotation.
pub fn galois(f: &Fix, ek: &EvaluationKey, level: usize, by: Option<usize>) -> R<(Vec<BigInt>, Parts)> {
    let p = fhe::proto::bfv::EvaluationKey::decode(ek.to_bytes().as_slice()).prep("ek bytes")?;
    let lb = p.gk.first().and_then(|g| g.ksk.as_ref()).map(|k| k.log_base).unwrap_or(0);
    let gd = gadget(f, level, lb);
    let zero = constant(f, level, &BigInt::from(0))?;
    let mut a = vec![];
    for x in &gd {
        // constants are fixed by the substitution
        let c = Ciphertext::new(vec![zero.clone(), constant(f, level, x)?], &f.par).prep("ciphertext")?;
        let r = match by {
            None => ek.rotates_rows(&c).lib("rotates_rows")?,
            Some(i) => ek.rotates_columns_by(&c, i).lib("rotates_columns_by")?,
        };
        a.push(two(&r));
    }
    Ok((gd, a))
}
/// c0 + c1 s - gadget * from, centred.
pub fn errors(f: &Fix, level: usize, gd: &[BigInt], parts: &Parts, s: &Poly<Ntt>, from: &Poly<Ntt>) -> R<Vec<Vec<BigInt>>> {
    let crt = &f.crt[level];
    let mut out = vec![];
    for (g, (c0, c1)) in gd.iter().zip(parts) {
        let e = &(c0 + &(c1 * s)) - &(&constant(f, level, g)? * from);
        out.push(cols(&e.into_power_basis(), crt).iter().map(|x| center(x, &crt.q)).collect());
    }
    Ok(out)
}

/// Everything random that an operation left behind, recovered from its
/// results: uniform masks and small errors.
#[derive(Default)]
pub struct Haul {
    /// label, level, mask
    pub masks: Vec<(String, usize, Poly<Ntt>)>,
    pub errors: Vec<(String, Vec<i64>)>,
    pub secrets: Vec<(String, Vec<i64>)>,
}
fn small(what: &str, v: &[BigInt], bound: i64) -> R<Vec<i64>> {
    use num_traits::ToPrimitive;
    v.iter()
        .map(|x| match x.to_i64() {
            Some(y) if y.abs() <= bound => Ok(y),
            _ => Err(Fail::Violation { sig: "error-bound".into(), msg: format!("an error of {what} is {x}, beyond {bound}") }),
        })
        .collect()
}
pub struct Scene<'a> {
    pub f: &'a Fix,
    pub sk: fhe::bfv::SecretKey,
    pub s: Vec<i64>,
}
impl<'a> Scene<'a> {
    pub fn new(f: &'a Fix, sk: fhe::bfv::SecretKey) -> R<Self> {
        let s = secret(&sk)?;
        Ok(Scene { f, sk, s })
    }
    fn sp(&self, level: usize) -> R<Poly<Ntt>> {
        let v: Vec<BigInt> = self.s.iter().map(|x| BigInt::from(*x)).collect();
        poly_of(&v, &self.f.ctx(level)?, &self.f.crt[level])
    }
    fn b(&self) -> i64 {
        2 * self.f.v as i64
    }
    fn centred(&self, p: &Poly<Ntt>, level: usize) -> Vec<BigInt> {
        let crt = &self.f.crt[level];
        cols(&p.clone().into_power_basis(), crt).iter().map(|x| center(x, &crt.q)).collect()
    }
    pub fn sk_encrypt<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, m: &[num_bigint::BigUint], level: usize, g: &mut G) -> R<Ciphertext> {
        use fhe_traits::FheEncrypter;
        let ct: Ciphertext = self.sk.try_encrypt(&self.f.encode(m, level)?, g).lib("sk.try_encrypt")?;
        let ph = phase(&ct, &self.s, &self.f.crt[level]);
        let e = self.f.noise(&ph, m, level);
        h.errors.push(("sk-encryption".into(), small("a secret-key encryption", &e, self.b())?));
        h.masks.push(("sk-encryption".into(), level, ct[1].clone()));
        Ok(ct)
    }
    pub fn public_key<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, g: &mut G) -> R<fhe::bfv::PublicKey> {
        let pk = fhe::bfv::PublicKey::new(&self.sk, g);
        let c = pk_parts(&pk, self.f)?;
        let ph = phase(&c, &self.s, &self.f.crt[0]);
        h.errors.push(("public-key".into(), small("a public key", &ph, self.b())?));
        h.masks.push(("public-key".into(), 0, c[1].clone()));
        Ok(pk)
    }
    /// A public key (K, K): encryptions under it show all their randomness.
    pub fn glass(&self) -> R<Option<fhe::bfv::PublicKey>> {
        use fhe_traits::DeserializeParametrized;
        if self.f.big_q(0).bits() < 18 {
            return Ok(None);
        }
        let k = constant(self.f, 0, &BigInt::from(256))?;
        let c = Ciphertext::new(vec![k.clone(), k], &self.f.par).prep("ciphertext")?;
        let p = fhe::proto::bfv::PublicKey { c: Some(fhe::proto::bfv::Ciphertext::from(&c)) };
        Ok(Some(fhe::bfv::PublicKey::from_bytes(&p.encode_to_vec(), &self.f.par).lib("PublicKey::from_bytes")?))
    }
    /// Split K u + e.
    fn split(&self, what: &str, p: &[BigInt]) -> R<(Vec<i64>, Vec<i64>)> {
        let v = small(what, p, 257 * self.b())?;
        let u: Vec<i64> = v.iter().map(|x| (x + 128).div_euclid(256)).collect();
        let e: Vec<i64> = v.iter().zip(&u).map(|(x, u)| x - 256 * u).collect();
        for (x, y) in u.iter().zip(&e) {
            crate::check!(x.abs() <= self.b() && y.abs() <= self.b(), "error-bound", "{what}: randomness {x} and error {y} beyond {}", self.b());
        }
        Ok((u, e))
    }
    fn two_splits(&self, what: &str, h: &mut Haul, a: &[BigInt], b: &[BigInt]) -> R {
        let (u, e1) = self.split(what, a)?;
        let (u2, e2) = self.split(what, b)?;
        crate::check!(u == u2, "randomness-differs", "{what}: the two parts use different randomness; {}", self.f.desc);
        h.errors.push((format!("{what}:u"), u));
        h.errors.push((format!("{what}:e1"), e1));
        h.errors.push((format!("{what}:e2"), e2));
        Ok(())
    }
    pub fn pk_encrypt<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, glass: &fhe::bfv::PublicKey, m: &[num_bigint::BigUint], g: &mut G) -> R<Ciphertext> {
        use fhe_traits::FheEncrypter;
        let ct: Ciphertext = glass.try_encrypt(&self.f.encode(m, 0)?, g).lib("pk.try_encrypt")?;
        let c0 = self.f.noise(&self.centred(&ct[0], 0), m, 0);
        self.two_splits("pk-encryption", h, &c0, &self.centred(&ct[1], 0))?;
        Ok(ct)
    }
    fn ksk(&self, h: &mut Haul, what: &str, level: usize, gd: &[BigInt], parts: &Parts, from: &Poly<Ntt>) -> R {
        for (i, e) in errors(self.f, level, gd, parts, &self.sp(level)?, from)?.iter().enumerate() {
            h.errors.push((format!("{what}[{i}]"), small(what, e, self.b())?));
        }
        for (i, p) in parts.iter().enumerate() {
            h.masks.push((format!("{what}[{i}]"), level, p.1.clone()));
        }
        Ok(())
    }
    pub fn rgsw<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, m: &[num_bigint::BigUint], level: usize, g: &mut G) -> R<RGSWCiphertext> {
        use fhe_traits::FheEncrypter;
        let r: RGSWCiphertext = self.sk.try_encrypt(&self.f.encode(m, level)?, g).lib("rgsw encryption")?;
        let (gd, a, b) = rgsw(self.f, &r, level)?;
        let mi: Vec<BigInt> = m.iter().map(int).collect();
        let mp = poly_of(&mi, &self.f.ctx(level)?, &self.f.crt[level])?;
        self.ksk(h, "rgsw0", level, &gd, &a, &mp)?;
        self.ksk(h, "rgsw1", level, &gd, &b, &(&mp * &self.sp(level)?))?;
        Ok(r)
    }
    pub fn relin<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, level: usize, g: &mut G) -> R<RelinearizationKey> {
        let rk = RelinearizationKey::new_leveled(&self.sk, level, level, g).lib("RelinearizationKey::new_leveled")?;
        let (gd, a) = relin(self.f, &rk, level)?;
        let s = self.sp(level)?;
        self.ksk(h, "relinearization-key", level, &gd, &a, &(&s * &s))?;
        Ok(rk)
    }
    pub fn evaluation<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, level: usize, rows: bool, by: &[usize], g: &mut G) -> R<EvaluationKey> {
        let mut b = fhe::bfv::EvaluationKeyBuilder::new_leveled(&self.sk, level, level).lib("EvaluationKeyBuilder::new_leveled")?;
        if rows {
            b.enable_row_rotation().lib("enable_row_rotation")?;
        }
        for i in by {
            b.enable_column_rotation(*i).lib("enable_column_rotation")?;
        }
        let ek = b.build(g).lib("EvaluationKeyBuilder::build")?;
        let crt = &self.f.crt[level];
        let si: Vec<BigInt> = self.s.iter().map(|x| BigInt::from(*x)).collect();
        let n2 = 2 * self.f.n;
        for r in rows.then_some(None).into_iter().chain(by.iter().map(|i| Some(*i))) {
            let e = match r {
                None => n2 - 1,
                Some(i) => (0..i).fold(1, |a, _| a * 3 % n2),
            };
            let (gd, a) = galois(self.f, &ek, level, r)?;
            let from = poly_of(&substitute_big(&si, e), &self.f.ctx(level)?, crt)?;
            self.ksk(h, &format!("galois-key-{e}"), level, &gd, &a, &from)?;
        }
        Ok(ek)
    }
    /// Multi-party shares, seen through aggregates of one share.
    pub fn shares<G: rand::Rng + rand::CryptoRng>(&self, h: &mut Haul, glass: Option<&fhe::bfv::PublicKey>, level: usize, g: &mut G) -> R {
        use fhe::mbfv::*;
        use std::sync::Arc;
        let f = self.f;
        let crp = CommonRandomPoly::new(&f.par, g).lib("CommonRandomPoly::new")?;
        let sh = PublicKeyShare::new(&self.sk, crp, g).lib("PublicKeyShare::new")?;
        let pk = fhe::bfv::PublicKey::from_shares([sh]).lib("PublicKey::from_shares")?;
        let c = pk_parts(&pk, f)?;
        h.errors.push(("public-key-share".into(), small("a public key share", &phase(&c, &self.s, &f.crt[0]), self.b())?));
        h.masks.push(("common-random-poly".into(), 0, c[1].clone()));
        let zero = constant(f, level, &BigInt::from(0))?;
        let nil = Arc::new(Ciphertext::new(vec![zero.clone(), zero], &f.par).prep("ciphertext")?);
        let sh = SecretKeySwitchShare::new(&self.sk, &self.sk, nil, g).lib("SecretKeySwitchShare::new")?;
        let c = Ciphertext::from_shares([sh]).lib("Ciphertext::from_shares")?;
        h.errors.push(("secret-key-switch-share".into(), small("a key-switch share", &self.centred(&c[0], level), self.b())?));
        if let Some(glass) = glass {
            let zero = constant(f, 0, &BigInt::from(0))?;
            let nil = Ciphertext::new(vec![zero.clone(), zero], &f.par).prep("ciphertext")?;
            let sh = PublicKeySwitchShare::new(&self.sk, glass, &nil, g).lib("PublicKeySwitchShare::new")?;
            let c = Ciphertext::from_shares([sh]).lib("Ciphertext::from_shares")?;
            self.two_splits("public-key-switch-share", h, &self.centred(&c[0], 0), &self.centred(&c[1], 0))?;
        }
        if f.q.len() > 1 {
            // a party whose secret is zero: the second half of its key is pure noise
            let crp = CommonRandomPoly::new_vec(&f.par, g).lib("CommonRandomPoly::new_vec")?;
            let z = secret_from(&vec![0; f.n], &f.par)?;
            let gen_ = RelinKeyGenerator::new(&z, &crp, g).lib("RelinKeyGenerator::new")?;
            let r1 = gen_.round_1(g).lib("round_1")?;
            let r1 = Arc::new(RelinKeyShare::<round::R1Aggregated>::from_shares([r1]).lib("R1 aggregation")?);
            let r2 = gen_.round_2(&r1, g).lib("round_2")?;
            let rk = RelinearizationKey::from_shares([r2]).lib("R2 aggregation")?;
            let (_, a) = relin(f, &rk, 0)?;
            for (i, p) in a.iter().enumerate() {
                h.errors.push((format!("relin-share[{i}]"), small("a relinearization share", &self.centred(&p.1, 0), self.b())?));
            }
            // a party whose secret is not: its first round, by the mask it commits to
            let gen_ = RelinKeyGenerator::new(&self.sk, &crp, g).lib("RelinKeyGenerator::new")?;
            let r1 = gen_.round_1(g).lib("round_1")?;
            let r1 = Arc::new(RelinKeyShare::<round::R1Aggregated>::from_shares([r1]).lib("R1 aggregation")?);
            let r2 = gen_.round_2(&r1, g).lib("round_2")?;
            let rk = RelinearizationKey::from_shares([r2]).lib("R2 aggregation")?;
            let (_, a) = relin(f, &rk, 0)?;
            for (i, p) in a.iter().enumerate() {
                h.masks.push((format!("relin-share[{i}]"), 0, p.1.clone()));
            }
        }
        Ok(())
    }
}
pub fn pk_parts(pk: &fhe::bfv::PublicKey, f: &Fix) -> R<Vec<Poly<Ntt>>> {
    use fhe_traits::DeserializeParametrized;
    let p = fhe::proto::bfv::PublicKey::decode(pk.to_bytes().as_slice()).prep("public key bytes")?;
    let c = Ciphertext::from_bytes(&p.c.ok_or(Fail::Harness("no ciphertext in a public key".into()))?.encode_to_vec(), &f.par).lib("Ciphertext::from_bytes")?;
    Ok(c.to_vec())
}

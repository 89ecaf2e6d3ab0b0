//! C15: invalid combinations are refused, failed operations change nothing,
//! and borrowed operands are never modified.
use super::c10::some_key;
use super::c11::some_pt;
use crate::fixt::*;
use crate::gen_::{ctx as mk_ctx, moduli};
use crate::mon::*;
use fhe::bfv::{
    Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, PlaintextVec, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar,
};
use fhe::mbfv::round::R1Aggregated;
use fhe::mbfv::{Aggregate, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare, SecretKeySwitchShare};
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, RepresentationTag, SubstitutionExponent, dot_product};
use fhe_traits::{FheDecoder, FheDecrypter, FheEncoder, FheEncoderVariableTime, FheEncrypter, PublicData, Serialize, VariableTime};
use num_bigint::BigInt;
use num_traits::Zero;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C15",
        rule: "a case is one operation with operands drawn at random (parameters, levels, parts, keys), of which exactly one aspect does not fit: other parameters (another plaintext modulus over the same moduli, another chain, another degree), another level, another number of parts, another encoding, an operation the key was not made for, shares of another ciphertext or common random polynomial. Fallible operations must return an error, operators must stop; in both cases the bytes, parts, seeds and permissions of every operand must be those from before the call. The borrow workload makes the same comparison around valid calls. Distinct = distinct (operation, mismatch, parameters); non-trivial = the operation was actually given a mismatched or snapshotted operand.",
        workloads: vec![
            Workload { name: "operators", weight: 4, max: 0, f: operators },
            Workload { name: "fallible", weight: 6, max: 0, f: fallible },
            Workload { name: "in-place", weight: 3, max: 0, f: in_place },
            Workload { name: "polynomials", weight: 3, max: 0, f: polynomials },
            Workload { name: "multiparty", weight: 3, max: 0, f: multiparty },
            Workload { name: "borrow", weight: 4, max: 0, f: borrow },
        ],
        required: vec![
            "stopped:parameters", "stopped:level", "stopped:parts", "stopped:empty", "refused:parameters", "refused:level", "refused:parts", "refused:encoding", "refused:unsupported", "refused:count",
            "refused:context", "refused:shares", "refused:operand-kept", "refused:no-shares", "unchanged:operands", "unchanged:in-place", "borrowed", "rk-of-other-parameters", "builder-after-error", "seed-kept",
        ],
        finish: None,
    }
}

/// Everything observable about an operand.
pub trait Snap {
    fn snap(&self) -> Vec<u8>;
}
impl<T: RepresentationTag> Snap for Poly<T>
where
    Poly<T>: Serialize,
{
    fn snap(&self) -> Vec<u8> {
        let mut v = self.to_bytes();
        for x in self.coefficients().iter() {
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.push(self.allows_variable_time_computations() as u8);
        v
    }
}
impl Snap for Ciphertext {
    fn snap(&self) -> Vec<u8> {
        let mut v = self.to_bytes();
        for p in self.iter() {
            v.extend(p.snap());
        }
        v
    }
}
impl Snap for Plaintext {
    fn snap(&self) -> Vec<u8> {
        // level, encoding (through decoding without naming one) and value
        let mut v = vec![self.level() as u8];
        v.extend(format!("{:?}", self).into_bytes());
        v
    }
}
macro_rules! snap_bytes {
    ($($t:ty),*) => { $(impl Snap for $t { fn snap(&self) -> Vec<u8> { self.to_bytes() } })* };
}
snap_bytes!(SecretKey, PublicKey, RelinearizationKey, RGSWCiphertext, EvaluationKey);
impl Snap for Multiplicator {
    fn snap(&self) -> Vec<u8> {
        format!("{self:?}").into_bytes()
    }
}
impl<T: Snap> Snap for Arc<T> {
    fn snap(&self) -> Vec<u8> {
        self.as_ref().snap()
    }
}
impl<T: Snap> Snap for Vec<T> {
    fn snap(&self) -> Vec<u8> {
        self.iter().flat_map(|x| x.snap()).collect()
    }
}
/// Ciphertexts start with zero() that has no bytes to speak of: harmless.
macro_rules! snaps {
    ($($x:expr),* $(,)?) => { vec![$((stringify!($x), $x.snap())),*] };
}
macro_rules! same {
    ($cx:expr, $before:expr, $what:expr, $($x:expr),* $(,)?) => {
        let after = snaps![$($x),*];
        for ((name, a), (_, b)) in $before.iter().zip(&after) {
            check!(a == b, format!("{}:operand-changed", $what), "{}: operand {name} changed", $what);
        }
        $cx.ev("unchanged:operands", after.len() as u64);
    };
}

/// The call must return an error.
fn refused<T, E: std::fmt::Debug + std::fmt::Display>(cx: &mut Cx, what: &str, kind: &str, f: &Fix, call: impl FnOnce() -> Result<T, E>) -> R {
    match no_panic(&format!("{what}:{kind}"), call)? {
        Ok(_) => viol!(format!("{what}:{kind}:accepted"), "{what} accepted a mismatched operand ({kind}); {}", f.desc),
        Err(e) => check!(!e.to_string().is_empty(), format!("{what}:{kind}:message"), "{what}: the error {e:?} has no message"),
    }
    cx.ev(&format!("refused:{kind}"), 1);
    cx.ev(&format!("{what}:{kind}"), 1);
    Ok(())
}
/// The operator must stop rather than return a value.
fn stops<T>(cx: &mut Cx, what: &str, kind: &str, f: &Fix, call: impl FnOnce() -> T) -> R {
    match catching(call) {
        Ok(_) => viol!(format!("{what}:{kind}:returned"), "{what} returned a value for mismatched operands ({kind}); {}", f.desc),
        Err(p) if p.in_harness => return Err(Fail::Harness(format!("{what}: {p:?}"))),
        Err(_) => {}
    }
    cx.ev(&format!("stopped:{kind}"), 1);
    cx.ev(&format!("{what}:{kind}"), 1);
    Ok(())
}

/// Parameters that differ from those of `f` in one respect.
fn other(cx: &mut Cx, f: &Fix) -> R<Fix> {
    for _ in 0..30 {
        let id = f.id;
        let r = match cx.u(5) {
            // same chain, another plaintext modulus
            0 | 1 => {
                let t = loop {
                    let t = big_t(cx, f);
                    if t != f.t && f.q.iter().all(|q| !(&t % *q).is_zero()) && f.big_q(0) > &t {
                        break t;
                    }
                };
                build(id, f.n, &f.q, &t, f.v)
            }
            // same chain and plaintext modulus, another variance
            2 => build(id, f.n, &f.q, &f.t, f.v % 32 + 1),
            // another chain
            3 => {
                let q = moduli(cx, f.n, f.q.len(), 40, 62);
                if q.len() != f.q.len() || q == f.q || q.iter().any(|m| (&f.t % *m).is_zero()) || q.iter().map(|m| m.ilog2() as u64).sum::<u64>() <= f.t.bits() + 1 {
                    continue;
                }
                build(id, f.n, &q, &f.t, f.v)
            }
            // another degree
            _ => {
                let n = if f.n == 8 { 16 } else { f.n / 2 };
                let q = moduli(cx, n.max(f.n), f.q.len(), 40, 62);
                if q.len() != f.q.len() || q.iter().any(|m| (&f.t % *m).is_zero()) || q.iter().map(|m| m.ilog2() as u64).sum::<u64>() <= f.t.bits() + 1 {
                    continue;
                }
                build(id, n, &q, &f.t, f.v)
            }
        };
        return r;
    }
    Err(Fail::Skip("no other parameters"))
}
fn big_t(cx: &mut Cx, f: &Fix) -> num_bigint::BigUint {
    let b = f.t.bits().clamp(3, 60);
    num_bigint::BigUint::from((cx.u64() >> (64 - b)).max(2))
}

const W: Want = Want { min_k: 2, max_k: 4, max_logn: 5, budget: 30, pool: 120, ..ANY };

struct Op {
    ct: Ciphertext,
    pt: Plaintext,
    sk: SecretKey,
    s: Vec<i64>,
}
fn ops_at(cx: &mut Cx, f: &Fix, level: usize, len: usize) -> R<Op> {
    let (sk, s) = some_key(cx, f)?;
    let pt = some_pt(cx, f, level, &sk)?.0;
    let ct = some_ct(cx, f, level, len, &sk, &s)?;
    Ok(Op { ct, pt, sk, s })
}
fn some_ct(cx: &mut Cx, f: &Fix, level: usize, len: usize, sk: &SecretKey, s: &[i64]) -> R<Ciphertext> {
    if len == 2 && cx.coin(3, 4) {
        let m = f.rand_msg(cx);
        let pt = f.encode(&m, level)?;
        return if cx.coin(1, 2) {
            sk.try_encrypt(&pt, &mut cx.fork()).lib("sk.try_encrypt")
        } else {
            PublicKey::new(sk, &mut cx.fork()).try_encrypt(&pt, &mut cx.fork()).lib("pk.try_encrypt")
        };
    }
    let ph: Vec<BigInt> = (0..f.n).map(|_| BigInt::from(cx.u(1000))).collect();
    craft(cx, f, level, s, len, &ph)
}
/// A level other than `level` that can hold plaintexts.
fn other_level(cx: &mut Cx, f: &Fix, level: usize) -> R<usize> {
    let d = f.deepest(12).unwrap_or(0);
    if d == 0 {
        return Err(Fail::Skip("a single usable level"));
    }
    loop {
        let l = cx.range(0, d);
        if l != level {
            return Ok(l);
        }
    }
}

fn operators(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let level = f.level(cx, 12)?;
    let len = cx.range(2, 4);
    let a = ops_at(cx, &f, level, len)?;
    let which = cx.u(12);
    // with what the other operand differs
    let kind = *cx.pick(&["parameters", "parameters", "level", "parts"]);
    let (b, kind) = match kind {
        "parameters" => {
            let g = other(cx, &f)?;
            let l = level.min(g.deepest(2).ok_or(Fail::Skip("other parameters are too small"))?);
            (ops_at(cx, &g, l, len)?, kind)
        }
        "level" => {
            let l = other_level(cx, &f, level)?;
            (ops_at(cx, &f, l, len)?, kind)
        }
        _ => (ops_at(cx, &f, level, if len == 2 { 3 } else { len - 1 })?, kind),
    };
    cx.seen(("op", f.id, kind, which, level));
    cx.sample(|| format!("{kind} operator {which}; {}", f.desc));
    let Op { ct: x, pt: p, .. } = &a;
    let Op { ct: y, pt: q, .. } = &b;
    let before = snaps![x, p, y, q];
    match which {
        0 if kind != "-" => stops(cx, "ct+ct", kind, &f, || x + y)?,
        1 => stops(cx, "ct-ct", kind, &f, || x - y)?,
        2 => {
            let mut z = x.clone();
            let b4 = snaps![z];
            stops(cx, "ct+=ct", kind, &f, || z += y)?;
            same!(cx, b4, "ct+=ct", z);
        }
        3 => {
            let mut z = x.clone();
            let b4 = snaps![z];
            stops(cx, "ct-=ct", kind, &f, || z -= y)?;
            same!(cx, b4, "ct-=ct", z);
        }
        4 if kind != "parts" => stops(cx, "ct*ct", kind, &f, || x * y)?,
        5 if kind != "parts" => stops(cx, "ct+pt", kind, &f, || x + q)?,
        6 if kind != "parts" => stops(cx, "ct-pt", kind, &f, || x - q)?,
        7 if kind != "parts" => stops(cx, "pt-ct", kind, &f, || q - x)?,
        8 if kind != "parts" => stops(cx, "ct*pt", kind, &f, || x * q)?,
        9 if kind != "parts" => {
            let mut z = x.clone();
            let b4 = snaps![z];
            let w = cx.u(3);
            stops(cx, ["ct+=pt", "ct-=pt", "ct*=pt"][w], kind, &f, || match w {
                0 => z += q,
                1 => z -= q,
                _ => z *= q,
            })?;
            same!(cx, b4, "assign", z);
        }
        10 => {
            // the zero ciphertext and plaintexts, and zeros of other parameters
            let zero = Ciphertext::zero(&f.par);
            stops(cx, "zero+pt", "empty", &f, || &zero + p)?;
            stops(cx, "zero-pt", "empty", &f, || &zero - p)?;
            if kind == "parameters" {
                stops(cx, "zero+ct", kind, &f, || &zero + y)?;
                stops(cx, "ct+zero", kind, &f, || y + &zero)?;
                stops(cx, "zero-ct", kind, &f, || &zero - y)?;
                stops(cx, "ct-zero", kind, &f, || y - &zero)?;
                stops(cx, "zero*ct", kind, &f, || &zero * y)?;
                stops(cx, "ct*zero", kind, &f, || y * &zero)?;
            }
        }
        11 => {
            let g = SecretKey::random(&f.par, &mut cx.fork());
            if let Some(d) = f.deepest(12) {
                let l = d.min(level);
                let e: RGSWCiphertext = g.try_encrypt(&f.encode(&f.rand_msg(cx), l)?, &mut cx.fork()).lib("rgsw encrypt")?;
                let b4 = snaps![e];
                let three = some_ct(cx, &f, l, 3, &a.sk, &a.s)?;
                stops(cx, "ct*rgsw", "parts", &f, || &three * &e)?;
                stops(cx, "rgsw*ct", "parts", &f, || &e * &three)?;
                if let Ok(l2) = other_level(cx, &f, l) {
                    let z = some_ct(cx, &f, l2, 2, &a.sk, &a.s)?;
                    stops(cx, "ct*rgsw", "level", &f, || &z * &e)?;
                }
                let o = other(cx, &f)?;
                let lo = l.min(o.deepest(2).unwrap_or(0));
                let z = ops_at(cx, &o, lo, 2)?.ct;
                stops(cx, "ct*rgsw", "parameters", &f, || &z * &e)?;
                let zero = Ciphertext::zero(&f.par);
                stops(cx, "zero*rgsw", "empty", &f, || &zero * &e)?;
                same!(cx, b4, "rgsw", e);
            }
        }
        _ => return Err(Fail::Skip("the operator takes any number of parts")),
    }
    same!(cx, before, "operator", x, p, y, q);
    Ok(())
}

fn fallible(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let level = f.level(cx, 12)?;
    let a = ops_at(cx, f, level, 2)?;
    let which = cx.u(10);
    cx.seen(("fallible", f.id, which, level));
    cx.sample(|| format!("fallible {which}; {}", f.desc));
    let g = other(cx, f)?;
    let lg = level.min(g.deepest(2).ok_or(Fail::Skip("other parameters are too small"))?);
    let b = ops_at(cx, &g, lg, 2)?;
    match which {
        0 | 1 => {
            let pk = PublicKey::new(&a.sk, &mut cx.fork());
            let before = snaps![pk, a.sk, b.pt, b.ct];
            let mut r = cx.fork();
            refused(cx, "pk.try_encrypt", "parameters", f, || -> fhe::Result<Ciphertext> { pk.try_encrypt(&b.pt, &mut r) })?;
            refused(cx, "sk.try_encrypt", "parameters", f, || -> fhe::Result<Ciphertext> { a.sk.try_encrypt(&b.pt, &mut r) })?;
            refused(cx, "sk.try_encrypt-rgsw", "parameters", f, || -> fhe::Result<RGSWCiphertext> { a.sk.try_encrypt(&b.pt, &mut r) })?;
            refused(cx, "sk.try_decrypt", "parameters", f, || a.sk.try_decrypt(&b.ct))?;
            refused(cx, "measure_noise", "parameters", f, || unsafe { a.sk.measure_noise(&b.ct) })?;
            let zero = Ciphertext::zero(&f.par);
            refused(cx, "sk.try_decrypt", "parts", f, || a.sk.try_decrypt(&zero))?;
            refused(cx, "measure_noise", "parts", f, || unsafe { a.sk.measure_noise(&zero) })?;
            same!(cx, before, "encrypt/decrypt", pk, a.sk, b.pt, b.ct);
        }
        2 => {
            // encodings
            let e = |simd: bool, l: usize| if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
            let mut wrong = vec![(e(!f.simd, level), "encoding")];
            let pt = Plaintext::zero(e(f.simd, level), &f.par).lib("Plaintext::zero")?;
            if let Ok(l) = other_level(cx, f, level) {
                wrong.push((e(f.simd, l), "encoding"));
            }
            let before = snaps![pt];
            for (w, k) in wrong {
                let w2 = w.clone();
                let w3 = w.clone();
                refused(cx, "try_decode-u64", k, f, || Vec::<u64>::try_decode(&pt, w))?;
                refused(cx, "try_decode-i64", k, f, || Vec::<i64>::try_decode(&pt, w2))?;
                refused(cx, "try_decode-big", k, f, || Vec::<num_bigint::BigUint>::try_decode(&pt, w3))?;
            }
            let dec = a.sk.try_decrypt(&a.ct).lib("try_decrypt")?;
            refused(cx, "try_decode-none", "encoding", f, || Vec::<u64>::try_decode(&dec, None))?;
            if !f.simd {
                refused(cx, "try_decode-simd", "encoding", f, || Vec::<u64>::try_decode(&dec, Encoding::simd_at_level(level)))?;
                refused(cx, "try_encode-simd", "encoding", f, || Plaintext::try_encode(&[1u64, 2], Encoding::simd_at_level(level), &f.par))?;
                let vt = VariableTime::new(PublicData::assert_public());
                refused(cx, "try_encode-simd-vt", "encoding", f, || Plaintext::try_encode_vt([1u64, 2].as_slice(), Encoding::simd_at_level(level), &f.par, vt))?;
            }
            let many = vec![1u64; f.n + 1 + cx.u(9)];
            refused(cx, "try_encode", "count", f, || Plaintext::try_encode(&many, Encoding::poly_at_level(level), &f.par))?;
            let vt = VariableTime::new(PublicData::assert_public());
            refused(cx, "try_encode-vt", "count", f, || Plaintext::try_encode_vt(many.as_slice(), Encoding::poly_at_level(level), &f.par, vt))?;
            let manyb: Vec<num_bigint::BigUint> = many.iter().map(|x| (*x).into()).collect();
            refused(cx, "try_encode-big", "count", f, || Plaintext::try_encode(&manyb, Encoding::poly_at_level(level), &f.par))?;
            let manyi = vec![-1i64; many.len()];
            refused(cx, "try_encode-i64", "count", f, || Plaintext::try_encode(&manyi, Encoding::poly_at_level(level), &f.par))?;
            let deep = f.q.len() + cx.u(3);
            refused(cx, "try_encode", "level", f, || Plaintext::try_encode(&[1u64], Encoding::poly_at_level(deep), &f.par))?;
            refused(cx, "try_encode-many", "level", f, || PlaintextVec::try_encode([1u64].as_slice(), Encoding::poly_at_level(deep), &f.par))?;
            refused(cx, "Plaintext::zero", "level", f, || Plaintext::zero(Encoding::poly_at_level(deep), &f.par))?;
            same!(cx, before, "encode/decode", pt);
        }
        3 => {
            // multiplicator
            let lvl = cx.range(0, f.max_level() - 1);
            let mut r = cx.fork();
            let rk = RelinearizationKey::new_leveled(&a.sk, lvl, lvl, &mut r).lib("RelinearizationKey::new_leveled")?;
            let mut m = Multiplicator::default(&rk).lib("Multiplicator::default")?;
            let x = some_ct_any(cx, f, lvl, 2, &a.s)?;
            let three = some_ct_any(cx, f, lvl, 3, &a.s)?;
            let zero = Ciphertext::zero(&f.par);
            let foreign = some_ct(cx, &g, 0, 2, &b.sk, &b.s)?;
            let before = snaps![m, x, three, foreign];
            for sw in [false, true] {
                let mul = |m: &Multiplicator, z: &Ciphertext| if sw { m.multiply(z, &x) } else { m.multiply(&x, z) };
                refused(cx, "multiply", "parts", f, || mul(&m, &three))?;
                refused(cx, "multiply", "parts", f, || mul(&m, &zero))?;
                refused(cx, "multiply", "parameters", f, || mul(&m, &foreign))?;
                let l2 = if lvl == 0 { 1 } else { lvl - 1 };
                let y = some_ct_any(cx, f, l2, 2, &a.s)?;
                refused(cx, "multiply", "level", f, || mul(&m, &y))?;
            }
            // relinearization keys that do not fit
            let l2 = if lvl == 0 { 1 } else { lvl - 1 };
            if f.q.len() - l2 > 1 {
                let rk2 = RelinearizationKey::new_leveled(&a.sk, l2, l2, &mut r).lib("RelinearizationKey::new_leveled")?;
                refused(cx, "enable_relinearization", "level", f, || m.enable_relinearization(&rk2))?;
            }
            let rk3 = RelinearizationKey::new_leveled(&b.sk, lvl, lvl, &mut r).lib("RelinearizationKey::new_leveled")?;
            refused(cx, "enable_relinearization", "parameters", f, || m.enable_relinearization(&rk3))?;
            cx.ev("rk-of-other-parameters", 1);
            same!(cx, before, "multiplicator", m, x, three, foreign);
            let one = ScalingFactor::one();
            let basis = f.q.clone();
            let deep = f.q.len() + cx.u(2);
            refused(cx, "Multiplicator::new_leveled", "level", f, || Multiplicator::new_leveled(one.clone(), one.clone(), &basis, one.clone(), deep, &f.par))?;
        }
        4 => {
            // relinearization keys at impossible levels
            let mut r = cx.fork();
            let deep = f.q.len() + cx.u(3);
            refused(cx, "RelinearizationKey::new_leveled", "level", f, || RelinearizationKey::new_leveled(&a.sk, deep, 0, &mut r))?;
            refused(cx, "RelinearizationKey::new_leveled", "level", f, || RelinearizationKey::new_leveled(&a.sk, 0, deep, &mut r))?;
            refused(cx, "RelinearizationKey::new_leveled", "unsupported", f, || RelinearizationKey::new_leveled(&a.sk, f.max_level(), f.max_level(), &mut r))?;
            refused(cx, "EvaluationKeyBuilder::new_leveled", "level", f, || EvaluationKeyBuilder::new_leveled(&a.sk, deep, 0))?;
            refused(cx, "EvaluationKeyBuilder::new_leveled", "level", f, || EvaluationKeyBuilder::new_leveled(&a.sk, 0, 1))?;
        }
        5 | 6 => evaluation_key(cx, f, &a, &b)?,
        7 => {
            // dot products
            let n = cx.range(1, 5);
            let mut cts = vec![];
            let mut pts = vec![];
            for _ in 0..n {
                cts.push(some_ct(cx, f, level, 2, &a.sk, &a.s)?);
                pts.push(some_pt(cx, f, level, &a.sk)?.0);
            }
            let none: Vec<Ciphertext> = vec![];
            let nop: Vec<Plaintext> = vec![];
            refused(cx, "dot_product_scalar", "count", f, || dot_product_scalar(none.iter(), pts.iter()))?;
            refused(cx, "dot_product_scalar", "count", f, || dot_product_scalar(cts.iter(), nop.iter()))?;
            refused(cx, "dot_product_scalar", "count", f, || dot_product_scalar(cts.iter().chain(cts.iter()), pts.iter()))?;
            refused(cx, "dot_product_scalar", "count", f, || dot_product_scalar(cts.iter(), pts.iter().chain(pts.iter())))?;
            let i = cx.u(n);
            let before = snaps![cts, pts, b.ct, b.pt];
            let swapc = |z: &Ciphertext| {
                let mut v = cts.clone();
                v[i] = z.clone();
                v
            };
            let swapp = |z: &Plaintext| {
                let mut v = pts.clone();
                v[i] = z.clone();
                v
            };
            let v = swapc(&b.ct);
            refused(cx, "dot_product_scalar", "parameters", f, || dot_product_scalar(v.iter(), pts.iter()))?;
            let v = swapp(&b.pt);
            refused(cx, "dot_product_scalar", "parameters", f, || dot_product_scalar(cts.iter(), v.iter()))?;
            let v = swapc(&Ciphertext::zero(&f.par));
            refused(cx, "dot_product_scalar", "parts", f, || dot_product_scalar(v.iter(), pts.iter()))?;
            if n > 1 {
                let v = swapc(&some_ct(cx, f, level, 3, &a.sk, &a.s)?);
                refused(cx, "dot_product_scalar", "parts", f, || dot_product_scalar(v.iter(), pts.iter()))?;
            }
            if let Ok(l) = other_level(cx, f, level) {
                let v = swapc(&some_ct(cx, f, l, 2, &a.sk, &a.s)?);
                refused(cx, "dot_product_scalar", "level", f, || dot_product_scalar(v.iter(), pts.iter()))?;
                let v = swapp(&some_pt(cx, f, l, &a.sk)?.0);
                refused(cx, "dot_product_scalar", "level", f, || dot_product_scalar(cts.iter(), v.iter()))?;
            }
            same!(cx, before, "dot_product_scalar", cts, pts, b.ct, b.pt);
        }
        8 => {
            // ciphertexts from parts that do not belong together
            let p = |c: &Ciphertext| c.iter().cloned().collect::<Vec<_>>();
            let x = p(&a.ct);
            refused(cx, "Ciphertext::new", "parts", f, || Ciphertext::new(vec![], &f.par))?;
            let one = vec![x[0].clone()];
            refused(cx, "Ciphertext::new", "parts", f, || Ciphertext::new(one, &f.par))?;
            if let Ok(l) = other_level(cx, f, level) {
                let y = p(&some_ct(cx, f, l, 2, &a.sk, &a.s)?);
                let v = vec![x[0].clone(), y[1].clone()];
                refused(cx, "Ciphertext::new", "level", f, || Ciphertext::new(v, &f.par))?;
                let v = vec![x[0].clone(), x[1].clone(), y[1].clone()];
                refused(cx, "Ciphertext::new", "level", f, || Ciphertext::new(v, &f.par))?;
            }
            // chains may share their first moduli
            if g.n != f.n || !f.q.starts_with(&g.q[..g.q.len() - lg]) {
                let y = p(&b.ct);
                let w = y.clone();
                refused(cx, "Ciphertext::new", "parameters", f, || Ciphertext::new(w, &f.par))?;
                let v = vec![x[0].clone(), y[1].clone()];
                refused(cx, "Ciphertext::new", "parameters", f, || Ciphertext::new(v, &f.par))?;
            }
        }
        _ => {
            // plaintexts as polynomials of another context
            let l = other_level(cx, f, level)?;
            let c = f.ctx(l)?;
            let before = snaps![a.pt];
            refused(cx, "Poly::try_convert_from(pt)", "context", f, || Poly::<PowerBasis>::try_convert_from(&a.pt, &c, false))?;
            if g.n != f.n || g.q[..g.q.len() - lg] != f.q[..f.q.len() - level] {
                let c = g.ctx(lg)?;
                refused(cx, "Poly::try_convert_from(pt)", "context", f, || Poly::<PowerBasis>::try_convert_from(&a.pt, &c, false))?;
            }
            same!(cx, before, "Poly::try_convert_from(pt)", a.pt);
        }
    }
    Ok(())
}

fn evaluation_key(cx: &mut Cx, f: &Fix, a: &Op, b: &Op) -> R {
    let ctl = cx.range(0, f.max_level());
    let kl = if ctl == 0 || cx.coin(1, 2) { ctl } else { cx.range(0, ctl) };
    let mut bld = EvaluationKeyBuilder::new_leveled(&a.sk, ctl, kl).lib("EvaluationKeyBuilder")?;
    let half = f.n / 2;
    let (mut row, mut inner, mut exp) = (false, false, 0usize);
    let mut cols: Vec<usize> = vec![];
    if cx.coin(1, 3) {
        bld.enable_row_rotation().lib("enable_row_rotation")?;
        row = true;
    }
    if cx.coin(1, 4) {
        bld.enable_inner_sum().lib("enable_inner_sum")?;
        inner = true;
    }
    if cx.coin(1, 3) {
        exp = cx.range(1, f.n.ilog2() as usize);
        bld.enable_expansion(exp).lib("enable_expansion")?;
    }
    for _ in 0..cx.u(3) {
        let i = cx.range(1, half - 1);
        bld.enable_column_rotation(i).lib("enable_column_rotation")?;
        cols.push(i);
    }
    // refused requests, then the key must be what was asked for before them
    let bad = *cx.pick(&[0, half, half + 1, f.n, 2 * f.n + 1, usize::MAX]);
    refused(cx, "enable_column_rotation", "unsupported", f, || bld.enable_column_rotation(bad).map(|_| ()))?;
    let bade = f.n.ilog2() as usize + *cx.pick(&[1, 2, 60, usize::MAX / 2]);
    refused(cx, "enable_expansion", "unsupported", f, || bld.enable_expansion(bade).map(|_| ()))?;
    let ek = bld.build(&mut cx.fork()).lib("EvaluationKeyBuilder::build")?;
    for l in 0..=f.n.ilog2() as usize {
        if l <= exp {
            check!(ek.supports_expansion(l), "builder-after-error:expansion", "a refused request removed expansion level {l} <= {exp}; {}", f.desc);
        }
    }
    for c in &cols {
        check!(ek.supports_column_rotation_by(*c), "builder-after-error:column", "a refused request removed rotation by {c}; {}", f.desc);
    }
    check!(!row || ek.supports_row_rotation(), "builder-after-error:row", "a refused request removed the row rotation; {}", f.desc);
    check!(!inner || ek.supports_inner_sum(), "builder-after-error:inner", "a refused request removed the inner sum; {}", f.desc);
    cx.ev("builder-after-error", 1);

    let x = some_ct_any(cx, f, ctl, 2, &a.s)?;
    let three = some_ct_any(cx, f, ctl, 3, &a.s)?;
    let zero = Ciphertext::zero(&f.par);
    let before = snaps![ek, x, three, b.ct];
    let col = (1..half).find(|i| ek.supports_column_rotation_by(*i));
    let size = if exp > 0 { 1 << exp } else { 1 };
    let mut bad: Vec<(&str, Ciphertext)> = vec![("parts", three.clone()), ("parts", zero), ("parameters", b.ct.clone())];
    if f.q.len() > 1 {
        let l = if ctl == 0 { 1 } else { ctl - 1 };
        bad.push(("level", some_ct_any(cx, f, l, 2, &a.s)?));
    }
    for (k, z) in &bad {
        refused(cx, "expands", k, f, || ek.expands(z, size))?;
        if ek.supports_row_rotation() {
            refused(cx, "rotates_rows", k, f, || ek.rotates_rows(z))?;
        }
        if ek.supports_inner_sum() {
            refused(cx, "computes_inner_sum", k, f, || ek.computes_inner_sum(z))?;
        }
        if let Some(c) = col {
            refused(cx, "rotates_columns_by", k, f, || ek.rotates_columns_by(z, c))?;
        }
    }
    refused(cx, "expands", "unsupported", f, || ek.expands(&x, 0))?;
    refused(cx, "expands", "unsupported", f, || ek.expands(&x, f.n + 1))?;
    refused(cx, "rotates_columns_by", "unsupported", f, || ek.rotates_columns_by(&x, 0))?;
    refused(cx, "rotates_columns_by", "unsupported", f, || ek.rotates_columns_by(&x, half))?;
    if !row && !inner {
        refused(cx, "rotates_rows", "unsupported", f, || ek.rotates_rows(&x))?;
    }
    if !inner && !ek.supports_inner_sum() {
        refused(cx, "computes_inner_sum", "unsupported", f, || ek.computes_inner_sum(&x))?;
    }
    if let Some(c) = (1..half).find(|i| !ek.supports_column_rotation_by(*i)) {
        refused(cx, "rotates_columns_by", "unsupported", f, || ek.rotates_columns_by(&x, c))?;
    }
    if let Some(l) = (1..=f.n.ilog2() as usize).find(|l| !ek.supports_expansion(*l)) {
        refused(cx, "expands", "unsupported", f, || ek.expands(&x, 1 << l))?;
    }
    same!(cx, before, "evaluation key", ek, x, three, b.ct);
    Ok(())
}

/// In-place operations that fail leave their operand alone.
fn in_place(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let level = cx.range(0, f.max_level());
    let (sk, s) = some_key(cx, f)?;
    let which = cx.u(6);
    cx.seen(("in-place", f.id, which, level));
    cx.sample(|| format!("in place {which}; {}", f.desc));
    let mut r = cx.fork();
    let len = cx.range(2, 4);
    let mut z = if which < 2 && f.crt[level].q.bits() >= f.t.bits() + 12 { some_ct(cx, f, level, 2, &sk, &s)? } else { some_ct_any(cx, f, level, len, &s)? };
    let b4 = snaps![z];
    match which {
        0 => {
            if level == 0 {
                return Err(Fail::Skip("no earlier level"));
            }
            let l = cx.u(level);
            refused(cx, "switch_to_level", "level", f, || z.switch_to_level(l))?;
        }
        1 => {
            let l = f.q.len() + *cx.pick(&[0, 1, 7, usize::MAX / 2]);
            refused(cx, "switch_to_level", "level", f, || z.switch_to_level(l))?;
        }
        2 => {
            let last = f.max_level();
            z = some_ct_any(cx, f, last, len, &s)?;
            if cx.coin(1, 2) && f.crt[last].q > f.t {
                // an encryption that is still known by its seed stays so
                let m = f.rand_msg(cx);
                z = sk.try_encrypt(&f.encode(&m, last)?, &mut r).lib("sk.try_encrypt")?;
                cx.ev("seed-kept", 1);
            }
            let b4 = snaps![z];
            refused(cx, "switch_down", "level", f, || z.switch_down())?;
            same!(cx, b4, "switch_down", z);
            let l = if last > 0 && cx.coin(1, 2) { cx.u(last) } else { last + 1 };
            refused(cx, "switch_to_level", "level", f, || z.switch_to_level(l))?;
            same!(cx, b4, "switch_to_level", z);
            cx.ev("unchanged:in-place", 1);
            return Ok(());
        }
        3 => {
            // relinearization of the wrong number of parts or level
            let ctl = cx.range(0, f.max_level());
            let kl = cx.range(0, ctl.min(f.max_level() - 1));
            let rk = RelinearizationKey::new_leveled(&sk, ctl, kl, &mut r).lib("RelinearizationKey::new_leveled")?;
            let before = snaps![rk];
            if len != 3 {
                z = some_ct_any(cx, f, ctl, len, &s)?;
                let b4 = snaps![z];
                refused(cx, "relinearizes", "parts", f, || rk.relinearizes(&mut z))?;
                same!(cx, b4, "relinearizes", z);
                cx.ev("unchanged:in-place", 1);
                return Ok(());
            }
            if level == ctl {
                return Err(Fail::Skip("the level fits"));
            }
            refused(cx, "relinearizes", "level", f, || rk.relinearizes(&mut z))?;
            same!(cx, before, "relinearizes", rk);
        }
        4 => {
            let g = other(cx, f)?;
            let l = g.max_level().min(level);
            let gs = SecretKey::random(&g.par, &mut r);
            if g.q.len() - l < 2 {
                return Err(Fail::Skip("a single modulus"));
            }
            let rk = RelinearizationKey::new_leveled(&gs, l, l, &mut r).lib("RelinearizationKey::new_leveled")?;
            z = some_ct_any(cx, f, l, 3, &s)?;
            let b4 = snaps![z];
            refused(cx, "relinearizes", "parameters", f, || rk.relinearizes(&mut z))?;
            same!(cx, b4, "relinearizes", z);
            cx.ev("unchanged:in-place", 1);
            return Ok(());
        }
        _ => {
            // a key above the ciphertext's level: an error may come late
            if f.q.len() < 3 {
                return Err(Fail::Skip("chain too short"));
            }
            let ctl = cx.range(0, f.max_level() - 2);
            let kl = cx.range(ctl + 1, f.max_level() - 1);
            let rk = match RelinearizationKey::new_leveled(&sk, ctl, kl, &mut r) {
                Ok(k) => k,
                Err(_) => {
                    cx.ev("refused:operand-kept", 1);
                    return Ok(());
                }
            };
            z = some_ct_any(cx, f, ctl, 3, &s)?;
            let b4 = snaps![z, rk];
            refused(cx, "relinearizes", "operand-kept", f, || rk.relinearizes(&mut z))?;
            same!(cx, b4, "relinearizes", z, rk);
            cx.ev("unchanged:in-place", 1);
            return Ok(());
        }
    }
    same!(cx, b4, "in-place", z);
    cx.ev("unchanged:in-place", 1);
    Ok(())
}
fn some_ct_any(cx: &mut Cx, f: &Fix, level: usize, len: usize, s: &[i64]) -> R<Ciphertext> {
    let ph: Vec<BigInt> = (0..f.n).map(|_| BigInt::from(cx.u(100))).collect();
    craft(cx, f, level, s, len, &ph)
}

fn polynomials(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(3);
    let k = cx.range(2, 4);
    let q = moduli(cx, n, k, 20, 62);
    let q2 = moduli(cx, n, q.len(), 20, 62);
    if q.len() < 2 || q2.is_empty() {
        return Err(Fail::Skip("no moduli"));
    }
    let c = mk_ctx(&q, n)?;
    let m = if cx.coin(1, 2) { 2 * n } else { (n / 2).max(8) };
    let qd = moduli(cx, m.max(n), q.len(), 30, 62);
    let (d, nd) = match cx.u(3) {
        0 if q2 != q => (mk_ctx(&q2, n)?, n),
        1 if !qd.is_empty() && m != n => (mk_ctx(&qd, m)?, m),
        _ => (mk_ctx(&q[..q.len() - 1], n)?, n),
    };
    let fake = format!("n={n} q={q:?}, other degree {} moduli {:?}", nd, d.moduli());
    let mut r = cx.fork();
    let which = cx.u(9);
    cx.seen(("poly", n, q.clone(), which));
    let vt = VariableTime::new(PublicData::assert_public());
    let pb = |c: &Arc<Context>, r: &mut rand_chacha::ChaCha8Rng| Poly::<PowerBasis>::random(c, r);
    let nt = |c: &Arc<Context>, r: &mut rand_chacha::ChaCha8Rng| Poly::<Ntt>::random(c, r);
    let (mut x, y) = (pb(&c, &mut r), pb(&d, &mut r));
    let (mut xn, yn) = (nt(&c, &mut r), nt(&d, &mut r));
    if cx.coin(1, 2) {
        x.allow_variable_time_computations(vt);
        xn.allow_variable_time_computations(vt);
    }
    let ys = yn.clone().into_ntt_shoup();
    let before = snaps![x, y, xn, yn, ys];
    macro_rules! no {
        ($what:expr, $kind:expr, $call:expr) => {
            match no_panic($what, || $call)? {
                Ok(_) => viol!(format!("{}:{}:accepted", $what, $kind), "{} accepted {}; {fake}", $what, $kind),
                Err(_) => cx.ev(&format!("refused:{}", $kind), 1),
            }
        };
    }
    macro_rules! stop {
        ($what:expr, $call:expr) => {
            match catching(|| $call) {
                Ok(_) => viol!(format!("{}:context:returned", $what), "{} returned a value for operands of different contexts; {fake}", $what),
                Err(_) => cx.ev("stopped:context", 1),
            }
        };
    }
    match which {
        0 => {
            no!("dot_product", "context", dot_product([&xn, &xn].into_iter(), [&xn, &yn].into_iter()));
            no!("dot_product", "context", dot_product([&yn, &xn].into_iter(), [&xn, &xn].into_iter()));
            no!("dot_product", "count", dot_product([&xn, &xn].into_iter(), [&xn].into_iter()));
            no!("dot_product", "count", dot_product([&xn].into_iter(), [&xn, &xn].into_iter()));
            no!("dot_product", "count", dot_product([].into_iter(), [].into_iter()));
        }
        1 => {
            // scaling and switching from another context
            let s = Scaler::new(&d, &d, ScalingFactor::one()).lib("Scaler::new")?;
            no!("Poly::scale", "context", x.scale(&s));
            no!("Poly::scale", "context", xn.scale(&s));
            if nd != n {
                no!("Scaler::new", "context", Scaler::new(&c, &d, ScalingFactor::one()));
                no!("Switcher::new", "context", Switcher::new(&c, &d));
            } else {
                let w = Switcher::new(&d, &c).lib("Switcher::new")?;
                no!("Poly::switch", "context", x.switch(&w));
            }
        }
        2 => {
            // switching to contexts that are not below
            let (mut z, b4) = (y.clone(), snaps![y]);
            if d.moduli().len() < c.moduli().len() || d.moduli() != c.moduli() || nd != n {
                no!("switch_down_to", "context", z.switch_down_to(&c));
                same!(cx, b4, "switch_down_to", z);
                cx.ev("unchanged:in-place", 1);
            }
            let last = mk_ctx(&q[..1], n)?;
            let mut z = pb(&last, &mut r);
            let b4 = snaps![z];
            no!("switch_down", "level", z.switch_down());
            same!(cx, b4, "switch_down", z);
            cx.ev("unchanged:in-place", 1);
        }
        3 => {
            if nd != n {
                let e = SubstitutionExponent::new(&d, 3).lib("SubstitutionExponent::new")?;
                no!("substitute", "context", x.substitute(&e));
                no!("substitute", "context", xn.substitute(&e));
            }
            let even = 2 * cx.u(3 * n);
            no!("SubstitutionExponent::new", "context", SubstitutionExponent::new(&c, even));
        }
        4 => {
            // coefficients of the wrong shape
            let k = q.len() * n;
            let bad = *cx.pick(&[k + 1, k - 1, 2 * k, n + 1]);
            let v: Vec<u64> = vec![1; bad];
            let is = vec![1i64; n + 1];
            let bs = vec![num_bigint::BigUint::from(1u32); n + 1 + cx.u(5)];
            if bad != k && bad > n {
                no!("Poly::try_convert_from(u64)", "count", Poly::<PowerBasis>::try_convert_from(v.as_slice(), &c, false));
                no!("Poly::try_convert_from(u64)", "count", Poly::<Ntt>::try_convert_from(v, &c, false));
            }
            no!("Poly::try_convert_from(i64)", "count", Poly::<PowerBasis>::try_convert_from(is.as_slice(), &c, false));
            no!("Poly::try_convert_from(BigUint)", "count", Poly::<PowerBasis>::try_convert_from(bs.as_slice(), &c, false));
            let a = ndarray::Array2::<u64>::zeros((q.len() + 1, n));
            no!("Poly::try_convert_from(Array2)", "count", Poly::<Ntt>::try_convert_from(a, &c, false));
            let a = ndarray::Array2::<u64>::zeros((q.len(), n + 8));
            no!("Poly::try_convert_from(Array2)", "count", Poly::<PowerBasis>::try_convert_from(a, &c, false));
        }
        5 => stop!("ntt+ntt", &xn + &yn),
        6 => stop!("pb-pb", &x - &y),
        7 => stop!("ntt*ntt", &xn * &yn),
        _ => {
            let mut z = xn.clone();
            let k = cx.u(4);
            let b4 = snaps![z];
            match k {
                0 => stop!("ntt+=ntt", z += &yn),
                1 => stop!("ntt-=ntt", z -= &yn),
                2 => stop!("ntt*=ntt", z *= &yn),
                _ => stop!("ntt*=shoup", z *= &ys),
            }
            same!(cx, b4, "poly-assign", z);
        }
    }
    same!(cx, before, "polynomials", x, y, xn, yn, ys);
    Ok(())
}

fn multiparty(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let level = f.level(cx, 12)?;
    let a = ops_at(cx, f, level, 2)?;
    let g = other(cx, f)?;
    let lg = level.min(g.deepest(2).ok_or(Fail::Skip("other parameters are too small"))?);
    let b = ops_at(cx, &g, lg, 2)?;
    let which = cx.u(5);
    cx.seen(("mbfv", f.id, which, level));
    let mut r = cx.fork();
    let other_chain = g.q != f.q || g.n != f.n;
    match which {
        0 => {
            let crp = CommonRandomPoly::new(&f.par, &mut r).lib("CommonRandomPoly::new")?;
            let crp2 = CommonRandomPoly::new(&f.par, &mut r).lib("CommonRandomPoly::new")?;
            let crpl = CommonRandomPoly::new_leveled(&f.par, 1, &mut r).lib("CommonRandomPoly::new_leveled")?;
            let deep = f.q.len() + cx.u(2);
            refused(cx, "CommonRandomPoly::new_leveled", "level", f, || CommonRandomPoly::new_leveled(&f.par, deep, &mut r))?;
            let before = snaps![a.sk];
            refused(cx, "PublicKeyShare::new", "level", f, || PublicKeyShare::new(&a.sk, crpl.clone(), &mut r))?;
            if other_chain {
                refused(cx, "PublicKeyShare::new", "parameters", f, || PublicKeyShare::new(&b.sk, crp.clone(), &mut r))?;
            }
            let s1 = PublicKeyShare::new(&a.sk, crp.clone(), &mut r).lib("PublicKeyShare::new")?;
            let s2 = PublicKeyShare::new(&SecretKey::random(&f.par, &mut r), crp2, &mut r).lib("PublicKeyShare::new")?;
            let v = vec![s1.clone(), s2.clone()];
            refused(cx, "PublicKey::from_shares", "shares", f, || PublicKey::from_shares(v))?;
            let v = vec![s1.clone(), s1.clone(), s2];
            refused(cx, "PublicKey::from_shares", "shares", f, || PublicKey::from_shares(v))?;
            if !other_chain {
                // same chain: only the parameters differ
                let s3 = PublicKeyShare::new(&b.sk, crp.clone(), &mut r).lib("PublicKeyShare::new")?;
                let v = vec![s1.clone(), s3];
                refused(cx, "PublicKey::from_shares", "parameters", f, || PublicKey::from_shares(v))?;
            }
            refused(cx, "PublicKey::from_shares", "no-shares", f, || PublicKey::from_shares(Vec::<PublicKeyShare>::new()))?;
            let e = vec![Ok(s1), Err(fhe::Error::from(fhe_math::Error::NoMoreContext))];
            refused(cx, "PublicKey::from_shares", "shares", f, || PublicKey::from_shares(e))?;
            same!(cx, before, "public key shares", a.sk);
        }
        1 => {
            // secret key switching and decryption shares
            let ct = Arc::new(a.ct.clone());
            let ct2 = Arc::new(some_ct(cx, f, level, 2, &a.sk, &a.s)?);
            let three = Arc::new(some_ct(cx, f, level, 3, &a.sk, &a.s)?);
            let zero = Arc::new(Ciphertext::zero(&f.par));
            let foreign = Arc::new(b.ct.clone());
            let out = SecretKey::random(&f.par, &mut r);
            let before = snaps![a.sk, out, b.sk, ct, ct2, three, foreign];
            for (k, c) in [("parts", &three), ("parts", &zero), ("parameters", &foreign)] {
                refused(cx, "SecretKeySwitchShare::new", k, f, || SecretKeySwitchShare::new(&a.sk, &out, c.clone(), &mut r))?;
                refused(cx, "DecryptionShare::new", k, f, || DecryptionShare::new(&a.sk, c, &mut r))?;
            }
            refused(cx, "SecretKeySwitchShare::new", "parameters", f, || SecretKeySwitchShare::new(&a.sk, &b.sk, ct.clone(), &mut r))?;
            refused(cx, "SecretKeySwitchShare::new", "parameters", f, || SecretKeySwitchShare::new(&b.sk, &out, ct.clone(), &mut r))?;
            let v = vec![
                SecretKeySwitchShare::new(&a.sk, &out, ct.clone(), &mut r).lib("SecretKeySwitchShare::new")?,
                SecretKeySwitchShare::new(&a.sk, &out, ct2.clone(), &mut r).lib("SecretKeySwitchShare::new")?,
            ];
            refused(cx, "Ciphertext::from_shares(sks)", "shares", f, || Ciphertext::from_shares(v))?;
            let v = vec![DecryptionShare::new(&a.sk, &ct, &mut r).lib("DecryptionShare::new")?, DecryptionShare::new(&out, &ct2, &mut r).lib("DecryptionShare::new")?];
            refused(cx, "Plaintext::from_shares", "shares", f, || Plaintext::from_shares(v))?;
            refused(cx, "Plaintext::from_shares", "no-shares", f, || Plaintext::from_shares(Vec::<DecryptionShare>::new()))?;
            refused(cx, "Ciphertext::from_shares(sks)", "no-shares", f, || Ciphertext::from_shares(Vec::<SecretKeySwitchShare>::new()))?;
            same!(cx, before, "switch shares", a.sk, out, b.sk, ct, ct2, three, foreign);
        }
        2 => {
            let pk = PublicKey::new(&SecretKey::random(&f.par, &mut r), &mut r);
            let pkb = PublicKey::new(&b.sk, &mut r);
            let three = some_ct(cx, f, level, 3, &a.sk, &a.s)?;
            let zero = Ciphertext::zero(&f.par);
            let ct2 = some_ct(cx, f, level, 2, &a.sk, &a.s)?;
            let before = snaps![a.sk, pk, pkb, a.ct, b.ct, three];
            refused(cx, "PublicKeySwitchShare::new", "parts", f, || PublicKeySwitchShare::new(&a.sk, &pk, &three, &mut r))?;
            refused(cx, "PublicKeySwitchShare::new", "parts", f, || PublicKeySwitchShare::new(&a.sk, &pk, &zero, &mut r))?;
            refused(cx, "PublicKeySwitchShare::new", "parameters", f, || PublicKeySwitchShare::new(&a.sk, &pk, &b.ct, &mut r))?;
            refused(cx, "PublicKeySwitchShare::new", "parameters", f, || PublicKeySwitchShare::new(&a.sk, &pkb, &a.ct, &mut r))?;
            refused(cx, "PublicKeySwitchShare::new", "parameters", f, || PublicKeySwitchShare::new(&b.sk, &pk, &a.ct, &mut r))?;
            let v = vec![
                PublicKeySwitchShare::new(&a.sk, &pk, &a.ct, &mut r).lib("PublicKeySwitchShare::new")?,
                PublicKeySwitchShare::new(&a.sk, &pk, &ct2, &mut r).lib("PublicKeySwitchShare::new")?,
            ];
            refused(cx, "Ciphertext::from_shares(pks)", "shares", f, || Ciphertext::from_shares(v))?;
            refused(cx, "Ciphertext::from_shares(pks)", "no-shares", f, || Ciphertext::from_shares(Vec::<PublicKeySwitchShare>::new()))?;
            same!(cx, before, "public key switching", a.sk, pk, pkb, a.ct, b.ct, three);
        }
        _ => {
            // relinearization key generation
            let crp = CommonRandomPoly::new_vec(&f.par, &mut r).lib("CommonRandomPoly::new_vec")?;
            let crpg = CommonRandomPoly::new_vec(&g.par, &mut r).lib("CommonRandomPoly::new_vec")?;
            let short = crp[..crp.len() - 1].to_vec();
            let mut long = crp.clone();
            long.push(crp[0].clone());
            refused(cx, "RelinKeyGenerator::new", "count", f, || RelinKeyGenerator::new(&a.sk, &short, &mut r).map(|_| ()))?;
            refused(cx, "RelinKeyGenerator::new", "count", f, || RelinKeyGenerator::new(&a.sk, &long, &mut r).map(|_| ()))?;
            let mut mixed = crp.clone();
            let i = cx.u(mixed.len());
            mixed[i] = CommonRandomPoly::new_leveled(&f.par, 1, &mut r).lib("CommonRandomPoly::new_leveled")?;
            refused(cx, "RelinKeyGenerator::new", "level", f, || RelinKeyGenerator::new(&a.sk, &mixed, &mut r).map(|_| ()))?;
            if other_chain {
                refused(cx, "RelinKeyGenerator::new", "parameters", f, || RelinKeyGenerator::new(&a.sk, &crpg, &mut r).map(|_| ()))?;
            }
            let gen_a = RelinKeyGenerator::new(&a.sk, &crp, &mut r).lib("RelinKeyGenerator::new")?;
            let gen_b = RelinKeyGenerator::new(&b.sk, &crpg, &mut r).lib("RelinKeyGenerator::new")?;
            let (ra, rb) = (gen_a.round_1(&mut r).lib("round_1")?, gen_b.round_1(&mut r).lib("round_1")?);
            let v = vec![ra.clone(), rb.clone()];
            refused(cx, "RelinKeyShare<R1Aggregated>::from_shares", "parameters", f, || RelinKeyShare::<R1Aggregated>::from_shares(v))?;
            refused(cx, "RelinKeyShare<R1Aggregated>::from_shares", "no-shares", f, || RelinKeyShare::<R1Aggregated>::from_shares(Vec::<RelinKeyShare>::new()))?;
            let agg_a = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares(vec![ra.clone()]).lib("from_shares(r1)")?);
            let agg_a2 = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares(vec![ra.clone(), ra]).lib("from_shares(r1)")?);
            let agg_b = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares(vec![rb]).lib("from_shares(r1)")?);
            let keep = (agg_a.as_ref().clone(), agg_b.as_ref().clone());
            refused(cx, "round_2", "parameters", f, || gen_a.round_2(&agg_b, &mut r))?;
            let s1 = gen_a.round_2(&agg_a, &mut r).lib("round_2")?;
            let s2 = gen_a.round_2(&agg_a2, &mut r).lib("round_2")?;
            let s3 = gen_b.round_2(&agg_b, &mut r).lib("round_2")?;
            for w in [vec![s1.clone(), s2], vec![s1, s3]] {
                refused(cx, "RelinearizationKey::from_shares", "shares", f, || RelinearizationKey::from_shares(w))?;
            }
            refused(cx, "RelinearizationKey::from_shares", "no-shares", f, || RelinearizationKey::from_shares(Vec::<RelinKeyShare<fhe::mbfv::round::R2>>::new()))?;
            check!(keep.0 == *agg_a && keep.1 == *agg_b, "relin-rounds:operand-changed", "an aggregated round-one share changed; {}", f.desc);
        }
    }
    Ok(())
}

/// Valid calls leave the operands they borrow alone.
fn borrow(cx: &mut Cx) -> R {
    let f = fix(cx, W)?;
    let f = &f;
    let level = f.level(cx, 12)?;
    let len = cx.range(2, 3);
    let a = ops_at(cx, f, level, len)?;
    let b = Op { ct: some_ct(cx, f, level, len, &a.sk, &a.s)?, pt: some_pt(cx, f, level, &a.sk)?.0, sk: a.sk.clone(), s: a.s.clone() };
    let which = cx.u(8);
    cx.seen(("borrow", f.id, which, level, len));
    cx.sample(|| format!("borrow {which}; {}", f.desc));
    let (x, y, p) = (&a.ct, &b.ct, &b.pt);
    let mut r = cx.fork();
    let before = snaps![a.ct, b.ct, a.pt, b.pt, a.sk];
    match which {
        0 => {
            no_panic("ct+ct", || x + y)?;
            no_panic("ct-ct", || x - y)?;
            no_panic("-ct", || -x)?;
            no_panic("ct+pt", || x + p)?;
            no_panic("ct-pt", || x - p)?;
            no_panic("pt+ct", || p + x)?;
            no_panic("pt-ct", || p - x)?;
            no_panic("ct*pt", || x * p)?;
        }
        1 => {
            no_panic("ct*ct", || x * y)?;
            no_panic("ct*ct", || x * x)?;
            let z = Ciphertext::zero(&f.par);
            no_panic("ct*zero", || x * &z)?;
            no_panic("ct+zero", || x + &z)?;
            no_panic("zero-ct", || &z - x)?;
            check!(z.is_empty(), "zero:changed", "the zero ciphertext changed; {}", f.desc);
        }
        2 => {
            let (mut z, mut w, mut v) = (x.clone(), x.clone(), x.clone());
            no_panic("ct+=ct", || z += y)?;
            no_panic("ct-=ct", || w -= y)?;
            no_panic("ct*=pt", || v *= p)?;
            no_panic("ct-=pt", || v -= p)?;
            no_panic("ct+=pt", || v += p)?;
        }
        3 => {
            let cts = [x.clone(), y.clone(), x.clone()];
            let pts = [a.pt.clone(), b.pt.clone(), b.pt.clone()];
            let b4 = snaps![cts.to_vec(), pts.to_vec()];
            no_panic("dot_product_scalar", || dot_product_scalar(cts.iter(), pts.iter()))?.lib("dot_product_scalar")?;
            same!(cx, b4, "dot_product_scalar", cts.to_vec(), pts.to_vec());
        }
        4 => {
            a.sk.try_decrypt(x).lib("try_decrypt")?;
            let _ = unsafe { a.sk.measure_noise(x) }.lib("measure_noise")?;
            let pk = PublicKey::new(&a.sk, &mut r);
            let b4 = snaps![pk];
            let _: Ciphertext = pk.try_encrypt(p, &mut r).lib("pk.try_encrypt")?;
            let _: Ciphertext = a.sk.try_encrypt(p, &mut r).lib("sk.try_encrypt")?;
            let _: RGSWCiphertext = a.sk.try_encrypt(p, &mut r).lib("sk.try_encrypt rgsw")?;
            let _ = Vec::<num_bigint::BigUint>::try_decode(p, None);
            let _ = x.to_bytes();
            same!(cx, b4, "encrypt", pk);
        }
        5 => {
            let lvl = cx.range(0, f.max_level() - 1);
            let rk = RelinearizationKey::new_leveled(&a.sk, lvl, cx.range(0, lvl), &mut r).lib("RelinearizationKey")?;
            let m = Multiplicator::default(&rk).lib("Multiplicator::default")?;
            let u = some_ct_any(cx, f, lvl, 2, &a.s)?;
            let v = some_ct_any(cx, f, lvl, 2, &a.s)?;
            let mut w = some_ct_any(cx, f, lvl, 3, &a.s)?;
            let b4 = snaps![rk, m, u, v];
            m.multiply(&u, &v).lib("multiply")?;
            m.multiply(&u, &u).lib("multiply")?;
            rk.relinearizes(&mut w).lib("relinearizes")?;
            same!(cx, b4, "multiplicator", rk, m, u, v);
        }
        6 => {
            let mut bld = EvaluationKeyBuilder::new_leveled(&a.sk, level, cx.range(0, level)).lib("EvaluationKeyBuilder")?;
            let e = cx.range(1, f.n.ilog2() as usize);
            bld.enable_inner_sum().lib("inner")?.enable_row_rotation().lib("row")?.enable_expansion(e).lib("expansion")?;
            let ek = bld.build(&mut r).lib("build")?;
            let z = some_ct(cx, f, level, 2, &a.sk, &a.s)?;
            let b4 = snaps![ek, z];
            ek.rotates_rows(&z).lib("rotates_rows")?;
            ek.computes_inner_sum(&z).lib("computes_inner_sum")?;
            ek.rotates_columns_by(&z, 1).lib("rotates_columns_by")?;
            ek.expands(&z, cx.range(1, 1 << e)).lib("expands")?;
            same!(cx, b4, "evaluation key", ek, z);
        }
        _ => {
            let ctx = f.ctx(level)?;
            let (p1, p2) = (Poly::<Ntt>::random(&ctx, &mut r), Poly::<Ntt>::random(&ctx, &mut r));
            let (u, w) = (Poly::<PowerBasis>::random(&ctx, &mut r), Poly::<PowerBasis>::random(&ctx, &mut r));
            let sh: Poly<NttShoup> = p2.clone().into_ntt_shoup();
            let b4 = snaps![p1, p2, u, w, sh];
            let e = SubstitutionExponent::new(&ctx, 2 * cx.u(f.n) + 1).lib("SubstitutionExponent")?;
            let _ = (&p1 + &p2, &p1 - &p2, &p1 * &p2, &p1 * &sh, &u + &w, &u - &w, -&p1, -&u);
            p1.substitute(&e).lib("substitute")?;
            u.substitute(&e).lib("substitute")?;
            dot_product([&p1, &p2].into_iter(), [&p2, &p2].into_iter()).lib("dot_product")?;
            let _ = (p1.to_power_basis(), u.to_power_basis(), p1.to_bytes());
            let to = f.ctx(cx.range(0, f.max_level()))?;
            u.switch(&Switcher::new(&ctx, &to).lib("Switcher::new")?).lib("switch")?;
            p1.scale(&Scaler::new(&ctx, &to, ScalingFactor::one()).lib("Scaler::new")?).lib("scale")?;
            same!(cx, b4, "polynomials", p1, p2, u, w, sh);
        }
    }
    same!(cx, before, "borrow", a.ct, b.ct, a.pt, b.pt, a.sk);
    cx.ev("borrowed", 1);
    Ok(())
}

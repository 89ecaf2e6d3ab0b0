//! C09: encoding and decoding plaintexts.
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Encoding, Plaintext, PlaintextVec};
use fhe_traits::{FheDecoder, FheEncoder, FheEncoderVariableTime, PublicData, VariableTime};
use num_bigint::{BigInt, BigUint};
use num_traits::{ToPrimitive, Zero};

pub fn property() -> Property {
    Property {
        id: "C09",
        rule: "a case is a BFV parameter set (plaintext moduli: 2, powers of two, composite, prime with and without batching, next to a ciphertext modulus, beyond 64 bits; 1..5 ciphertext moduli; degree 8..64, and up to 65536 with sampled evaluations), a level, an encoding, a value vector (unsigned, signed or big; reduced or not; 0..3 plaintexts long) and an entry point; it is encoded and decoded in every form and compared with the values modulo t, with the polynomial they denote and, for batching, with evaluation at the powers of a root; inadmissible requests must return an error. Distinct = distinct (parameters, level, encoding, value class, entry point); non-trivial = something was decoded or refused.",
        workloads: vec![
            Workload { name: "roundtrip", weight: 5, max: 0, f: roundtrip },
            Workload { name: "slots", weight: 2, max: 0, f: slots },
            Workload { name: "refuse", weight: 2, max: 0, f: refuse },
            Workload { name: "zero", weight: 1, max: 60000, f: zero },
            Workload { name: "large", weight: 1, max: 400, f: large },
        ],
        required: vec![
            "decoded-u64", "decoded-i64", "decoded-big", "batched", "unreduced-values", "multi-plaintext", "variable-time-encodings",
            "refused-too-long", "refused-level", "refused-simd", "refused-encoding-mismatch", "refused-missing-encoding",
            "refused-value-range", "lowest-value", "refused-small-level", "big-t", "t-near-or-above-q0", "slot-evaluations", "slot-products", "zero-plaintexts",
            "large-degrees", "degree-65536",
        ],
        finish: None,
    }
}

fn enc(simd: bool, level: usize) -> Encoding {
    if simd { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) }
}
fn vt() -> VariableTime {
    VariableTime::new(PublicData::assert_public())
}

/// Judge one plaintext against the values (integers) it was made from.
pub fn judge(cx: &mut Cx, f: &Fix, pt: &Plaintext, vals: &[BigInt], simd: bool, level: usize, what: &str) -> R {
    let n = f.n;
    let mut want: Vec<BigUint> = vals.iter().map(|x| modp(x, &f.t)).collect();
    want.resize(n, BigUint::zero());
    check!(pt.level() == level, "encode:level", "{what}: level {} instead of {level}; {}", pt.level(), f.desc);
    let e = if cx.coin(1, 2) { Some(enc(simd, level)) } else { None };
    let b = Vec::<BigUint>::try_decode(pt, e.clone()).lib("decode-big")?;
    check!(b == want, "roundtrip:big", "{what} level {level} simd {simd} {}: got {} want {}", f.desc, msg_str(&b), msg_str(&want));
    cx.ev("decoded-big", n as u64);
    if want.iter().all(|x| x.to_u64().is_some()) {
        let u = Vec::<u64>::try_decode(pt, e.clone()).lib("decode-u64")?;
        check!(u.len() == n && u.iter().zip(&want).all(|(a, b)| big(*a) == *b), "roundtrip:u64", "{what} level {level} simd {simd} {}: got {u:?} want {}", f.desc, msg_str(&want));
        cx.ev("decoded-u64", n as u64);
    }
    let tb = int(&f.t);
    let r = no_panic("decode-i64", || Vec::<i64>::try_decode(pt, e.clone()))?;
    // some signed word next to zero stands for the value: i64::MIN does, for 2^63 modulo 2^64
    let fits = want.iter().all(|x| {
        let c = center(x, &f.t);
        c.to_i64().is_some() || (abs(&(&c * 2)) == tb && (-c).to_i64().is_some())
    });
    if fits && want.iter().any(|x| center(x, &f.t).magnitude().bits() >= 63) {
        cx.ev("lowest-value", 1);
    }
    match r {
        Ok(i) => {
            for (a, w) in i.iter().zip(&want) {
                let a = BigInt::from(*a);
                check!(i.len() == n && modp(&a, &f.t) == *w && abs(&(&a * 2)) <= &tb + 1, "roundtrip:i64", "{what} level {level} simd {simd} {}: got {i:?} want {}", f.desc, msg_str(&want));
            }
            cx.ev("decoded-i64", n as u64);
        }
        Err(e) => {
            check!(!fits, "decode-i64:unexpected-error", "{what} {}: {e:?} for {}", f.desc, msg_str(&want));
            cx.ev("refused-value-range", 1);
        }
    }
    Ok(())
}

fn values(cx: &mut Cx, f: &Fix, len: usize) -> (Vec<BigInt>, u64) {
    let cls = cx.u(5) as u64;
    let t = int(&f.t);
    let v = (0..len)
        .map(|_| {
            let r = int(&f.rand_big(cx));
            match cls {
                0 => r,
                1 => &t - 1,
                2 => match cx.u(6) {
                    0 => BigInt::from(0),
                    1 => &t - 1,
                    2 => &t / 2,
                    3 => (&t + 1) / 2,
                    4 => (&t / 2 + 1) % &t,
                    _ => r,
                },
                // anything the type holds
                3 => BigInt::from(cx.u64()),
                _ => match cx.u(4) {
                    0 => t.clone(),
                    1 => &t + 1,
                    2 => BigInt::from(u64::MAX),
                    _ => r,
                },
            }
        })
        .collect();
    (v, cls)
}

fn roundtrip(cx: &mut Cx) -> R {
    let f = fix(cx, if cx.idx % 3 == 0 { Want { simd: true, budget: 2, ..ANY } } else { Want { budget: 2, ..ANY } })?;
    let level = f.level(cx, 2)?;
    let simd = f.simd && cx.coin(2, 3);
    let multi = cx.coin(1, 4);
    let len = if multi { cx.range(0, 3 * f.n) } else { *cx.pick(&[f.n, f.n, 0, 1, f.n - 1, f.n / 2]) };
    let form = cx.u(4);
    let (mut v, cls) = values(cx, &f, len);
    let e = enc(simd, level);
    let what = format!("form {form} multi {multi} len {len} values class {cls}");
    cx.tr(format!("{what} {}", f.desc));
    let signed = form == 2;
    match form {
        0 | 1 => {
            for x in v.iter_mut() {
                if x.to_u64().is_none() {
                    *x = BigInt::from(cx.u64());
                }
            }
        }
        2 => {
            for x in v.iter_mut() {
                let y = x.to_i64().unwrap_or_else(|| cx.u64() as i64);
                *x = BigInt::from(match cx.u(6) {
                    0 => y.wrapping_neg(),
                    1 => i64::MIN,
                    2 => i64::MAX,
                    3 => -(y & 0xff),
                    _ => y,
                });
            }
        }
        _ => {
            for x in v.iter_mut() {
                if cls == 4 && !simd {
                    // far beyond the plaintext modulus
                    *x = &*x + int(&f.t) * BigInt::from(cx.u64());
                }
                if simd && x.to_u64().is_none() {
                    *x = BigInt::from(cx.u64());
                }
            }
        }
    }
    if v.iter().any(|x| *x >= int(&f.t) || *x < BigInt::from(0)) {
        cx.ev("unreduced-values", 1);
    }
    let pts: Vec<Plaintext> = if multi && form != 2 {
        let pv = match form {
            0 => {
                let u: Vec<u64> = v.iter().map(|x| x.to_u64().unwrap()).collect();
                PlaintextVec::try_encode(u.as_slice(), e.clone(), &f.par).lib("encode-vec")?
            }
            1 => {
                let u: Vec<u64> = v.iter().map(|x| x.to_u64().unwrap()).collect();
                cx.ev("variable-time-encodings", 1);
                PlaintextVec::try_encode_vt(u.as_slice(), e.clone(), &f.par, vt()).lib("encode-vec-vt")?
            }
            _ => {
                let u: Vec<BigUint> = v.iter().map(|x| x.to_biguint().unwrap()).collect();
                PlaintextVec::try_encode(u.as_slice(), e.clone(), &f.par).lib("encode-vec-big")?
            }
        };
        cx.ev("multi-plaintext", 1);
        let want = len.div_ceil(f.n).max(1);
        check!(pv.len() == want, "encode-vec:count", "{what}: {} plaintexts for {len} values of {} slots", pv.len(), f.n);
        pv.to_vec()
    } else {
        v.truncate(f.n);
        let pt = match form {
            0 => {
                let u: Vec<u64> = v.iter().map(|x| x.to_u64().unwrap()).collect();
                if u.len() == 8 {
                    let a: [u64; 8] = u.clone().try_into().unwrap();
                    Plaintext::try_encode(&a, e.clone(), &f.par).lib("encode-array")?
                } else if cx.coin(1, 2) {
                    Plaintext::try_encode(&u, e.clone(), &f.par).lib("encode-u64")?
                } else {
                    Plaintext::try_encode(u.as_slice(), e.clone(), &f.par).lib("encode-u64")?
                }
            }
            1 => {
                let u: Vec<u64> = v.iter().map(|x| x.to_u64().unwrap()).collect();
                cx.ev("variable-time-encodings", 1);
                Plaintext::try_encode_vt(u.as_slice(), e.clone(), &f.par, vt()).lib("encode-vt")?
            }
            2 => {
                let u: Vec<i64> = v.iter().map(|x| x.to_i64().unwrap()).collect();
                Plaintext::try_encode(u.as_slice(), e.clone(), &f.par).lib("encode-i64")?
            }
            _ => {
                let u: Vec<BigUint> = v.iter().map(|x| x.to_biguint().unwrap()).collect();
                Plaintext::try_encode(u.as_slice(), e.clone(), &f.par).lib("encode-big")?
            }
        };
        vec![pt]
    };
    for (i, pt) in pts.iter().enumerate() {
        let chunk = &v[(i * f.n).min(v.len())..((i + 1) * f.n).min(v.len())];
        judge(cx, &f, pt, chunk, simd, level, &what)?;
        if !simd {
            // the polynomial itself
            let c = f.coeffs(pt)?;
            let mut want: Vec<BigUint> = chunk.iter().map(|x| modp(x, &f.t)).collect();
            want.resize(f.n, BigUint::zero());
            check!(c == want, "encode:polynomial", "{what} {}: holds {} instead of {}", f.desc, msg_str(&c), msg_str(&want));
        }
    }
    if simd {
        cx.ev("batched", 1);
    }
    if f.ts.is_none() {
        cx.ev("big-t", 1);
    }
    if &f.t * 2u32 > big(f.q[0]) {
        cx.ev("t-near-or-above-q0", 1);
    }
    cx.sample(|| format!("{} level {level} simd {simd} {what} signed {signed}", f.desc));
    cx.seen((f.id, f.q.clone(), level, simd, cls, form, multi, len));
    Ok(())
}

/// Batched slots are evaluations at the powers of one primitive root, laid out
/// as a two-row matrix; ring operations act slot-wise.
fn slots(cx: &mut Cx) -> R {
    let f = fix(cx, Want { simd: true, budget: 2, ..ANY })?;
    let level = f.level(cx, 2)?;
    let t = f.ts.unwrap();
    let n = f.n;
    let e = Encoding::simd_at_level(level);
    let mk = |v: &[u64]| Plaintext::try_encode(v, e.clone(), &f.par).lib("encode-u64");
    let coef = |pt: &Plaintext| -> R<Vec<u64>> { Ok(f.coeffs(pt)?.iter().map(|x| x.to_u64().unwrap()).collect()) };
    let a: Vec<u64> = (0..n).map(|_| cx.u64() % t).collect();
    let b: Vec<u64> = (0..n).map(|_| cx.u64() % t).collect();
    let (pa, pb) = (mk(&a)?, mk(&b)?);
    let (ca, cb) = (coef(&pa)?, coef(&pb)?);
    // Coefficients decoded as slots: x itself gives the evaluation points.
    let slots_of = |c: &[u64]| -> R<Vec<u64>> {
        use fhe_traits::{FheDecrypter, FheEncrypter};
        // decoding under the other encoding needs a plaintext without a stored
        // one: go through a decryption
        let sk = fhe::bfv::SecretKey::random(&f.par, &mut case_rng("c09", "sk", 0, 1));
        let p = Plaintext::try_encode(c, Encoding::poly(), &f.par).lib("encode-poly")?;
        let ct = sk.try_encrypt(&p, &mut case_rng("c09", "e", 0, 1)).lib("encrypt")?;
        let d = sk.try_decrypt(&ct).lib("decrypt")?;
        Vec::<u64>::try_decode(&d, Encoding::simd()).lib("decode")
    };
    if f.big_q(0).bits() >= f.t.bits() + 10 {
        let mut x = vec![0u64; n];
        x[1] = 1;
        let pts = slots_of(&x)?;
        let z = pts[0];
        check!(powmod(z, n as u64, t) == t - 1, "slots:root", "slot 0 of x is {z}, no primitive 2n-th root mod {t}; {}", f.desc);
        let mut g = 1u64;
        for i in 0..n / 2 {
            check!(pts[i] == powmod(z, g, t), "slots:row0", "slot {i} of x is {} instead of z^(3^{i}) = {}", pts[i], powmod(z, g, t));
            check!(pts[n / 2 + i] == powmod(z, 2 * n as u64 - g, t), "slots:row1", "slot {} of x is {} instead of z^-(3^{i})", n / 2 + i, pts[n / 2 + i]);
            g = g * 3 % (2 * n as u64);
        }
        for i in 0..n {
            let mut v = 0;
            for c in ca.iter().rev() {
                v = addmod(mulmod(v, pts[i], t), *c, t);
            }
            check!(v == a[i], "slots:evaluation", "slot {i} was encoded as {} but the polynomial evaluates to {v}; {}", a[i], f.desc);
        }
        cx.ev("slot-evaluations", n as u64);
        // slot-wise action
        let prod: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, t)).collect();
        let cp = negacyclic(&ca, &cb, t);
        check!(slots_of(&cp)? == prod, "slots:product", "ring product is not slot-wise; {}", f.desc);
        check!(coef(&mk(&prod)?)? == cp, "slots:product", "encoded product is not the ring product; {}", f.desc);
        cx.ev("slot-products", n as u64);
    }
    let sum: Vec<u64> = a.iter().zip(&b).map(|(x, y)| addmod(*x, *y, t)).collect();
    let cs: Vec<u64> = ca.iter().zip(&cb).map(|(x, y)| addmod(*x, *y, t)).collect();
    check!(coef(&mk(&sum)?)? == cs, "slots:sum", "encoded sum is not the ring sum; {}", f.desc);
    cx.seen((f.id, f.q.clone(), level, a));
    Ok(())
}

/// Realistic and extreme degrees: values come back in both encodings, and
/// slots are evaluations at the powers of a root.
fn large(cx: &mut Cx) -> R {
    use fhe_traits::{FheDecrypter, FheEncrypter};
    let idx = cx.idx as usize;
    let n = 1usize << if idx < 4 { 16 - idx } else { cx.range(7, if idx % 8 == 0 { 16 } else { 12 }) };
    let k = cx.range(1, 2);
    let q = crate::gen_::moduli(cx, n, k, 58, 62);
    let b = *cx.pick(&[20u32, 22, 30, 36]);
    let t = crate::gen_::primes(b, n)[0];
    let f = build(40_000 + idx, n, &q, &big(t), cx.range(1, 32))?;
    let level = cx.u(k);
    let len = if cx.coin(1, 3) { cx.range(1, n) } else { n };
    let v: Vec<u64> = (0..len).map(|_| cx.u64() % t).collect();
    let mut want = v.clone();
    want.resize(n, 0);
    let signed: Vec<i64> = want.iter().map(|x| if *x > t / 2 { *x as i64 - t as i64 } else { *x as i64 }).collect();
    for simd in [false, true] {
        let e = enc(simd, level);
        let pt = Plaintext::try_encode(&v, e.clone(), &f.par).lib("encode-u64")?;
        check!(Vec::<u64>::try_decode(&pt, e.clone()).lib("decode-u64")? == want, "large:u64", "degree {n} simd {simd}: {len} values come back wrong; {}", f.desc);
        let ps = Plaintext::try_encode(&signed, e.clone(), &f.par).lib("encode-i64")?;
        check!(ps == pt, "large:i64", "degree {n} simd {simd}: signed values make another plaintext; {}", f.desc);
        let d = Vec::<i64>::try_decode(&pt, e.clone()).lib("decode-i64")?;
        let fine = |a: i64, w: u64| a.rem_euclid(t as i64) as u64 == w && 2 * a.unsigned_abs() <= t + 1;
        check!(d.len() == n && d.iter().zip(&want).all(|(a, w)| fine(*a, *w)), "large:i64", "degree {n} simd {simd}: signed values come back wrong; {}", f.desc);
        let pv = unsafe { Plaintext::try_encode_vt(&v, e.clone(), &f.par, vt()) }.lib("encode-vt")?;
        check!(pv == pt, "large:vt", "degree {n} simd {simd}: the variable-time encoding differs; {}", f.desc);
        if simd {
            // the evaluation points, read off the polynomial x
            let mut x = vec![0u64; n];
            x[1] = 1;
            let sk = fhe::bfv::SecretKey::random(&f.par, &mut cx.fork());
            let px = Plaintext::try_encode(&x, enc(false, level), &f.par).lib("encode-poly")?;
            let ct: fhe::bfv::Ciphertext = sk.try_encrypt(&px, &mut cx.fork()).lib("encrypt")?;
            let pts = Vec::<u64>::try_decode(&sk.try_decrypt(&ct).lib("decrypt")?, e.clone()).lib("decode")?;
            let z = pts[0];
            check!(powmod(z, n as u64, t) == t - 1, "large:root", "degree {n}: slot 0 of x is {z}, no primitive 2n-th root mod {t}; {}", f.desc);
            let z2 = powmod(z, 3, t);
            for i in 0..n / 2 {
                let prev = if i == 0 { z } else { powmod(pts[i - 1], 3, t) };
                check!(pts[i] == prev && (i != 1 || pts[1] == z2), "large:row0", "degree {n}: slot {i} of x is {} instead of {prev}; {}", pts[i], f.desc);
                check!(mulmod(pts[n / 2 + i], pts[i], t) == 1, "large:row1", "degree {n}: slot {} of x is {}, not the inverse of slot {i}; {}", n / 2 + i, pts[n / 2 + i], f.desc);
            }
            let c: Vec<u64> = f.coeffs(&pt)?.iter().map(|x| x.to_u64().unwrap()).collect();
            for k in 0..6 {
                let i = match k {
                    0 => 0,
                    1 => n - 1,
                    2 => n / 2,
                    _ => cx.u(n),
                };
                let y = c.iter().rev().fold(0, |acc, c| addmod(mulmod(acc, pts[i], t), *c, t));
                check!(y == want[i], "large:evaluation", "degree {n}: slot {i} was encoded as {} but the polynomial evaluates to {y}; {}", want[i], f.desc);
            }
            cx.ev("slot-evaluations", 6);
        }
    }
    cx.ev("large-degrees", 1);
    if n == 65536 {
        cx.ev("degree-65536", 1);
    }
    cx.seen((n, q, t, level, len, v[0]));
    Ok(())
}

fn refuse(cx: &mut Cx) -> R {
    let kind = cx.u(7);
    let f = fix(cx, Want { budget: 2, ..ANY })?;
    let n = f.n;
    let refused = |cx: &mut Cx, what: &'static str, r: R<bool>| -> R {
        match r? {
            true => {
                cx.ev(what, 1);
                Ok(())
            }
            false => Err(Fail::Violation { sig: format!("accepted:{what}"), msg: format!("{what} was accepted; {}", f.desc) }),
        }
    };
    match kind {
        0 => {
            let len = n + 1 + cx.u(2 * n);
            let u = vec![1u64; len];
            let b = vec![BigUint::from(1u32); len];
            let i = vec![1i64; len];
            let e = Encoding::poly;
            refused(cx, "refused-too-long", no_panic("encode", || Plaintext::try_encode(&u, e(), &f.par).is_err()))?;
            refused(cx, "refused-too-long", no_panic("encode", || Plaintext::try_encode(&b, e(), &f.par).is_err()))?;
            refused(cx, "refused-too-long", no_panic("encode", || Plaintext::try_encode(&i, e(), &f.par).is_err()))?;
            refused(cx, "refused-too-long", no_panic("encode", || Plaintext::try_encode_vt(u.as_slice(), e(), &f.par, vt()).is_err()))?;
        }
        1 => {
            let l = *cx.pick(&[f.q.len(), f.q.len() + 1, usize::MAX, usize::MAX / 2]);
            let e = || Encoding::poly_at_level(l);
            let u = vec![1u64; n];
            refused(cx, "refused-level", no_panic("encode", || Plaintext::try_encode(&u, e(), &f.par).is_err()))?;
            refused(cx, "refused-level", no_panic("encode", || PlaintextVec::try_encode(u.as_slice(), e(), &f.par).is_err()))?;
            refused(cx, "refused-level", no_panic("encode", || Plaintext::try_encode(&[1i64; 2], e(), &f.par).is_err()))?;
            refused(cx, "refused-level", no_panic("zero", || Plaintext::zero(e(), &f.par).is_err()))?;
        }
        2 => {
            if f.simd {
                return Err(Fail::Skip("batching available"));
            }
            let u = vec![1u64; n];
            let e = Encoding::simd;
            refused(cx, "refused-simd", no_panic("encode", || Plaintext::try_encode(&u, e(), &f.par).is_err()))?;
            refused(cx, "refused-simd", no_panic("encode", || Plaintext::try_encode_vt(u.as_slice(), e(), &f.par, vt()).is_err()))?;
            refused(cx, "refused-simd", no_panic("encode", || Plaintext::try_encode(&[BigUint::zero()], e(), &f.par).is_err()))?;
        }
        3 => {
            let l = f.level(cx, 2)?;
            let simd = f.simd && cx.coin(1, 2);
            let m = vec![1u64; n];
            let pt = Plaintext::try_encode(&m, enc(simd, l), &f.par).lib("encode")?;
            let other = match cx.u(2) {
                0 => enc(!simd, l),
                _ => enc(simd, l + 1),
            };
            refused(cx, "refused-encoding-mismatch", no_panic("decode", || Vec::<u64>::try_decode(&pt, other.clone()).is_err()))?;
            refused(cx, "refused-encoding-mismatch", no_panic("decode", || Vec::<i64>::try_decode(&pt, other.clone()).is_err()))?;
            refused(cx, "refused-encoding-mismatch", no_panic("decode", || Vec::<BigUint>::try_decode(&pt, other.clone()).is_err()))?;
        }
        4 => {
            use fhe_traits::{FheDecrypter, FheEncrypter};
            let mut r = cx.fork();
            let sk = fhe::bfv::SecretKey::random(&f.par, &mut r);
            let pt = f.encode(&vec![BigUint::zero(); n], 0)?;
            let d = sk.try_decrypt(&sk.try_encrypt(&pt, &mut r).lib("encrypt")?).lib("decrypt")?;
            refused(cx, "refused-missing-encoding", no_panic("decode", || Vec::<u64>::try_decode(&d, None).is_err()))?;
            refused(cx, "refused-missing-encoding", no_panic("decode", || Vec::<i64>::try_decode(&d, None).is_err()))?;
            refused(cx, "refused-missing-encoding", no_panic("decode", || Vec::<BigUint>::try_decode(&d, None).is_err()))?;
            if !f.simd {
                refused(cx, "refused-simd", no_panic("decode", || Vec::<BigUint>::try_decode(&d, Encoding::simd()).is_err()))?;
            }
        }
        5 => {
            // values that the requested form cannot hold
            if f.ts.is_some() {
                return Err(Fail::Skip("small t"));
            }
            let v: BigUint = &f.t - 1u32 - f.rand_big(cx) / 4u32;
            let pt = Plaintext::try_encode(std::slice::from_ref(&v), Encoding::poly(), &f.par).lib("encode")?;
            if v.to_u64().is_none() {
                refused(cx, "refused-value-range", no_panic("decode", || Vec::<u64>::try_decode(&pt, Encoding::poly()).is_err()))?;
            }
            let c = center(&v, &f.t);
            if c.to_i64().is_none() {
                refused(cx, "refused-value-range", no_panic("decode-i64", || Vec::<i64>::try_decode(&pt, Encoding::poly()).is_err()))?;
            }
        }
        _ => {
            // a level whose modulus does not exceed t cannot hold plaintexts
            let Some(l) = (0..f.q.len()).find(|l| *f.big_q(*l) <= f.t) else {
                return Err(Fail::Skip("all levels hold t"));
            };
            let l = cx.range(l, f.q.len() - 1);
            let m: Vec<BigUint> = (0..n).map(|_| f.rand_big(cx)).collect();
            let r = no_panic("encode", || match f.ts {
                Some(_) => {
                    let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
                    Plaintext::try_encode(&v, Encoding::poly_at_level(l), &f.par)
                }
                None => Plaintext::try_encode(&m, Encoding::poly_at_level(l), &f.par),
            })?;
            match r {
                Err(_) => cx.ev("refused-small-level", 1),
                Ok(pt) => {
                    let got = Vec::<BigUint>::try_decode(&pt, None).lib("decode-big")?;
                    check!(got == m, "wrong-plaintext:small-level", "encoding at level {l} (Q = {}) succeeded but decodes to {} instead of {}; {}", f.big_q(l), msg_str(&got), msg_str(&m), f.desc);
                    cx.ev("representable-at-small-level", 1);
                }
            }
        }
    }
    cx.seen((f.id, f.q.clone(), kind));
    Ok(())
}

fn zero(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 2, ..ANY })?;
    let level = f.level(cx, 2)?;
    let simd = f.simd && cx.coin(1, 2);
    let pt = Plaintext::zero(enc(simd, level), &f.par).lib("zero")?;
    judge(cx, &f, &pt, &[], simd, level, "zero")?;
    let e: Plaintext = Plaintext::try_encode(&[] as &[u64], enc(simd, level), &f.par).lib("encode-empty")?;
    check!(e == pt, "zero:equality", "the encoding of nothing differs from zero; {}", f.desc);
    cx.ev("zero-plaintexts", 1);
    cx.seen((f.id, f.q.clone(), level, simd));
    Ok(())
}

//! C07: untrusted bytes.
use super::c10::some_key;
use crate::alloc::peak;
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{
    BfvParameters, Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, PublicKey,
    RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar,
};
use fhe::proto::bfv as pb;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, RepresentationTag, SubstitutionExponent};
use fhe_traits::{Deserialize, DeserializeParametrized, DeserializeWithContext, FheDecoder, FheDecrypter, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::Zero;
use prost::Message;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C07",
        rule: "a case takes a valid encoding of one deserializable type under a random parameter set, mutates it (field by field: degrees, representations, residues at and beyond their modulus, part counts, levels, seeds, decomposition bases, exponents, missing and repeated fields; or byte by byte: flips, truncations, insertions, splices, random strings, huge length prefixes) and decodes it. Decoding must return, and the heap may not grow beyond a fixed multiple of what the input and the parameters account for. What is accepted must have canonical residues, the right degree, part counts and levels, must read back equal, and is then used in every operation of its type, none of which may panic. Distinct = distinct (type, parameters, mutated bytes); non-trivial = the bytes differ from a valid encoding.",
        workloads: vec![
            Workload { name: "polynomial", weight: 4, max: 0, f: polynomial },
            Workload { name: "ciphertext", weight: 5, max: 0, f: ciphertext },
            Workload { name: "secret-key", weight: 2, max: 0, f: secret_key },
            Workload { name: "public-key", weight: 3, max: 0, f: public_key },
            Workload { name: "relinearization-key", weight: 4, max: 0, f: relin },
            Workload { name: "evaluation-key", weight: 4, max: 0, f: evaluation },
            Workload { name: "rgsw", weight: 4, max: 0, f: rgsw },
            Workload { name: "parameters", weight: 4, max: 0, f: parameters },
        ],
        required: vec![
            "rejected:polynomial", "accepted:polynomial", "rejected:ciphertext", "accepted:ciphertext", "rejected:secret-key", "accepted:secret-key", "rejected:public-key", "accepted:public-key",
            "rejected:relinearization-key", "accepted:relinearization-key", "rejected:evaluation-key", "accepted:evaluation-key", "rejected:rgsw", "accepted:rgsw", "rejected:parameters", "accepted:parameters",
            "mutations:bytes", "mutations:fields", "oversized-residues", "operations-on-accepted", "heap-measured",
        ],
        finish: None,
    }
}

// ---- mutations ---------------------------------------------------------

fn weird(cx: &mut Cx, valid: u64) -> u64 {
    match cx.u(14) {
        0 => 0,
        1 => valid.wrapping_add(1),
        2 => valid.wrapping_sub(1),
        3 => u32::MAX as u64,
        4 => u64::MAX,
        5 => 1 << cx.u(64),
        6 => (1u64 << cx.u(64)).wrapping_sub(1),
        7 => valid / 2,
        8 => valid.wrapping_mul(2),
        9 => cx.u64() % 70,
        10 => i32::MAX as u64 + cx.u64() % 3,
        11 => valid + 8,
        12 => cx.u64() % (valid.max(1) + 4),
        _ => cx.u64(),
    }
}
/// Mutate bytes without regard to their meaning.
fn bytes(cx: &mut Cx, b: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..cx.range(1, 3) {
        let n = b.len();
        match cx.u(11) {
            0 if n > 0 => {
                let i = cx.u(n);
                b[i] ^= 1 << cx.u(8);
            }
            1 if n > 0 => {
                let i = cx.u(n);
                b[i] = cx.u64() as u8;
            }
            2 if n > 0 => {
                let k = cx.u(n);
                b.truncate(k)
            }
            3 => {
                let i = cx.u(n + 1);
                b.insert(i, *cx.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x0a, 0x12]));
            }
            4 if n > 1 => {
                let i = cx.u(n);
                let k = cx.range(1, (n - i).min(40));
                b.drain(i..i + k);
            }
            5 if n > 1 => {
                let i = cx.u(n);
                let k = cx.range(1, (n - i).min(64));
                let s = b[i..i + k].to_vec();
                b.extend(s);
            }
            6 if !other.is_empty() => {
                // the head of one encoding and the tail of another
                let i = cx.u(n + 1);
                let j = cx.u(other.len());
                b.truncate(i);
                b.extend(&other[j..]);
            }
            7 => {
                // a length prefix that promises far too much
                let tag = (cx.range(1, 6) as u8) << 3 | 2;
                b.push(tag);
                b.extend([0xff, 0xff, 0xff, 0xff, *cx.pick(&[0x07u8, 0x0f, 0x01])]);
                for _ in 0..cx.u(4) {
                    b.push(cx.u64() as u8);
                }
            }
            8 => {
                // an unknown or repeated scalar field
                b.push((cx.range(0, 9) as u8) << 3);
                let mut v = weird(cx, 8);
                while v >= 128 {
                    b.push(v as u8 | 128);
                    v >>= 7;
                }
                b.push(v as u8);
            }
            9 if n > 0 => {
                // early bytes are the structure
                let i = cx.u(n.min(24));
                b[i] = b[i].wrapping_add(*cx.pick(&[1u8, 255, 128, 8]));
            }
            _ => {
                let k = cx.u(80);
                *b = (0..k).map(|_| cx.u64() as u8).collect();
            }
        }
    }
    cx.ev("mutations:bytes", 1);
}
fn nbits(q: u64) -> usize {
    64 - (q - 1).leading_zeros() as usize
}
fn get_bits(b: &[u8], at: usize, k: usize) -> u64 {
    (0..k).fold(0, |a, i| a | (((b[(at + i) / 8] >> ((at + i) % 8)) & 1) as u64) << i)
}
fn set_bits(b: &mut [u8], at: usize, k: usize, v: u64) {
    for i in 0..k {
        let (y, x) = ((at + i) / 8, (at + i) % 8);
        b[y] = b[y] & !(1 << x) | ((v >> i & 1) as u8) << x;
    }
}
/// Mutate one field of an encoded polynomial over moduli `q`.
fn poly_bytes(cx: &mut Cx, b: &[u8], q: &[u64], n: usize) -> Vec<u8> {
    let Ok(mut r) = RqWire::decode(b) else { return b.to_vec() };
    cx.ev("mutations:fields", 1);
    match cx.u(11) {
        0 => r.representation = weird(cx, 2) as i32,
        1 => r.representation = cx.range(0, 4) as i32,
        2 => r.degree = weird(cx, n as u64) as u32,
        3 => {
            // another degree with as many bytes as it takes
            let d = *cx.pick(&[n / 2, n * 2, 8, n + 8, 0, n / 8, 4, 12]);
            r.degree = d as u32;
            let len = q.iter().map(|p| (nbits(*p) * d).div_ceil(8)).sum::<usize>();
            r.coefficients.resize(len, 0);
        }
        4 => {
            let k = cx.u(r.coefficients.len() + 1);
            r.coefficients.truncate(k)
        }
        5 => r.coefficients.extend(vec![0u8; *cx.pick(&[1, 7, 8, n])]),
        6 => r.coefficients.clear(),
        7 => r.allow_variable_time = true,
        8 => {
            // as many bytes as one modulus more or less
            let p = *cx.pick(q);
            let len = nbits(p) * n / 8;
            if cx.coin(1, 2) {
                r.coefficients.extend(vec![1u8; len]);
            } else {
                let l = r.coefficients.len().saturating_sub(len);
                r.coefficients.truncate(l);
            }
        }
        _ => {
            // residues at and beyond the modulus
            let total: usize = q.iter().map(|p| nbits(*p) * n / 8).sum();
            if r.coefficients.len() == total {
                for _ in 0..cx.range(1, 3) {
                    let i = cx.u(q.len());
                    let k = nbits(q[i]);
                    let base: usize = q[..i].iter().map(|p| nbits(*p) * n).sum();
                    let top = if k == 64 { u64::MAX } else { (1 << k) - 1 };
                    let v = match cx.u(3) {
                        0 => q[i],
                        1 => top,
                        _ => q[i] + cx.u64() % (top - q[i] + 1),
                    };
                    if v >= q[i] {
                        let j = cx.u(n);
                        set_bits(&mut r.coefficients, base + j * k, k, v);
                        cx.ev("oversized-residues", 1);
                    }
                }
            }
        }
    }
    r.encode_to_vec()
}
/// The encoded polynomial is canonical over moduli `q`.
fn canonical(b: &[u8], q: &[u64], n: usize) -> Result<(), String> {
    let r = RqWire::decode(b).map_err(|e| e.to_string())?;
    if r.degree as usize != n {
        return Err(format!("degree {} instead of {n}", r.degree));
    }
    if r.allow_variable_time {
        return Err("timing permission written".into());
    }
    let total: usize = q.iter().map(|p| nbits(*p) * n / 8).sum();
    if r.coefficients.len() != total {
        return Err(format!("{} bytes instead of {total}", r.coefficients.len()));
    }
    let mut at = 0;
    for p in q {
        for _ in 0..n {
            let v = get_bits(&r.coefficients, at, nbits(*p));
            if v >= *p {
                return Err(format!("residue {v} modulo {p}"));
            }
            at += nbits(*p);
        }
    }
    Ok(())
}

fn ct_fields(cx: &mut Cx, c: &mut pb::Ciphertext, f: &Fix) {
    let level = c.level as usize;
    match cx.u(12) {
        0 => c.level = weird(cx, level as u64) as u32,
        1 => c.level = cx.range(0, f.max_level() + 2) as u32,
        2 => c.seed = vec![7; *cx.pick(&[0usize, 1, 31, 32, 33, 64])],
        3 => c.seed.clear(),
        4 => {
            c.c.pop();
        }
        5 => c.c.clear(),
        6 => {
            let k = c.c.len();
            for _ in 0..cx.range(1, 5) {
                if k > 0 {
                    let x = c.c[cx.u(k)].clone();
                    c.c.push(x);
                }
            }
        }
        7 => c.c.push(vec![]),
        8 => c.c.push((0..cx.u(40)).map(|_| cx.u64() as u8).collect()),
        _ => {
            if !c.c.is_empty() {
                let i = cx.u(c.c.len());
                let k = f.q.len() - level.min(f.max_level());
                c.c[i] = poly_bytes(cx, &c.c[i], &f.q[..k], f.n);
            }
        }
    }
    cx.ev("mutations:fields", 1);
}
fn ksk_fields(cx: &mut Cx, k: &mut pb::KeySwitchingKey, f: &Fix) {
    let kl = (k.ksk_level as usize).min(f.max_level());
    let q = f.q[..f.q.len() - kl].to_vec();
    match cx.u(14) {
        0 => k.ciphertext_level = weird(cx, k.ciphertext_level as u64) as u32,
        1 => k.ciphertext_level = cx.range(0, f.max_level() + 1) as u32,
        2 => k.ksk_level = cx.range(0, f.max_level() + 1) as u32,
        3 => k.ksk_level = weird(cx, kl as u64) as u32,
        4 => k.log_base = weird(cx, 30) as u32,
        5 => {
            // a decomposition base with as many parts as it takes
            let lb = *cx.pick(&[1usize, 2, 10, 30, 31, 61, 62, 63, 64, 65, 100, 1000]);
            k.log_base = lb as u32;
            let lm = f.q[0].next_power_of_two().ilog2() as usize;
            let want = lm.div_ceil(lb);
            if let Some(x) = k.c0.first().cloned() {
                k.c0.resize(want, x.clone());
                if !k.c1.is_empty() {
                    k.c1.resize(want, x);
                }
            }
            k.ciphertext_level = f.max_level() as u32;
            k.ksk_level = f.max_level() as u32;
        }
        6 => {
            k.log_base = 0;
            let want = f.q.len() - (k.ciphertext_level as usize).min(f.max_level());
            if let Some(x) = k.c0.first().cloned() {
                k.c0.resize(want, x.clone());
                if !k.c1.is_empty() {
                    k.c1.resize(want, x);
                }
            }
        }
        7 => k.seed = vec![3; *cx.pick(&[0usize, 1, 31, 32, 33, 64])],
        8 => {
            k.seed.clear();
            k.c1 = k.c0.clone();
        }
        9 => {
            k.c0.pop();
        }
        10 => {
            if let Some(x) = k.c0.last().cloned() {
                k.c0.push(x)
            }
        }
        11 => k.c0.clear(),
        _ => {
            if !k.c0.is_empty() {
                let i = cx.u(k.c0.len());
                if !k.c1.is_empty() && cx.coin(1, 2) {
                    let i = cx.u(k.c1.len());
                    k.c1[i] = poly_bytes(cx, &k.c1[i], &q, f.n);
                } else {
                    k.c0[i] = poly_bytes(cx, &k.c0[i], &q, f.n);
                }
            }
        }
    }
    cx.ev("mutations:fields", 1);
}
/// What a key-switching key writes about itself is what a valid one has.
fn ksk_valid(k: &Option<pb::KeySwitchingKey>, f: &Fix) -> Result<(usize, usize), String> {
    let k = k.as_ref().ok_or("no key")?;
    let (cl, kl) = (k.ciphertext_level as usize, k.ksk_level as usize);
    if cl > f.max_level() || kl > f.max_level() {
        return Err(format!("levels {cl} and {kl} of {}", f.max_level()));
    }
    let q = &f.q[..f.q.len() - kl];
    let (lb, parts) = if q.len() == 1 {
        let lm = q[0].next_power_of_two().ilog2() as usize;
        (lm / 2, lm.div_ceil(lm / 2))
    } else {
        (0, f.q.len() - cl)
    };
    if k.log_base as usize != lb {
        return Err(format!("decomposition base 2^{} instead of 2^{lb}", k.log_base));
    }
    if k.c0.len() != parts || !(k.c1.len() == parts || k.c1.is_empty() && k.seed.len() == 32) {
        return Err(format!("{} and {} parts instead of {parts}", k.c0.len(), k.c1.len()));
    }
    for b in k.c0.iter().chain(&k.c1) {
        canonical(b, q, f.n)?;
    }
    Ok((cl, kl))
}

// ---- decoding under observation ---------------------------------------

/// Decode, watching for panics and for the heap. `need` is what the
/// parameters account for, in bytes.
fn decode<T, E>(cx: &mut Cx, what: &str, len: usize, need: usize, f: impl FnOnce() -> Result<T, E>) -> R<Option<T>> {
    let (r, pk) = peak(|| catching(f));
    let allowed = 64 * len + 16 * need + (1 << 16);
    check!(pk <= allowed, format!("{what}:heap"), "decoding {len} bytes as {what} grew the heap by {pk} bytes (allowed {allowed})");
    cx.ev("heap-measured", 1);
    let r = match r {
        Ok(r) => r,
        Err(p) if p.in_harness => return Err(Fail::Harness(format!("{what}: {} {}", p.loc, p.msg))),
        Err(p) => viol!(format!("decode:{what}:{}", panic_sig(&p)), "decoding {len} bytes as {what} panicked at {}: {}", p.loc, p.msg),
    };
    match r {
        Ok(v) => {
            cx.ev(&format!("accepted:{what}"), 1);
            Ok(Some(v))
        }
        Err(_) => {
            cx.ev(&format!("rejected:{what}"), 1);
            Ok(None)
        }
    }
}
fn need(f: &Fix) -> usize {
    f.n * f.q.len() * 8 * (f.n.ilog2() as usize + 8)
}
fn hex(b: &[u8]) -> String {
    b.iter().take(300).map(|x| format!("{x:02x}")).collect()
}
macro_rules! usable {
    ($cx:expr, $what:expr, $b:expr) => {{
        let r = no_panic($what, || $b)?;
        $cx.ev("operations-on-accepted", 1);
        r
    }};
}

fn polynomial(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 4, max_logn: 5, ..ANY })?;
    let level = cx.range(0, f.max_level());
    let ctx = f.ctx(level)?;
    let q = &f.q[..f.q.len() - level];
    let p = Poly::<PowerBasis>::random(&ctx, &mut cx.fork());
    let rep = cx.u(3);
    let valid = match rep {
        0 => p.to_bytes(),
        1 => p.clone().into_ntt().to_bytes(),
        _ => p.clone().into_ntt_shoup().to_bytes(),
    };
    let b = if cx.coin(2, 3) {
        poly_bytes(cx, &valid, q, f.n)
    } else {
        let mut b = valid.clone();
        let o = p.clone().into_ntt().to_bytes();
        bytes(cx, &mut b, &o);
        b
    };
    fn go<T: RepresentationTag>(cx: &mut Cx, f: &Fix, q: &[u64], ctx: &Arc<Context>, b: &[u8]) -> R<Option<Poly<T>>>
    where
        Poly<T>: DeserializeWithContext<Context = Context, Error = fhe_math::Error>,
    {
        let Some(p) = decode(cx, "polynomial", b.len(), need(f), || Poly::<T>::from_bytes(b, ctx))? else { return Ok(None) };
        let c = p.coefficients();
        check!(c.nrows() == q.len() && c.ncols() == f.n, "polynomial:shape", "{}x{} coefficients from {}", c.nrows(), c.ncols(), hex(b));
        for (r, m) in c.outer_iter().zip(q) {
            check!(r.iter().all(|x| x < m), "polynomial:residues", "a residue beyond its modulus {m} was accepted from {}", hex(b));
        }
        check!(!p.allows_variable_time_computations(), "polynomial:timing", "bytes granted variable time");
        let back = no_panic("to_bytes", || p.to_bytes())?;
        if let Err(e) = canonical(&back, q, f.n) {
            viol!("polynomial:encoding", "accepted polynomial writes {e}; from {}", hex(b));
        }
        let w = RqWire::decode(b).ok();
        if let Some(w) = w {
            check!(w.degree as usize == f.n, "polynomial:degree", "a polynomial of degree {} was accepted for degree {}", w.degree, f.n);
        }
        let again = Poly::<T>::from_bytes(&back, ctx).lib("Poly::from_bytes")?;
        check!(again == p, "polynomial:round-trip", "accepted polynomial does not round-trip");
        Ok(Some(p))
    }
    if let Some(p) = go::<PowerBasis>(cx, &f, q, &ctx, &b)? {
        usable!(cx, "polynomial", {
            let o = Poly::<PowerBasis>::random(p.ctx(), &mut cx.fork());
            let e = SubstitutionExponent::new(p.ctx(), 3).unwrap();
            let _ = (&p + &o, &p - &o, -&p, p.substitute(&e).is_ok());
            let _ = Vec::<BigUint>::from(&p);
            let mut d = p.clone();
            let _ = d.switch_down();
            let n = p.clone().into_ntt();
            let s = p.clone().into_ntt_shoup();
            let mut r = &n * &s;
            r *= &n;
            let _ = r.into_power_basis();
        });
    }
    if let Some(p) = go::<Ntt>(cx, &f, q, &ctx, &b)? {
        usable!(cx, "polynomial", {
            let o = Poly::<Ntt>::random(p.ctx(), &mut cx.fork());
            let _ = (&p + &o, &p - &o, -&p, &p * &o);
            let e = SubstitutionExponent::new(p.ctx(), 5).unwrap();
            let _ = p.substitute(&e);
            let _ = p.into_power_basis().to_bytes();
        });
    }
    if let Some(p) = go::<NttShoup>(cx, &f, q, &ctx, &b)? {
        usable!(cx, "polynomial", {
            let o = Poly::<Ntt>::random(p.ctx(), &mut cx.fork());
            let _ = &o * &p;
            let _ = p.into_ntt().into_power_basis();
        });
    }
    cx.seen(("poly", f.id, b));
    Ok(())
}

fn check_ct(f: &Fix, ct: &Ciphertext, b: &[u8]) -> R<usize> {
    let l = lvl(f, ct);
    check!(l <= f.max_level(), "ciphertext:level", "accepted ciphertext has an inconsistent level; from {}", hex(b));
    check!(ct.len() >= 2, "ciphertext:parts", "accepted ciphertext has {} parts", ct.len());
    for p in ct.iter() {
        let c = p.coefficients();
        check!(c.nrows() == f.q.len() - l && c.ncols() == f.n, "ciphertext:shape", "{}x{} coefficients", c.nrows(), c.ncols());
        for (r, m) in c.outer_iter().zip(&f.q) {
            check!(r.iter().all(|x| x < m), "ciphertext:residues", "a residue beyond its modulus {m} was accepted in a ciphertext from {}", hex(b));
        }
    }
    let back = no_panic("to_bytes", || ct.to_bytes())?;
    let w = pb::Ciphertext::decode(back.as_slice()).prep("ciphertext bytes")?;
    for c in &w.c {
        if let Err(e) = canonical(c, &f.q[..f.q.len() - l], f.n) {
            viol!("ciphertext:residues", "accepted ciphertext writes {e}; from {}", hex(b));
        }
    }
    if let Ok(w) = pb::Ciphertext::decode(b) {
        for c in &w.c {
            if let Ok(r) = RqWire::decode(c.as_slice()) {
                check!(r.degree as usize == f.n, "ciphertext:degree", "a part of degree {} was accepted for degree {}", r.degree, f.n);
            }
        }
        check!(w.c.len() + !w.seed.is_empty() as usize == ct.len(), "ciphertext:parts", "{} parts and a seed of {} bytes gave {} parts", w.c.len(), w.seed.len(), ct.len());
    }
    let again = Ciphertext::from_bytes(&back, &f.par).lib("Ciphertext::from_bytes")?;
    check!(again == *ct, "ciphertext:round-trip", "accepted ciphertext does not round-trip");
    Ok(l)
}

fn ciphertext(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 10, max_logn: 5, ..ANY })?;
    let level = f.level(cx, 3)?;
    let (sk, _) = some_key(cx, &f)?;
    let m = f.rand_msg(cx);
    let pt = f.encode(&m, level)?;
    let ct: Ciphertext = if cx.coin(1, 2) {
        sk.try_encrypt(&pt, &mut cx.fork()).lib("encrypt")?
    } else {
        PublicKey::new(&sk, &mut cx.fork()).try_encrypt(&pt, &mut cx.fork()).lib("encrypt")?
    };
    let valid = ct.to_bytes();
    let b = if cx.coin(2, 3) {
        let mut p = pb::Ciphertext::decode(valid.as_slice()).prep("ct")?;
        for _ in 0..cx.range(1, 2) {
            ct_fields(cx, &mut p, &f);
        }
        p.encode_to_vec()
    } else {
        let mut b = valid.clone();
        let o = (&ct * &ct).to_bytes();
        bytes(cx, &mut b, &o);
        b
    };
    cx.tr(format!("{} bytes {}", b.len(), hex(&b)));
    let Some(c) = decode(cx, "ciphertext", b.len(), need(&f), || Ciphertext::from_bytes(&b, &f.par))? else {
        cx.seen(("ct", f.id, b));
        return Ok(());
    };
    let l = check_ct(&f, &c, &b)?;
    if c.len() <= 6 {
        use_ct(cx, &f, &sk, &c, l)?;
    }
    cx.seen(("ct", f.id, b));
    Ok(())
}
fn use_ct(cx: &mut Cx, f: &Fix, sk: &SecretKey, c: &Ciphertext, l: usize) -> R {
    if let Ok(pt) = usable!(cx, "decrypt", sk.try_decrypt(c)) {
        usable!(cx, "decode", { let _ = Vec::<BigUint>::try_decode(&pt, Encoding::poly_at_level(l)); });
    }
    usable!(cx, "measure_noise", { let _ = unsafe { sk.measure_noise(c) }; });
    usable!(cx, "add", { let _ = (c + c, c - c, -c); });
    if let Some(d) = f.deepest(2) {
        if l <= d {
            let m = f.rand_msg(cx);
            let pt = f.encode(&m, l)?;
            usable!(cx, "plaintext operations", { let _ = (c + &pt, c - &pt, &pt - c, c * &pt); });
            usable!(cx, "dot product", { let _ = dot_product_scalar([c].into_iter(), [&pt].into_iter()); });
            if c.len() == 2 && cx.coin(1, 2) {
                let rg: RGSWCiphertext = sk.try_encrypt(&pt, &mut cx.fork()).lib("rgsw")?;
                usable!(cx, "external product", { let _ = c * &rg; });
            }
        }
    }
    usable!(cx, "multiply", { let _ = c * c; });
    usable!(cx, "switch_down", { let mut x = c.clone(); let _ = x.switch_down(); });
    usable!(cx, "switch_to_level", { let mut x = c.clone(); let _ = x.switch_to_level(f.max_level()); });
    if l < f.max_level() && cx.coin(1, 2) {
        let rk = RelinearizationKey::new_leveled(sk, l, l, &mut cx.fork()).lib("rk")?;
        usable!(cx, "relinearizes", { let mut x = c.clone(); let _ = rk.relinearizes(&mut x); });
        usable!(cx, "multiplicator", { let _ = Multiplicator::default(&rk).map(|m| m.multiply(c, c)); });
    }
    if cx.coin(1, 3) {
        let ek = EvaluationKeyBuilder::new_leveled(sk, l, l)
            .and_then(|mut b| {
                b.enable_row_rotation()?;
                b.enable_expansion(1)?;
                b.build(&mut cx.fork())
            })
            .lib("ek")?;
        usable!(cx, "rotates_rows", { let _ = ek.rotates_rows(c); });
        usable!(cx, "expands", { let _ = ek.expands(c, 2); });
        usable!(cx, "rotates_columns_by", { let _ = ek.rotates_columns_by(c, 1); });
    }
    Ok(())
}

fn secret_key(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 10, max_logn: 5, ..ANY })?;
    let (sk, mut s) = some_key(cx, &f)?;
    let b = if cx.coin(2, 3) {
        cx.ev("mutations:fields", 1);
        match cx.u(6) {
            0 => s.push(0),
            1 => {
                s.pop();
            }
            2 => s.clear(),
            3 => {
                let i = cx.u(s.len());
                s[i] = *cx.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, 1 << 62, -(1 << 62), 100, -100]);
            }
            4 => s = vec![*cx.pick(&[i64::MIN, i64::MAX, -1, 1]); s.len()],
            _ => s.extend(vec![1; s.len()]),
        }
        pb::SecretKey { coeffs: s.clone() }.encode_to_vec()
    } else {
        let mut b = sk.to_bytes();
        bytes(cx, &mut b, &sk.to_bytes());
        b
    };
    let k = decode(cx, "secret-key", b.len(), need(&f), || SecretKey::from_bytes(&b, &f.par))?;
    if let Some(k) = k {
        let c = secret(&k)?;
        check!(c.len() == f.n, "secret-key:coefficients", "{} coefficients accepted for degree {}", c.len(), f.n);
        check!(SecretKey::from_bytes(&k.to_bytes(), &f.par).lib("SecretKey::from_bytes")? == k, "secret-key:round-trip", "accepted secret key does not round-trip");
        let l = f.level(cx, 3)?;
        let m = f.rand_msg(cx);
        let pt = f.encode(&m, l)?;
        let ct = usable!(cx, "encrypt", FheEncrypter::<Plaintext, Ciphertext>::try_encrypt(&k, &pt, &mut cx.fork()));
        if let Ok(ct) = ct {
            usable!(cx, "decrypt", { let _ = k.try_decrypt(&ct); });
            usable!(cx, "measure_noise", { let _ = unsafe { k.measure_noise(&ct) }; });
        }
        usable!(cx, "rgsw", { let _ = FheEncrypter::<Plaintext, RGSWCiphertext>::try_encrypt(&k, &pt, &mut cx.fork()); });
        usable!(cx, "public key", { let _ = PublicKey::new(&k, &mut cx.fork()); });
        usable!(cx, "relinearization key", { let _ = RelinearizationKey::new(&k, &mut cx.fork()); });
        usable!(cx, "evaluation key", {
            let _ = EvaluationKeyBuilder::new(&k).and_then(|mut b| {
                b.enable_row_rotation()?;
                b.build(&mut cx.fork())
            });
        });
    }
    cx.seen(("sk", f.id, b));
    Ok(())
}

fn public_key(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 10, max_logn: 5, ..ANY })?;
    let (sk, _) = some_key(cx, &f)?;
    let pk = PublicKey::new(&sk, &mut cx.fork());
    let b = if cx.coin(3, 4) {
        let mut p = pb::PublicKey::decode(pk.to_bytes().as_slice()).prep("pk")?;
        if cx.coin(1, 12) {
            p.c = None;
        } else if let Some(c) = &mut p.c {
            ct_fields(cx, c, &f);
            if cx.coin(1, 4) {
                ct_fields(cx, c, &f);
            }
        }
        p.encode_to_vec()
    } else {
        let mut b = pk.to_bytes();
        bytes(cx, &mut b, &pk.to_bytes());
        b
    };
    let k = decode(cx, "public-key", b.len(), need(&f), || PublicKey::from_bytes(&b, &f.par))?;
    if let Some(k) = k {
        let back = no_panic("to_bytes", || k.to_bytes())?;
        let w = pb::PublicKey::decode(back.as_slice()).prep("pk")?.c.ok_or(Fail::Harness("pk without ciphertext".into()))?;
        check!(w.level == 0, "public-key:level", "a public key at level {} was accepted", w.level);
        check!(w.c.len() + !w.seed.is_empty() as usize == 2, "public-key:parts", "a public key of {} parts (seed of {} bytes) was accepted", w.c.len(), w.seed.len());
        for c in &w.c {
            if let Err(e) = canonical(c, &f.q, f.n) {
                viol!("public-key:residues", "accepted public key writes {e}");
            }
        }
        check!(PublicKey::from_bytes(&back, &f.par).lib("PublicKey::from_bytes")? == k, "public-key:round-trip", "accepted public key does not round-trip");
        let l = f.level(cx, 3)?;
        let m = f.rand_msg(cx);
        let pt = f.encode(&m, l)?;
        let ct = usable!(cx, "encrypt", FheEncrypter::<Plaintext, Ciphertext>::try_encrypt(&k, &pt, &mut cx.fork())).lib("pk.try_encrypt")?;
        check_ct(&f, &ct, &[0xff])?;
        usable!(cx, "decrypt", { let _ = sk.try_decrypt(&ct); });
    }
    cx.seen(("pk", f.id, b));
    Ok(())
}

fn random_ct(cx: &mut Cx, f: &Fix, level: usize, k: usize) -> R<Ciphertext> {
    let ctx = f.ctx(level)?;
    let mut rng = cx.fork();
    Ciphertext::new((0..k).map(|_| Poly::<Ntt>::random(&ctx, &mut rng)).collect(), &f.par).lib("Ciphertext::new")
}

fn relin(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 10, max_logn: 4, max_k: 4, ..ANY })?;
    let (sk, _) = some_key(cx, &f)?;
    if f.max_level() == 0 {
        return Err(Fail::Skip("one modulus"));
    }
    let l = cx.range(0, f.max_level());
    let kl = cx.range(0, l.min(f.max_level() - 1));
    let rk = RelinearizationKey::new_leveled(&sk, l, kl, &mut cx.fork()).lib("rk")?;
    let b = if cx.coin(3, 4) {
        let mut p = pb::RelinearizationKey::from(&rk);
        if cx.coin(1, 20) {
            p.ksk = None;
        } else if let Some(k) = &mut p.ksk {
            for _ in 0..cx.range(1, 2) {
                ksk_fields(cx, k, &f);
            }
        }
        p.encode_to_vec()
    } else {
        let mut b = rk.to_bytes();
        bytes(cx, &mut b, &rk.to_bytes());
        b
    };
    cx.tr(format!("{} {} bytes {}", f.desc, b.len(), hex(&b)));
    let k = decode(cx, "relinearization-key", b.len(), need(&f), || RelinearizationKey::from_bytes(&b, &f.par))?;
    if let Some(k) = k {
        let w = pb::RelinearizationKey::from(&k);
        let (cl, kl) = match ksk_valid(&w.ksk, &f) {
            Ok(x) => x,
            Err(e) => viol!("relinearization-key:fields", "accepted relinearization key has {e}; {}", f.desc),
        };
        check!(RelinearizationKey::from_bytes(&k.to_bytes(), &f.par).lib("from_bytes")? == k, "relinearization-key:round-trip", "accepted relinearization key does not round-trip");
        let c3 = random_ct(cx, &f, cl, 3)?;
        usable!(cx, "relinearizes", { let mut c = c3.clone(); let _ = k.relinearizes(&mut c); });
        let c2 = random_ct(cx, &f, cl, 2)?;
        usable!(cx, "multiplicator", { let _ = Multiplicator::default(&k).map(|m| m.multiply(&c2, &c2)); });
        let l = cx.range(0, f.max_level());
        let c3 = random_ct(cx, &f, l, 3)?;
        usable!(cx, "relinearizes", { let mut c = c3.clone(); let _ = k.relinearizes(&mut c); });
        let _ = kl;
    }
    cx.seen(("rk", f.id, b));
    Ok(())
}

fn evaluation(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 10, max_logn: 4, max_k: 4, ..ANY })?;
    let (sk, _) = some_key(cx, &f)?;
    let l = cx.range(0, f.max_level());
    let kl = cx.range(0, l);
    let mut bld = EvaluationKeyBuilder::new_leveled(&sk, l, kl).lib("EvaluationKeyBuilder")?;
    if cx.coin(1, 2) {
        bld.enable_row_rotation().lib("enable")?;
    }
    if cx.coin(1, 2) {
        bld.enable_column_rotation(1).lib("enable")?;
    }
    if cx.coin(1, 4) {
        bld.enable_inner_sum().lib("enable")?;
    }
    if cx.coin(1, 3) {
        bld.enable_expansion(cx.range(1, f.n.ilog2() as usize)).lib("enable")?;
    }
    let ek = bld.build(&mut cx.fork()).lib("build")?;
    let b = if cx.coin(3, 4) {
        let mut p = pb::EvaluationKey::decode(ek.to_bytes().as_slice()).prep("ek")?;
        for _ in 0..cx.range(1, 2) {
            cx.ev("mutations:fields", 1);
            match cx.u(10) {
                0 => p.ciphertext_level = weird(cx, l as u64) as u32,
                1 => p.ciphertext_level = cx.range(0, f.max_level() + 1) as u32,
                2 => p.evaluation_key_level = cx.range(0, f.max_level() + 1) as u32,
                3 => p.evaluation_key_level = weird(cx, kl as u64) as u32,
                4 => {
                    p.gk.clear();
                    p.ciphertext_level = cx.range(0, f.max_level() + 1) as u32;
                    p.evaluation_key_level = cx.range(0, f.max_level() + 1) as u32;
                }
                5 => {
                    let g = p.gk.clone();
                    p.gk.extend(g);
                }
                6 => p.gk.push(pb::GaloisKey::default()),
                7 => {
                    if let Some(g) = p.gk.first_mut() {
                        g.exponent = weird(cx, g.exponent as u64) as u32;
                    }
                }
                _ => {
                    let k = p.gk.len();
                    if k > 0 {
                        let i = cx.u(k);
                        if let Some(k) = &mut p.gk[i].ksk {
                            ksk_fields(cx, k, &f);
                            if cx.coin(1, 2) {
                                // keep the announced levels consistent
                                p.ciphertext_level = k.ciphertext_level;
                                p.evaluation_key_level = k.ksk_level;
                                if cx.coin(1, 2) {
                                    let only = p.gk[i].clone();
                                    p.gk = vec![only];
                                }
                            }
                        }
                    }
                }
            }
        }
        p.encode_to_vec()
    } else {
        let mut b = ek.to_bytes();
        bytes(cx, &mut b, &ek.to_bytes());
        b
    };
    cx.tr(format!("{} {} bytes {}", f.desc, b.len(), hex(&b)));
    let k = decode(cx, "evaluation-key", b.len(), need(&f), || EvaluationKey::from_bytes(&b, &f.par))?;
    if let Some(k) = k {
        let w = pb::EvaluationKey::decode(k.to_bytes().as_slice()).prep("ek")?;
        let (cl, el) = (w.ciphertext_level as usize, w.evaluation_key_level as usize);
        check!(cl <= f.max_level() && el <= cl, "evaluation-key:levels", "an evaluation key with ciphertext level {cl} and key level {el} was accepted; {}", f.desc);
        let mut seen = std::collections::BTreeSet::new();
        for g in &w.gk {
            match ksk_valid(&g.ksk, &f) {
                Ok(x) => check!(x == (cl, el), "evaluation-key:levels", "a Galois key at levels {x:?} was accepted in an evaluation key at {cl}, {el}"),
                Err(e) => viol!("evaluation-key:fields", "accepted evaluation key has {e}; {}", f.desc),
            }
            check!(g.exponent % 2 == 1 && (g.exponent as usize) < 2 * f.n && seen.insert(g.exponent), "evaluation-key:exponent", "exponent {} was accepted for degree {}", g.exponent, f.n);
        }
        check!(EvaluationKey::from_bytes(&k.to_bytes(), &f.par).lib("from_bytes")? == k, "evaluation-key:round-trip", "accepted evaluation key does not round-trip");
        for l in [cl, cx.range(0, f.max_level())] {
            let c = random_ct(cx, &f, l, 2)?;
            usable!(cx, "rotates_rows", { let _ = (k.supports_row_rotation(), k.rotates_rows(&c)); });
            for i in [0, 1, 2, f.n / 4, f.n / 2, f.n] {
                usable!(cx, "rotates_columns_by", { let _ = (k.supports_column_rotation_by(i), k.rotates_columns_by(&c, i)); });
            }
            usable!(cx, "computes_inner_sum", { let _ = (k.supports_inner_sum(), k.computes_inner_sum(&c)); });
            for i in [1usize, 2, 3, f.n, 2 * f.n] {
                usable!(cx, "expands", { let _ = (k.supports_expansion(i.min(70)), k.expands(&c, i)); });
            }
        }
    }
    cx.seen(("ek", f.id, b));
    Ok(())
}

fn rgsw(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 10, max_logn: 4, max_k: 4, ..ANY })?;
    let (sk, _) = some_key(cx, &f)?;
    let l = f.level(cx, 3)?;
    let m = f.rand_msg(cx);
    let rg: RGSWCiphertext = sk.try_encrypt(&f.encode(&m, l)?, &mut cx.fork()).lib("rgsw")?;
    let b = if cx.coin(3, 4) {
        let mut p = pb::RgswCiphertext::from(&rg);
        match cx.u(12) {
            0 => p.ksk0 = None,
            1 => p.ksk1 = None,
            2 => p.ksk1 = p.ksk0.clone(),
            3 => {
                // both keys moved to the same other levels
                let s = cx.u64();
                for k in [&mut p.ksk0, &mut p.ksk1].into_iter().flatten() {
                    use rand::SeedableRng;
                    let keep = std::mem::replace(&mut cx.rng, rand_chacha::ChaCha8Rng::seed_from_u64(s));
                    ksk_fields(cx, k, &f);
                    cx.rng = keep;
                }
            }
            x => {
                let k = if x % 2 == 0 { &mut p.ksk0 } else { &mut p.ksk1 };
                if let Some(k) = k {
                    for _ in 0..cx.range(1, 2) {
                        ksk_fields(cx, k, &f);
                    }
                }
            }
        }
        p.encode_to_vec()
    } else {
        let mut b = rg.to_bytes();
        bytes(cx, &mut b, &rg.to_bytes());
        b
    };
    cx.tr(format!("{} {} bytes {}", f.desc, b.len(), hex(&b)));
    let k = decode(cx, "rgsw", b.len(), need(&f), || RGSWCiphertext::from_bytes(&b, &f.par))?;
    if let Some(k) = k {
        let w = pb::RgswCiphertext::from(&k);
        let mut lv = vec![];
        for x in [&w.ksk0, &w.ksk1] {
            match ksk_valid(x, &f) {
                Ok((a, b)) => lv.extend([a, b]),
                Err(e) => viol!("rgsw:fields", "accepted RGSW ciphertext has {e}; {}", f.desc),
            }
        }
        check!(lv.iter().all(|x| *x == lv[0]), "rgsw:levels", "an RGSW ciphertext with levels {lv:?} was accepted");
        check!(RGSWCiphertext::from_bytes(&k.to_bytes(), &f.par).lib("from_bytes")? == k, "rgsw:round-trip", "accepted RGSW ciphertext does not round-trip");
        let c = random_ct(cx, &f, lv[0], 2)?;
        usable!(cx, "external product", { let _ = (&c * &k, &k * &c); });
    }
    cx.seen(("rgsw", f.id, b));
    Ok(())
}

fn parameters(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 4, max_logn: 6, max_k: 4, ..ANY })?;
    let o = fix(cx, Want { budget: 4, max_logn: 6, max_k: 4, ..ANY })?;
    let valid = f.par.to_bytes();
    let b = if cx.coin(2, 3) {
        let mut p = pb::Parameters::decode(valid.as_slice()).prep("parameters")?;
        for _ in 0..cx.range(1, 2) {
            cx.ev("mutations:fields", 1);
            use pb::parameters::PlaintextModulus as M;
            match cx.u(12) {
                0 => {
                    let d = weird(cx, f.n as u64) as u32;
                    // what is valid but huge is not what this workload is about
                    p.degree = if d.is_power_of_two() && d > 1024 { d + 1 } else { d };
                }
                1 => p.degree = *cx.pick(&[0, 1, 2, 4, 8, 12, 16, 24, 1 << 31]),
                2 => {
                    let i = cx.u(p.moduli.len().max(1));
                    if let Some(m) = p.moduli.get_mut(i) {
                        *m = weird(cx, *m);
                    }
                }
                3 => p.moduli.clear(),
                4 => {
                    let k = p.moduli.len();
                    if k > 0 {
                        let x = p.moduli[cx.u(k)];
                        p.moduli.push(x)
                    }
                }
                5 => p.moduli.extend(&o.q),
                6 => p.variance = weird(cx, f.v as u64) as u32,
                7 => p.variance = cx.range(0, 40) as u32,
                8 => p.plaintext_modulus = None,
                9 => p.plaintext_modulus = Some(M::Plaintext(weird(cx, f.ts.unwrap_or(1 << 20)))),
                10 => {
                    let t = match cx.u(5) {
                        0 => BigUint::zero(),
                        1 => big(1),
                        2 => f.big_q(0).clone(),
                        3 => f.big_q(0) + 1u32,
                        _ => big(weird(cx, 1 << 20)) << cx.u(130),
                    };
                    let mut by = t.to_bytes_le();
                    by.extend(vec![0u8; cx.u(3)]);
                    p.plaintext_modulus = Some(M::PlaintextBig(by))
                }
                _ => p.plaintext_modulus = Some(M::PlaintextBig(vec![0xffu8; *cx.pick(&[0usize, 1, 8, 16, 100, 5000])])),
            }
        }
        p.encode_to_vec()
    } else {
        let mut b = valid.clone();
        bytes(cx, &mut b, &o.par.to_bytes());
        b
    };
    cx.tr(hex(&b));
    // what the decoded fields would need, if they were valid
    let w = pb::Parameters::decode(b.as_slice());
    let mut needed = 0;
    if let Ok(w) = &w {
        let k = w.moduli.len() + 6;
        if w.degree.is_power_of_two() && w.degree <= 65536 {
            needed = w.degree as usize * k * k * 8 * 4 + k * k * k * 64;
            if needed > 1 << 27 {
                return Err(Fail::Skip("valid but large parameters"));
            }
        }
    }
    let Some(p) = decode(cx, "parameters", b.len(), needed, || BfvParameters::try_deserialize(&b))? else {
        cx.seen(("params", b));
        return Ok(());
    };
    let w = w.prep("parameters")?;
    check!(p.degree() == w.degree as usize && p.moduli() == w.moduli, "parameters:fields", "accepted parameters {p:?} from {w:?}");
    check!(p.degree().is_power_of_two() && (8..=65536).contains(&p.degree()), "parameters:degree", "degree {} was accepted", p.degree());
    for (i, q) in p.moduli().iter().enumerate() {
        check!(is_prime(*q) && q % (2 * p.degree() as u64) == 1 && *q < 1 << 62, "parameters:modulus", "modulus {q} was accepted for degree {}", p.degree());
        check!(!p.moduli()[..i].contains(q), "parameters:modulus", "modulus {q} was accepted twice");
    }
    check!(!p.moduli().is_empty(), "parameters:modulus", "no modulus was accepted");
    check!((1..=32).contains(&w.variance), "parameters:variance", "variance {} was accepted", w.variance);
    check!(*p.plaintext_big() >= big(2) && *p.plaintext_big() < prod(p.moduli()), "parameters:plaintext", "plaintext modulus {} was accepted", p.plaintext_big());
    let r = BfvParameters::try_deserialize(&p.to_bytes()).lib("BfvParameters::try_deserialize")?;
    check!(r == p, "parameters:round-trip", "accepted parameters do not round-trip");
    let par = Arc::new(p);
    if par.degree() <= 256 {
        let sk = usable!(cx, "SecretKey::random", SecretKey::random(&par, &mut cx.fork()));
        let pt = usable!(cx, "encode", Plaintext::try_encode(&[1u64], Encoding::poly(), &par));
        use fhe_traits::FheEncoder;
        if let Ok(pt) = pt {
            let ct = usable!(cx, "encrypt", FheEncrypter::<Plaintext, Ciphertext>::try_encrypt(&sk, &pt, &mut cx.fork())).lib("encrypt")?;
            usable!(cx, "decrypt", sk.try_decrypt(&ct)).lib("decrypt")?;
            usable!(cx, "multiply", { let _ = &ct * &ct; });
        }
        usable!(cx, "relinearization key", { let _ = RelinearizationKey::new(&sk, &mut cx.fork()); });
    }
    cx.seen(("params", b));
    Ok(())
}

//! C06: serialization round-trips, for objects with any history.
use super::c10::some_key;
use super::c11::some_pt;
use crate::fixt::*;
use crate::gen_::{rand_ctx, residues};
use crate::mon::*;
use fhe::bfv::traits::TryConvertFrom as BfvTryConvertFrom;
use fhe::bfv::{
    BfvParameters, Ciphertext, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, PublicKey,
    RGSWCiphertext, RelinearizationKey, SecretKey,
};
use fhe::mbfv::{
    Aggregate, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare,
    SecretKeySwitchShare, round::R1Aggregated,
};
use fhe::proto::bfv as pb;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, traits::TryConvertFrom};
use fhe_traits::{Deserialize, DeserializeParametrized, DeserializeWithContext, FheDecrypter, FheEncrypter, Serialize};
use prost::Message;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C06",
        rule: "a case is an object reached through the public API by a random history: polynomials of the three representations (random, extreme, switched, substituted), parameters, keys (fresh, leveled, read back, aggregated from several parties) and ciphertexts taken through a random sequence of in-place and out-of-place operations, with a round trip after every step. The object read back must be equal, equal part by part, behave identically (decryption, encryption with the same generator, relinearization, rotation, external product), and write an encoding that reads back equal; the protobuf-level conversions must agree with the byte-level ones. Distinct = distinct (object kind, context, history); non-trivial = at least one object was read back.",
        workloads: vec![
            Workload { name: "polynomials", weight: 4, max: 0, f: polys },
            Workload { name: "parameters", weight: 1, max: 0, f: params },
            Workload { name: "ciphertexts", weight: 6, max: 0, f: ciphertexts },
            Workload { name: "keys", weight: 5, max: 0, f: keys },
            Workload { name: "multiparty", weight: 2, max: 0, f: multiparty },
            Workload { name: "large", weight: 1, max: 0, f: large },
        ],
        required: vec![
            "polynomials", "parameters", "ct:compressed", "ct:explicit", "ct:mutated-part", "ct:relinearized", "ct:seeded-3-parts", "ct:switched", "ct:product", "ct:from-parties", "ct:truncating-reads",
            "sk", "pk", "pk-explicit", "rk", "rk-explicit", "ek", "rgsw", "lower-levels", "proto-conversions", "big-t", "large", "same-encryptions", "same-relinearizations", "same-rotations", "same-products",
        ],
        finish: None,
    }
}

fn polys(cx: &mut Cx) -> R {
    let (ctx, q, n) = rand_ctx(cx, 8, 7)?;
    let mut rows: Vec<u64> = vec![];
    for &p in &q {
        rows.extend(residues(cx, n, p));
    }
    let mut p = Poly::<PowerBasis>::try_convert_from(rows, &ctx, false).lib("poly")?;
    let mut hist = vec![];
    for _ in 0..cx.u(3) {
        match cx.u(4) {
            0 if p.ctx().moduli().len() > 1 => {
                p.switch_down().lib("switch_down")?;
                hist.push("switched")
            }
            1 => {
                let e = SubstitutionExponent::new(p.ctx(), 2 * cx.u(n) + 1).lib("exponent")?;
                p = p.substitute(&e).lib("substitute")?;
                hist.push("substituted")
            }
            2 => {
                p = -&p;
                hist.push("negated")
            }
            _ => {
                let o = Poly::<PowerBasis>::random(p.ctx(), &mut cx.fork());
                p += &o;
                hist.push("summed")
            }
        }
    }
    let ctx = p.ctx().clone();
    macro_rules! rt {
        ($p:expr, $t:ty, $name:expr) => {{
            let p = $p;
            let b = p.to_bytes();
            let r = <$t>::from_bytes(&b, &ctx).lib("Poly::from_bytes")?;
            check!(r == p && r.coefficients() == p.coefficients() && *r.ctx() == ctx, "poly:round-trip", "{} polynomial over {q:?} n={n} changed by serialization after {hist:?}", $name);
            let again = <$t>::from_bytes(&r.to_bytes(), &ctx).lib("Poly::from_bytes")?;
            check!(again == p, "poly:second-trip", "{} polynomial over {q:?} n={n} changed by a second serialization", $name);
            // the written message says what it is, and decodes alike when
            // written by another encoder
            let rq = RqWire::decode(b.as_slice()).prep("Rq")?;
            check!(rq.degree as usize == n && !rq.allow_variable_time, "poly:wire", "{} polynomial writes degree {} and timing flag {}", $name, rq.degree, rq.allow_variable_time);
            let back = <$t>::from_bytes(&rq.encode_to_vec(), &ctx).lib("Poly::from_bytes")?;
            check!(back == p, "poly:proto", "{} polynomial changed by protobuf conversion", $name);
        }};
    }
    rt!(p.clone(), Poly<PowerBasis>, "power-basis");
    rt!(p.clone().into_ntt(), Poly<Ntt>, "transformed");
    rt!(p.clone().into_ntt_shoup(), Poly<NttShoup>, "precomputed");
    // the meaning is kept: the transformed bytes decode to the same element
    let ntt = Poly::<Ntt>::from_bytes(&p.clone().into_ntt().to_bytes(), &ctx).lib("Poly::from_bytes")?;
    check!(ntt.into_power_basis() == p, "poly:meaning", "transformed polynomial read back is another element");
    cx.ev("polynomials", 3);
    cx.ev("proto-conversions", 3);
    cx.seen(("poly", q, n, hist, p.coefficients().iter().take(4).copied().collect::<Vec<_>>()));
    Ok(())
}

fn same_params(a: &BfvParameters, b: &BfvParameters) -> bool {
    a == b
        && a.degree() == b.degree()
        && a.moduli() == b.moduli()
        && a.moduli_sizes() == b.moduli_sizes()
        && a.plaintext_big() == b.plaintext_big()
        && pb::Parameters::decode(a.to_bytes().as_slice()) == pb::Parameters::decode(b.to_bytes().as_slice())
        && a.max_level() == b.max_level()
}
fn params(cx: &mut Cx) -> R {
    let f = fix(cx, Want { max_logn: 9, ..ANY })?;
    let r = BfvParameters::try_deserialize(&f.par.to_bytes()).lib("BfvParameters::try_deserialize")?;
    check!(same_params(&r, &f.par), "parameters:round-trip", "parameters read back differ: {r:?} from {}", f.desc);
    let r2 = BfvParameters::try_deserialize(&r.to_bytes()).lib("BfvParameters::try_deserialize")?;
    check!(same_params(&r2, &f.par), "parameters:second-trip", "parameters read back twice differ; {}", f.desc);
    // objects move between equal parameter objects
    let r = Arc::new(r);
    let (sk, _) = some_key(cx, &f)?;
    let m = f.rand_msg(cx);
    let ct: Ciphertext = sk.try_encrypt(&f.encode(&m, 0)?, &mut cx.fork()).lib("encrypt")?;
    let sk2 = SecretKey::from_bytes(&sk.to_bytes(), &r).lib("SecretKey::from_bytes")?;
    let ct2 = Ciphertext::from_bytes(&ct.to_bytes(), &r).lib("Ciphertext::from_bytes")?;
    check!(sk2 == sk && ct2 == ct, "parameters:objects", "objects read under parameters read back differ; {}", f.desc);
    if b_sk(&f) < f.threshold(0) {
        check!(f.dec(&sk2, &ct2, 0)? == m, "parameters:objects", "an object read under parameters read back decrypts differently; {}", f.desc);
    }
    cx.ev("parameters", 1);
    cx.seen(("params", f.id));
    Ok(())
}

/// Round-trip a ciphertext and compare.
pub fn trip(cx: &mut Cx, f: &Fix, sk: &SecretKey, ct: &Ciphertext, hist: &[&str]) -> R<Ciphertext> {
    let keep = ct.clone();
    let b = ct.to_bytes();
    check!(keep == *ct, "ct:modified", "serialization changed the ciphertext");
    let r = Ciphertext::from_bytes(&b, &f.par).lib("Ciphertext::from_bytes")?;
    let same = |r: &Ciphertext| r.len() == ct.len() && r.iter().zip(ct.iter()).all(|(a, b)| a == b && a.ctx() == b.ctx());
    check!(same(&r), "ct:parts", "a ciphertext of {} parts at level {} reads back as another one after {hist:?}; {}", ct.len(), lvl(f, ct), f.desc);
    check!(r == *ct, "ct:round-trip", "a ciphertext is not equal to itself read back after {hist:?}; {}", f.desc);
    let r2 = Ciphertext::from_bytes(&r.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?;
    check!(same(&r2) && r2 == *ct, "ct:second-trip", "a ciphertext read back twice differs after {hist:?}; {}", f.desc);
    let p = pb::Ciphertext::from(ct);
    let r3 = Ciphertext::try_convert_from(&p, &f.par).lib("Ciphertext::try_convert_from")?;
    check!(r3 == *ct && same(&r3), "ct:proto", "a ciphertext changed by protobuf conversion after {hist:?}; {}", f.desc);
    cx.ev("proto-conversions", 1);
    cx.ev(if p.seed.is_empty() { "ct:explicit" } else { "ct:compressed" }, 1);
    // (a level whose moduli cannot hold the plaintext modulus refuses decryption)
    let same = match (sk.try_decrypt(ct), sk.try_decrypt(&r)) {
        (Ok(a), Ok(b)) => f.coeffs(&a)? == f.coeffs(&b)?,
        (a, b) => a.is_err() && b.is_err() && f.deepest(1).is_none_or(|d| lvl(f, ct) > d),
    };
    check!(same, "ct:decryption", "a ciphertext read back decrypts differently after {hist:?}; {}", f.desc);
    if lvl(f, ct) > 0 {
        cx.ev("lower-levels", 1);
    }
    if f.ts.is_none() {
        cx.ev("big-t", 1);
    }
    Ok(r)
}

fn fresh(cx: &mut Cx, f: &Fix, sk: &SecretKey, pk: &PublicKey, level: usize) -> R<(Ciphertext, &'static str)> {
    let (pt, _) = some_pt(cx, f, level, sk)?;
    Ok(match cx.u(5) {
        0 | 1 => (sk.try_encrypt(&pt, &mut cx.fork()).lib("sk.try_encrypt")?, "secret-key"),
        2 => (pk.try_encrypt(&pt, &mut cx.fork()).lib("pk.try_encrypt")?, "public-key"),
        3 => {
            // three parts of which the last is given by its seed
            let ctx = f.ctx(level)?;
            let mut rng = cx.fork();
            let mut p = pb::Ciphertext { level: level as u32, ..Default::default() };
            for _ in 0..2 {
                p.c.push(Poly::<Ntt>::random(&ctx, &mut rng).to_bytes());
            }
            let mut s = [0u8; 32];
            rng.fill_bytes(&mut s);
            p.seed = s.to_vec();
            cx.ev("ct:seeded-3-parts", 1);
            let ct = Ciphertext::from_bytes(&p.encode_to_vec(), &f.par).lib("Ciphertext::from_bytes")?;
            check!(ct.len() == 3 && ct[2] == Poly::<Ntt>::random_from_seed(&ctx, s), "ct:seed", "the seeded part read back is not the expansion of its seed");
            (ct, "seeded-3-parts")
        }
        _ => {
            let ctx = f.ctx(level)?;
            let mut rng = cx.fork();
            let k = cx.range(2, 5);
            (Ciphertext::new((0..k).map(|_| Poly::<Ntt>::random(&ctx, &mut rng)).collect(), &f.par).lib("Ciphertext::new")?, "from-parts")
        }
    })
}

fn ciphertexts(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 12, max_logn: 5, ..ANY })?;
    let level = f.level(cx, 6)?;
    let (sk, _) = some_key(cx, &f)?;
    let pk = PublicKey::new(&sk, &mut cx.fork());
    let (mut ct, origin) = fresh(cx, &f, &sk, &pk, level)?;
    let mut hist = vec![origin];
    ct = if cx.coin(1, 2) { trip(cx, &f, &sk, &ct, &hist)? } else {
        trip(cx, &f, &sk, &ct, &hist)?;
        ct
    };
    for step in 0..cx.range(2, 9) {
        let l = lvl(&f, &ct);
        let ctx = f.ctx(l)?;
        let other = |cx: &mut Cx, k: usize| -> R<Ciphertext> {
            let mut rng = cx.fork();
            Ciphertext::new((0..k).map(|_| Poly::<Ntt>::random(&ctx, &mut rng)).collect(), &f.par).lib("Ciphertext::new")
        };
        let op = if step == 0 && ct.len() == 3 && cx.coin(1, 2) { 9 } else { cx.u(12) };
        let name = match op {
            0 => {
                let i = cx.u(ct.len());
                ct[i] = Poly::<Ntt>::random(&ctx, &mut cx.fork());
                cx.ev("ct:mutated-part", 1);
                "assign-part"
            }
            1 => {
                let i = cx.u(ct.len());
                let o = Poly::<Ntt>::random(&ctx, &mut cx.fork());
                ct[i] += &o;
                cx.ev("ct:mutated-part", 1);
                "add-to-part"
            }
            2 => {
                ct.reverse();
                cx.ev("ct:mutated-part", 1);
                "reverse-parts"
            }
            3 => {
                let k = ct.len();
                let o = other(cx, k)?;
                if cx.coin(1, 2) {
                    ct += &o;
                } else {
                    ct -= &o;
                }
                "add-assign"
            }
            4 => {
                ct = -&ct;
                "negate"
            }
            5 if Some(l) <= f.deepest(2) => {
                let (pt, _) = some_pt(cx, &f, l, &sk)?;
                match cx.u(3) {
                    0 => ct += &pt,
                    1 => ct -= &pt,
                    _ => ct *= &pt,
                }
                "plaintext-assign"
            }
            6 if ct.len() <= 3 => {
                let o = other(cx, 2)?;
                ct = &ct * &o;
                cx.ev("ct:product", 1);
                "product"
            }
            7 if l < f.max_level() => {
                ct.switch_down().lib("switch_down")?;
                cx.ev("ct:switched", 1);
                "switch-down"
            }
            8 => {
                let t = cx.range(l, f.max_level());
                ct.switch_to_level(t).lib("switch_to_level")?;
                "switch-to-level"
            }
            9 if ct.len() == 3 && l < f.max_level() => {
                let rk = RelinearizationKey::new_leveled(&sk, l, cx.range(0, l), &mut cx.fork()).lib("RelinearizationKey::new_leveled")?;
                rk.relinearizes(&mut ct).lib("relinearizes")?;
                cx.ev("ct:relinearized", 1);
                "relinearize"
            }
            10 if ct.len() == 2 => {
                let p: Poly<Ntt> = ct[1].clone();
                ct.swap(0, 1);
                ct[1] = p;
                cx.ev("ct:mutated-part", 1);
                "swap-parts"
            }
            _ => {
                // only reads through the parts: nothing may change
                let n = ct.iter().map(|p| p.coefficients().ncols()).sum::<usize>();
                check!(n == f.n * ct.len(), "ct:shape", "degree sum {n}");
                cx.ev("ct:truncating-reads", 1);
                "read"
            }
        };
        hist.push(name);
        cx.tr(name.into());
        let r = trip(cx, &f, &sk, &ct, &hist)?;
        if cx.coin(1, 3) {
            ct = r;
            hist.push("read-back");
        }
    }
    cx.sample(|| format!("{hist:?} {}", f.desc));
    cx.seen(("ct", f.id, hist));
    Ok(())
}

fn same_rng(cx: &mut Cx) -> impl Fn() -> ChaCha8Rng + use<> {
    let s = cx.u64();
    move || ChaCha8Rng::seed_from_u64(s)
}

pub fn trip_pk(cx: &mut Cx, f: &Fix, sk: &SecretKey, pk: &PublicKey, what: &str) -> R<PublicKey> {
    let r = PublicKey::from_bytes(&pk.to_bytes(), &f.par).lib("PublicKey::from_bytes")?;
    check!(r == *pk, "pk:round-trip", "a {what} public key changed by serialization; {}", f.desc);
    let r2 = PublicKey::from_bytes(&r.to_bytes(), &f.par).lib("PublicKey::from_bytes")?;
    check!(r2 == *pk, "pk:second-trip", "a {what} public key changed by a second serialization; {}", f.desc);
    let p = pb::PublicKey::decode(pk.to_bytes().as_slice()).prep("public key bytes")?;
    if p.c.as_ref().is_some_and(|c| c.seed.is_empty()) {
        cx.ev("pk-explicit", 1);
    }
    let level = f.level(cx, 2)?;
    let m = f.rand_msg(cx);
    let pt = f.encode(&m, level)?;
    let g = same_rng(cx);
    let a: Ciphertext = pk.try_encrypt(&pt, &mut g()).lib("pk.try_encrypt")?;
    let b: Ciphertext = r.try_encrypt(&pt, &mut g()).lib("pk.try_encrypt")?;
    check!(a == b, "pk:encryption", "a {what} public key read back encrypts differently; {}", f.desc);
    let _ = sk;
    cx.ev("same-encryptions", 1);
    cx.ev("pk", 1);
    Ok(r)
}
pub fn trip_rk(cx: &mut Cx, f: &Fix, rk: &RelinearizationKey, level: usize, what: &str) -> R<RelinearizationKey> {
    let r = RelinearizationKey::from_bytes(&rk.to_bytes(), &f.par).lib("RelinearizationKey::from_bytes")?;
    check!(r == *rk, "rk:round-trip", "a {what} relinearization key changed by serialization; {}", f.desc);
    let r2 = RelinearizationKey::from_bytes(&r.to_bytes(), &f.par).lib("RelinearizationKey::from_bytes")?;
    check!(r2 == *rk, "rk:second-trip", "a {what} relinearization key changed by a second serialization; {}", f.desc);
    let p = pb::RelinearizationKey::decode(rk.to_bytes().as_slice()).prep("rk bytes")?;
    let r3 = RelinearizationKey::try_convert_from(&p, &f.par).lib("RelinearizationKey::try_convert_from")?;
    check!(r3 == *rk && pb::RelinearizationKey::from(rk) == p, "rk:proto", "a {what} relinearization key changed by protobuf conversion; {}", f.desc);
    if p.ksk.is_some_and(|k| k.seed.is_empty()) {
        cx.ev("rk-explicit", 1);
    }
    let ctx = f.ctx(level)?;
    let mut rng = cx.fork();
    let ct = Ciphertext::new((0..3).map(|_| Poly::<Ntt>::random(&ctx, &mut rng)).collect(), &f.par).lib("Ciphertext::new")?;
    let (mut a, mut b) = (ct.clone(), ct);
    rk.relinearizes(&mut a).lib("relinearizes")?;
    r.relinearizes(&mut b).lib("relinearizes")?;
    check!(a == b, "rk:relinearization", "a {what} relinearization key read back relinearizes differently; {}", f.desc);
    cx.ev("same-relinearizations", 1);
    cx.ev("rk", 1);
    if level > 0 {
        cx.ev("lower-levels", 1);
    }
    Ok(r)
}

fn keys(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 12, max_logn: 6, ..ANY })?;
    let f = &f;
    let (sk, s) = some_key(cx, f)?;
    let kind = cx.u(5);
    let random2 = |cx: &mut Cx, level: usize| -> R<Ciphertext> {
        let ctx = f.ctx(level)?;
        let mut rng = cx.fork();
        Ciphertext::new((0..2).map(|_| Poly::<Ntt>::random(&ctx, &mut rng)).collect(), &f.par).lib("Ciphertext::new")
    };
    match kind {
        0 => {
            let r = SecretKey::from_bytes(&sk.to_bytes(), &f.par).lib("SecretKey::from_bytes")?;
            check!(r == sk && secret(&r)? == s, "sk:round-trip", "a secret key changed by serialization; {}", f.desc);
            let r2 = SecretKey::from_bytes(&r.to_bytes(), &f.par).lib("SecretKey::from_bytes")?;
            check!(r2 == sk, "sk:second-trip", "a secret key changed by a second serialization; {}", f.desc);
            let l = cx.range(0, f.max_level());
            let ct = random2(cx, l)?;
            let same = match (sk.try_decrypt(&ct), r.try_decrypt(&ct)) {
                (Ok(a), Ok(b)) => f.coeffs(&a)? == f.coeffs(&b)?,
                (a, b) => a.is_err() && b.is_err() && f.deepest(1).is_none_or(|d| l > d),
            };
            check!(same, "sk:decryption", "a secret key read back decrypts differently; {}", f.desc);
            cx.ev("sk", 1);
        }
        1 => {
            let pk = PublicKey::new(&sk, &mut cx.fork());
            trip_pk(cx, f, &sk, &pk, "fresh")?;
        }
        2 => {
            if f.max_level() == 0 {
                return Err(Fail::Skip("one modulus"));
            }
            let l = cx.range(0, f.max_level());
            let kl = cx.range(0, l.min(f.max_level() - 1));
            let rk = RelinearizationKey::new_leveled(&sk, l, kl, &mut cx.fork()).lib("RelinearizationKey::new_leveled")?;
            let r = trip_rk(cx, f, &rk, l, "fresh")?;
            if l == kl {
                // multiplication with the key read back
                let (x, y) = (random2(cx, l)?, random2(cx, l)?);
                let a = Multiplicator::default(&rk).lib("Multiplicator::default")?.multiply(&x, &y).lib("multiply")?;
                let b = Multiplicator::default(&r).lib("Multiplicator::default")?.multiply(&x, &y).lib("multiply")?;
                check!(a == b, "rk:multiplication", "a relinearization key read back multiplies differently; {}", f.desc);
            }
        }
        3 => {
            let l = cx.range(0, f.max_level());
            let kl = cx.range(0, l);
            let mut b = EvaluationKeyBuilder::new_leveled(&sk, l, kl).lib("EvaluationKeyBuilder")?;
            let rot: Vec<usize> = (0..cx.u(3)).map(|_| cx.range(1, f.n / 2 - 1)).collect();
            for r in &rot {
                b.enable_column_rotation(*r).lib("enable_column_rotation")?;
            }
            let row = cx.coin(1, 2);
            if row {
                b.enable_row_rotation().lib("enable_row_rotation")?;
            }
            let inner = cx.coin(1, 3);
            if inner {
                b.enable_inner_sum().lib("enable_inner_sum")?;
            }
            let exp = cx.u(f.n.ilog2() as usize + 1);
            b.enable_expansion(exp).lib("enable_expansion")?;
            let ek = b.build(&mut cx.fork()).lib("build")?;
            let r = EvaluationKey::from_bytes(&ek.to_bytes(), &f.par).lib("EvaluationKey::from_bytes")?;
            check!(r == ek, "ek:round-trip", "an evaluation key changed by serialization; {}", f.desc);
            let r2 = EvaluationKey::from_bytes(&r.to_bytes(), &f.par).lib("EvaluationKey::from_bytes")?;
            check!(r2 == ek, "ek:second-trip", "an evaluation key changed by a second serialization; {}", f.desc);
            let p = pb::EvaluationKey::decode(ek.to_bytes().as_slice()).prep("ek bytes")?;
            let r3 = EvaluationKey::try_convert_from(&p, &f.par).lib("EvaluationKey::try_convert_from")?;
            check!(r3 == ek, "ek:proto", "an evaluation key changed by protobuf conversion; {}", f.desc);
            let ct = random2(cx, l)?;
            for i in 1..f.n / 2 {
                check!(ek.supports_column_rotation_by(i) == r.supports_column_rotation_by(i), "ek:support", "support of rotation {i} differs");
            }
            for i in &rot {
                let (x, y) = (ek.rotates_columns_by(&ct, *i).lib("rotates")?, r.rotates_columns_by(&ct, *i).lib("rotates")?);
                check!(x == y, "ek:rotation", "an evaluation key read back rotates differently; {}", f.desc);
                cx.ev("same-rotations", 1);
            }
            check!(ek.supports_row_rotation() == r.supports_row_rotation() && ek.supports_inner_sum() == r.supports_inner_sum(), "ek:support", "supported operations differ");
            if row {
                check!(ek.rotates_rows(&ct).lib("rotates_rows")? == r.rotates_rows(&ct).lib("rotates_rows")?, "ek:rotation", "row rotation differs");
            }
            if inner {
                check!(ek.computes_inner_sum(&ct).lib("inner_sum")? == r.computes_inner_sum(&ct).lib("inner_sum")?, "ek:rotation", "inner sum differs");
            }
            let size = 1usize << exp;
            let (x, y) = (ek.expands(&ct, size).lib("expands")?, r.expands(&ct, size).lib("expands")?);
            check!(x == y, "ek:expansion", "an evaluation key read back expands differently; {}", f.desc);
            cx.ev("ek", 1);
            if l > 0 {
                cx.ev("lower-levels", 1);
            }
        }
        _ => {
            let l = f.level(cx, 2)?;
            let (pt, _) = some_pt(cx, f, l, &sk)?;
            let rg: RGSWCiphertext = sk.try_encrypt(&pt, &mut cx.fork()).lib("rgsw")?;
            let r = RGSWCiphertext::from_bytes(&rg.to_bytes(), &f.par).lib("RGSWCiphertext::from_bytes")?;
            check!(r == rg, "rgsw:round-trip", "an RGSW ciphertext changed by serialization; {}", f.desc);
            let r2 = RGSWCiphertext::from_bytes(&r.to_bytes(), &f.par).lib("RGSWCiphertext::from_bytes")?;
            check!(r2 == rg, "rgsw:second-trip", "an RGSW ciphertext changed by a second serialization; {}", f.desc);
            let p = pb::RgswCiphertext::from(&rg);
            let r3 = RGSWCiphertext::try_convert_from(&p, &f.par).lib("RGSWCiphertext::try_convert_from")?;
            check!(r3 == rg, "rgsw:proto", "an RGSW ciphertext changed by protobuf conversion; {}", f.desc);
            let ct = random2(cx, l)?;
            check!(&ct * &rg == &ct * &r && &rg * &ct == &r * &ct, "rgsw:product", "an RGSW ciphertext read back multiplies differently; {}", f.desc);
            cx.ev("same-products", 1);
            cx.ev("rgsw", 1);
        }
    }
    cx.seen(("keys", f.id, kind, cx.idx));
    Ok(())
}

fn multiparty(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 20, max_logn: 5, ..ANY })?;
    let f = &f;
    let k = cx.range(1, 4);
    let sks: Vec<SecretKey> = (0..k).map(|_| some_key(cx, f).map(|x| x.0)).collect::<R<_>>()?;
    let crp = CommonRandomPoly::new(&f.par, &mut cx.fork()).lib("CommonRandomPoly::new")?;
    let mut shares = vec![];
    for s in &sks {
        shares.push(PublicKeyShare::new(s, crp.clone(), &mut cx.fork()).lib("PublicKeyShare::new")?);
    }
    let pk = PublicKey::from_shares(shares).lib("PublicKey::from_shares")?;
    trip_pk(cx, f, &sks[0], &pk, "aggregated")?;
    let level = f.level(cx, 4)?;
    let m = f.rand_msg(cx);
    let ct: Ciphertext = pk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("pk.try_encrypt")?;
    let ct = trip(cx, f, &sks[0], &ct, &["aggregated-public-key"])?;
    let a = Arc::new(ct.clone());
    let out: Vec<SecretKey> = (0..k).map(|_| some_key(cx, f).map(|x| x.0)).collect::<R<_>>()?;
    let mut sh = vec![];
    for (i, o) in sks.iter().zip(&out) {
        sh.push(SecretKeySwitchShare::new(i, o, a.clone(), &mut cx.fork()).lib("SecretKeySwitchShare::new")?);
    }
    let sw = Ciphertext::from_shares(sh).lib("Ciphertext::from_shares")?;
    trip(cx, f, &out[0], &sw, &["key-switched"])?;
    // the input may be compressed as well
    let fresh: Ciphertext = sks[0].try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("encrypt")?;
    let sh = vec![SecretKeySwitchShare::new(&sks[0], &out[0], Arc::new(fresh.clone()), &mut cx.fork()).lib("SecretKeySwitchShare::new")?];
    let sw = Ciphertext::from_shares(sh).lib("Ciphertext::from_shares")?;
    trip(cx, f, &out[0], &sw, &["compressed", "key-switched"])?;
    let opk = PublicKey::new(&out[0], &mut cx.fork());
    let sh = vec![PublicKeySwitchShare::new(&sks[0], &opk, &fresh, &mut cx.fork()).lib("PublicKeySwitchShare::new")?];
    let sw = Ciphertext::from_shares(sh).lib("Ciphertext::from_shares")?;
    trip(cx, f, &out[0], &sw, &["compressed", "public-key-switched"])?;
    trip_pk(cx, f, &out[0], &opk, "used")?;
    cx.ev("ct:from-parties", 3);
    // a plaintext decrypted by parties can be encrypted and read back
    let ds: Vec<_> = sks.iter().map(|s| DecryptionShare::new(s, &a, &mut cx.fork())).collect();
    let pt = Plaintext::from_shares(ds).lib("Plaintext::from_shares")?;
    let again: Ciphertext = sks[0].try_encrypt(&pt, &mut cx.fork()).lib("re-encrypt")?;
    trip(cx, f, &sks[0], &again, &["re-encrypted"])?;
    if f.q.len() > 1 && cx.coin(1, 2) {
        let crps = CommonRandomPoly::new_vec(&f.par, &mut cx.fork()).lib("new_vec")?;
        let mut rngs: Vec<ChaCha8Rng> = (0..k).map(|_| cx.fork()).collect();
        let mut gens = vec![];
        for (s, r) in sks.iter().zip(rngs.iter_mut()) {
            gens.push(RelinKeyGenerator::new(s, &crps, r).lib("RelinKeyGenerator::new")?);
        }
        let r1: Vec<_> = gens.iter().map(|g| g.round_1(&mut cx.fork())).collect();
        let r1 = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares(r1).lib("r1")?);
        let r2: Vec<_> = gens.iter().map(|g| g.round_2(&r1, &mut cx.fork())).collect();
        let rk = RelinearizationKey::from_shares(r2).lib("RelinearizationKey::from_shares")?;
        trip_rk(cx, f, &rk, 0, "aggregated")?;
    }
    cx.seen(("mbfv", f.id, k, cx.idx));
    Ok(())
}

fn large(cx: &mut Cx) -> R {
    let n = *cx.pick(&[1024usize, 2048, 4096, 8192]);
    let Some(par) = BfvParameters::default_parameters_128(20).lib("default_parameters_128")?.find(|p| p.degree() == n) else { return Err(Fail::Skip("no default set")) };
    let f = build(usize::MAX, n, par.moduli(), &par.plaintext_big().clone(), 10)?;
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let pk = PublicKey::new(&sk, &mut cx.fork());
    trip_pk(cx, &f, &sk, &pk, "fresh")?;
    let m = f.rand_msg(cx);
    let mut ct: Ciphertext = sk.try_encrypt(&f.encode(&m, 0)?, &mut cx.fork()).lib("encrypt")?;
    trip(cx, &f, &sk, &ct, &["fresh"])?;
    let o = Poly::<Ntt>::random(ct[1].ctx(), &mut cx.fork());
    ct[1] += &o;
    trip(cx, &f, &sk, &ct, &["fresh", "add-to-part"])?;
    ct.switch_to_level(f.max_level()).lib("switch_to_level")?;
    trip(cx, &f, &sk, &ct, &["fresh", "add-to-part", "switched"])?;
    let r = SecretKey::from_bytes(&sk.to_bytes(), &f.par).lib("SecretKey::from_bytes")?;
    check!(r == sk, "sk:round-trip", "a secret key changed by serialization; {}", f.desc);
    if f.max_level() > 0 {
        let rk = RelinearizationKey::new(&sk, &mut cx.fork()).lib("RelinearizationKey::new")?;
        trip_rk(cx, &f, &rk, 0, "large")?;
    }
    cx.ev("large", 1);
    cx.seen(("large", n, cx.idx));
    Ok(())
}

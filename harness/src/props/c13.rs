//! C13: rotations, inner sums and oblivious expansion.
use super::c10::{judge, some_key};
use crate::fixt::*;
use crate::gen_::primes;
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Plaintext, PublicKey, SecretKey};
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::Zero;
use std::collections::BTreeSet;

pub fn property() -> Property {
    Property {
        id: "C13",
        rule: "a case is a parameter set, a ciphertext level and key level, an evaluation key built with a random subset of operations (possibly read back from its bytes) and a ciphertext (fresh or with chosen noise); every operation the key should support is performed and compared with the corresponding substitution, sum or spreading of message coefficients (and slots where batching exists), with the noise recomputed by schoolbook arithmetic against the key-switching bound; every other operation must be reported unsupported and refused. Distinct = distinct (parameters, levels, enabled operations, message); non-trivial = at least one operation was judged.",
        workloads: vec![
            Workload { name: "rotate", weight: 5, max: 0, f: rotate },
            Workload { name: "inner-sum", weight: 3, max: 0, f: inner },
            Workload { name: "expand", weight: 4, max: 0, f: expand },
            Workload { name: "support", weight: 4, max: 0, f: support },
            Workload { name: "sequence", weight: 2, max: 0, f: sequence },
            Workload { name: "large", weight: 1, max: 0, f: large },
        ],
        required: vec![
            "column-rotations", "row-rotations", "inner-sums", "expansions", "expanded-partially", "slots-compared", "supported-reported", "unsupported-refused",
            "keys-from-bytes", "lower-levels", "key-above-ciphertext", "single-modulus-key", "big-t", "large-operations", "sequences",
        ],
        finish: None,
    }
}

struct Sc {
    f: std::sync::Arc<Fix>,
    sk: SecretKey,
    s: Vec<i64>,
    level: usize,
    kl: usize,
    ks: BigInt,
}
fn scene(cx: &mut Cx, w: Want, room: u64) -> R<Sc> {
    let f = fix(cx, w)?;
    let (sk, s) = some_key(cx, &f)?;
    let level = f.level(cx, room)?;
    let kl = if cx.coin(1, 2) { level } else { cx.range(0, level) };
    let ks = b_ks(&f, &s, level, kl);
    Ok(Sc { f, sk, s, level, kl, ks })
}
fn builder(cx: &mut Cx, c: &Sc) -> R<EvaluationKeyBuilder> {
    if c.level == 0 && c.kl == 0 && cx.coin(1, 2) {
        EvaluationKeyBuilder::new(&c.sk).lib("EvaluationKeyBuilder::new")
    } else {
        EvaluationKeyBuilder::new_leveled(&c.sk, c.level, c.kl).lib("EvaluationKeyBuilder::new_leveled")
    }
}
fn finish(cx: &mut Cx, c: &Sc, mut b: EvaluationKeyBuilder) -> R<EvaluationKey> {
    let ek = b.build(&mut cx.fork()).lib("EvaluationKeyBuilder::build")?;
    if c.kl < c.level {
        cx.ev("key-above-ciphertext", 1);
    }
    if c.kl == c.f.max_level() {
        cx.ev("single-modulus-key", 1);
    }
    if cx.coin(1, 3) {
        let r = EvaluationKey::from_bytes(&ek.to_bytes(), &c.f.par).lib("EvaluationKey::from_bytes")?;
        check!(r == ek, "ek:round-trip", "an evaluation key changed by serialization; {}", c.f.desc);
        cx.ev("keys-from-bytes", 1);
        return Ok(r);
    }
    Ok(ek)
}
struct Op {
    ct: Ciphertext,
    m: Vec<BigUint>,
    e: BigInt,
}
fn operand(cx: &mut Cx, c: &Sc, room: &BigInt) -> R<Op> {
    let f = &c.f;
    let m = f.rand_msg(cx);
    let ct: Ciphertext = match cx.u(3) {
        0 => c.sk.try_encrypt(&f.encode(&m, c.level)?, &mut cx.fork()).lib("sk.try_encrypt")?,
        1 => PublicKey::new(&c.sk, &mut cx.fork()).try_encrypt(&f.encode(&m, c.level)?, &mut cx.fork()).lib("pk.try_encrypt")?,
        _ => {
            let r = if *room > BigInt::zero() { rnd_i(cx, room) } else { BigInt::zero() };
            let ph: Vec<BigInt> = f.scaled(&m, c.level).into_iter().map(|x| x + &r).collect();
            craft(cx, f, c.level, &c.s, 2, &ph)?
        }
    };
    let ph = phase(&ct, &c.s, &f.crt[c.level]);
    let e = f.noise_inf(&ph, &m, c.level);
    Ok(Op { ct, m, e })
}
fn want() -> Want {
    Want { budget: 24, max_k: 4, max_logn: 6, ..ANY }
}
/// The slots of an operand (the slot layout itself is judged by C09).
fn slots(cx: &mut Cx, c: &Sc, a: &Op) -> R<Option<Vec<u64>>> {
    if !c.f.simd || a.e > c.f.threshold(c.level) {
        return Ok(None);
    }
    cx.ev("slots-compared", c.f.n as u64);
    Ok(Some(decoded(&c.f, &c.sk, &a.ct)?))
}
fn decoded(f: &Fix, sk: &SecretKey, ct: &Ciphertext) -> R<Vec<u64>> {
    Vec::<u64>::try_decode(&sk.try_decrypt(ct).lib("decrypt")?, Encoding::simd_at_level(lvl(f, ct))).lib("decode-simd")
}
fn judged(cx: &mut Cx, c: &Sc, ct: &Ciphertext, m: &[BigUint], bound: &BigInt, what: &str) -> R {
    let f = &c.f;
    check!(ct.len() == 2 && lvl(f, ct) == c.level, format!("{what}:shape"), "{what}: {} parts at level {} instead of {}", ct.len(), lvl(f, ct), c.level);
    let j = judge(cx, f, &c.sk, &c.s, ct, m, c.level, what)?;
    check!(j.noise <= *bound, format!("noise:{what}"), "noise {} after {what} exceeds {bound}; level {} key level {}; {}", j.noise, c.level, c.kl, f.desc);
    Ok(())
}

fn rotate(cx: &mut Cx) -> R {
    let c = scene(cx, want(), 20)?;
    let f = c.f.clone();
    let n = f.n;
    let mut b = builder(cx, &c)?;
    let steps: Vec<usize> = (0..cx.range(1, 3)).map(|_| cx.range(1, n / 2 - 1)).collect();
    for i in &steps {
        b.enable_column_rotation(*i).lib("enable_column_rotation")?;
    }
    b.enable_row_rotation().lib("enable_row_rotation")?;
    let ek = finish(cx, &c, b)?;
    let a = operand(cx, &c, &(f.threshold(c.level) - &c.ks - 4))?;
    let keep = a.ct.clone();
    let bound = &a.e + &c.ks + 3;
    let sl = slots(cx, &c, &a)?;
    for i in steps.iter().copied() {
        let e = {
            let mut e = 1usize;
            for _ in 0..i {
                e = e * 3 % (2 * n);
            }
            e
        };
        let r = ek.rotates_columns_by(&a.ct, i).lib("rotates_columns_by")?;
        judged(cx, &c, &r, &f.msubst(&a.m, e), &bound, "column rotation")?;
        if let Some(sl) = &sl
            && bound <= f.threshold(c.level)
        {
            let h = n / 2;
            let want: Vec<u64> = (0..n).map(|j| if j < h { sl[(j + i) % h] } else { sl[h + (j - h + i) % h] }).collect();
            check!(decoded(&f, &c.sk, &r)? == want, "rotation:slots", "rotation by {i} moves the slots wrongly; {}", f.desc);
        }
        cx.ev("column-rotations", 1);
    }
    let r = ek.rotates_rows(&a.ct).lib("rotates_rows")?;
    judged(cx, &c, &r, &f.msubst(&a.m, 2 * n - 1), &bound, "row rotation")?;
    if let Some(sl) = &sl
        && bound <= f.threshold(c.level)
    {
        let want: Vec<u64> = (0..n).map(|j| sl[(j + n / 2) % n]).collect();
        check!(decoded(&f, &c.sk, &r)? == want, "rotation:rows", "the row rotation does not swap the rows; {}", f.desc);
    }
    cx.ev("row-rotations", 1);
    check!(a.ct == keep, "operand-modified", "a rotation changed its operand");
    cx.seen((f.id, f.q.clone(), c.level, c.kl, steps, a.m));
    Ok(())
}

fn inner(cx: &mut Cx) -> R {
    let c = scene(cx, want(), 24)?;
    let f = c.f.clone();
    let n = f.n;
    let mut b = builder(cx, &c)?;
    b.enable_inner_sum().lib("enable_inner_sum")?;
    let ek = finish(cx, &c, b)?;
    let a = operand(cx, &c, &((f.threshold(c.level) - &c.ks * n) / n - 8))?;
    let keep = a.ct.clone();
    let (mut m, mut e, mut i, mut g) = (a.m.clone(), a.e.clone(), 1, 3usize);
    while i < n / 2 {
        m = f.madd(&m, &f.msubst(&m, g));
        e = &e * 2 + &c.ks + 6;
        i *= 2;
        g = g * g % (2 * n);
    }
    m = f.madd(&m, &f.msubst(&m, 2 * n - 1));
    e = &e * 2 + &c.ks + 6;
    check!(m[1..].iter().all(|x| x.is_zero()), "harness", "the model sum is not constant");
    let r = ek.computes_inner_sum(&a.ct).lib("computes_inner_sum")?;
    judged(cx, &c, &r, &m, &e, "inner sum")?;
    if let Some(sl) = slots(cx, &c, &a)?
        && e <= f.threshold(c.level)
    {
        let t = f.ts.unwrap();
        let sum = sl.iter().fold(0, |x, y| addmod(x, *y, t));
        check!(decoded(&f, &c.sk, &r)? == vec![sum; n], "inner-sum:slots", "the inner sum of slots is wrong; {}", f.desc);
    }
    check!(a.ct == keep, "operand-modified", "the inner sum changed its operand");
    cx.ev("inner-sums", 1);
    cx.seen((f.id, f.q.clone(), c.level, c.kl, a.m));
    Ok(())
}

fn expand(cx: &mut Cx) -> R {
    let c = scene(cx, Want { max_logn: 5, ..want() }, 24)?;
    let f = c.f.clone();
    let n = f.n;
    let lg = n.ilog2() as usize;
    let el = cx.range(0, lg);
    let mut b = builder(cx, &c)?;
    b.enable_expansion(el).lib("enable_expansion")?;
    let ek = finish(cx, &c, b)?;
    let size = match cx.u(3) {
        0 => 1 << el,
        1 => cx.range(1, 1 << el),
        _ => ((1usize << el) / 2 + 1).min(1 << el),
    };
    let l = size.next_power_of_two().ilog2() as usize;
    let mut a = operand(cx, &c, &((f.threshold(c.level) - (&c.ks << l)) / BigInt::from(1u64 << l) - 8))?;
    if cx.coin(1, 2) {
        // the documented use: `size` coefficients
        for x in a.m.iter_mut().skip(size) {
            *x = BigUint::zero();
        }
        a.ct = c.sk.try_encrypt(&f.encode(&a.m, c.level)?, &mut cx.fork()).lib("encrypt")?;
        a.e = b_sk(&f);
    }
    let keep = a.ct.clone();
    let mut e = a.e.clone();
    for _ in 0..l {
        e = &e * 2 + &c.ks + 6;
    }
    let out = ek.expands(&a.ct, size).lib("expands")?;
    check!(out.len() == size, "expansion:count", "{} ciphertexts instead of {size}", out.len());
    for (i, r) in out.iter().enumerate() {
        let mut m = vec![BigUint::zero(); n];
        let mut j = i;
        while j < n {
            m[j - i] = (&a.m[j] << l) % &f.t;
            j += 1 << l;
        }
        judged(cx, &c, r, &m, &e, &format!("expansion to {size}, output {i}"))?;
    }
    check!(a.ct == keep, "operand-modified", "the expansion changed its operand");
    cx.ev("expansions", 1);
    if size < (1 << l) {
        cx.ev("expanded-partially", 1);
    }
    cx.sample(|| format!("expansion of {} to {size} at level {} key level {}", f.desc, c.level, c.kl));
    cx.seen((f.id, f.q.clone(), c.level, c.kl, size, a.m));
    Ok(())
}

/// What a key reports is what it was built for and what it does.
fn support(cx: &mut Cx) -> R {
    let c = scene(cx, Want { max_logn: 4, ..want() }, 8)?;
    let f = c.f.clone();
    let n = f.n;
    let lg = n.ilog2() as usize;
    let pow3 = |i: usize| (0..i).fold(1usize, |e, _| e * 3 % (2 * n));
    let mut s: BTreeSet<usize> = BTreeSet::new();
    let mut b = builder(cx, &c)?;
    let mut what = vec![];
    for _ in 0..cx.range(0, 3) {
        let i = cx.range(1, n / 2 - 1);
        b.enable_column_rotation(i).lib("enable_column_rotation")?;
        s.insert(pow3(i));
        what.push(format!("col{i}"));
    }
    if cx.coin(1, 3) {
        b.enable_row_rotation().lib("enable_row_rotation")?;
        s.insert(2 * n - 1);
        what.push("row".into());
    }
    if cx.coin(1, 3) {
        b.enable_inner_sum().lib("enable_inner_sum")?;
        s.insert(2 * n - 1);
        let mut i = 1;
        while i < n / 2 {
            s.insert(pow3(i));
            i *= 2;
        }
        what.push("sum".into());
    }
    if cx.coin(1, 2) {
        let l = cx.range(0, lg);
        b.enable_expansion(l).lib("enable_expansion")?;
        for j in 0..l {
            s.insert((n >> j) + 1);
        }
        what.push(format!("exp{l}"));
    }
    for bad in [0, n / 2, n / 2 + 1, 2 * n, usize::MAX] {
        check!(no_panic("enable_column_rotation", || b.enable_column_rotation(bad).is_err())?, "bad-rotation-accepted", "rotation by {bad} enabled at degree {n}");
    }
    for bad in [lg + 1, lg + 7, usize::MAX] {
        check!(no_panic("enable_expansion", || b.enable_expansion(bad).is_err())?, "bad-expansion-accepted", "expansion level {bad} enabled at degree {n}");
    }
    let ek = b.build(&mut cx.fork()).lib("build")?;
    let ek2 = EvaluationKey::from_bytes(&ek.to_bytes(), &f.par).lib("EvaluationKey::from_bytes")?;
    check!(ek == ek2, "ek:round-trip", "an evaluation key changed by serialization; {}", f.desc);
    cx.ev("keys-from-bytes", 1);
    let a = operand(cx, &c, &BigInt::from(3))?;
    let keep = a.ct.clone();
    for (ek, src) in [(&ek, "built"), (&ek2, "read back")] {
        let mut tell = |cx: &mut Cx, what: String, rep: bool, want: bool, done: Result<bool, Fail>| -> R {
            check!(rep == want, "support:report", "{src} key reports {rep} for {what}, expected {want}; {}", f.desc);
            check!(done? == want, "support:act", "{src} key: {what} performed is not {want}; {}", f.desc);
            cx.ev(if want { "supported-reported" } else { "unsupported-refused" }, 1);
            Ok(())
        };
        let mut idx: Vec<usize> = (0..n / 2 + 2).collect();
        idx.extend([n, 2 * n, usize::MAX]);
        for i in idx {
            let want = i >= 1 && i < n / 2 && s.contains(&pow3(i));
            let d = no_panic("rotates_columns_by", || ek.rotates_columns_by(&a.ct, i).is_ok());
            tell(cx, format!("rotation by {i}"), no_panic("supports_column_rotation_by", || ek.supports_column_rotation_by(i))?, want, d)?;
        }
        let row = s.contains(&(2 * n - 1));
        tell(cx, "row rotation".into(), ek.supports_row_rotation(), row, no_panic("rotates_rows", || ek.rotates_rows(&a.ct).is_ok()))?;
        let mut sum = row;
        let mut i = 1;
        while i < n / 2 {
            sum &= s.contains(&pow3(i));
            i *= 2;
        }
        tell(cx, "inner sum".into(), ek.supports_inner_sum(), sum, no_panic("computes_inner_sum", || ek.computes_inner_sum(&a.ct).is_ok()))?;
        for l in 0..=lg + 1 {
            let want = l <= lg && (0..l).all(|j| s.contains(&((n >> j) + 1)));
            let size = 1usize << l;
            let d = no_panic("expands", || ek.expands(&a.ct, size).is_ok());
            tell(cx, format!("expansion level {l}"), no_panic("supports_expansion", || ek.supports_expansion(l))?, want, d)?;
        }
        let big = cx.range(lg + 1, 200);
        check!(!no_panic("supports_expansion", || ek.supports_expansion(big))?, "support:report", "expansion level {big} reported; {}", f.desc);
        for size in [0, n + 1, 4 * n, usize::MAX] {
            check!(no_panic("expands", || ek.expands(&a.ct, size).is_err())?, "bad-expansion-performed", "expansion to {size} performed at degree {n}");
        }
    }
    check!(a.ct == keep, "operand-modified", "an operation changed its operand");
    cx.sample(|| format!("{}: {}", f.desc, what.join(" ")));
    cx.seen((f.id, f.q.clone(), c.level, c.kl, what));
    Ok(())
}

/// Several operations in a row, through one key.
fn sequence(cx: &mut Cx) -> R {
    let c = scene(cx, want(), 34)?;
    let f = c.f.clone();
    let n = f.n;
    let mut b = builder(cx, &c)?;
    let steps: Vec<usize> = (0..3).map(|_| cx.range(1, n / 2 - 1)).collect();
    for i in &steps {
        b.enable_column_rotation(*i).lib("enable_column_rotation")?;
    }
    b.enable_row_rotation().lib("enable_row_rotation")?;
    let ek = finish(cx, &c, b)?;
    let mut a = operand(cx, &c, &BigInt::from(3))?;
    let mut done = vec![];
    for _ in 0..cx.range(2, 6) {
        let bound = &a.e + &c.ks + 3;
        let (ct, m) = if cx.coin(1, 4) {
            done.push(0);
            (ek.rotates_rows(&a.ct).lib("rotates_rows")?, f.msubst(&a.m, 2 * n - 1))
        } else {
            let i = *cx.pick(&steps);
            done.push(i);
            (ek.rotates_columns_by(&a.ct, i).lib("rotates_columns_by")?, f.msubst(&a.m, (0..i).fold(1usize, |e, _| e * 3 % (2 * n))))
        };
        judged(cx, &c, &ct, &m, &bound, "rotation in a sequence")?;
        let e = f.noise_inf(&phase(&ct, &c.s, &f.crt[c.level]), &m, c.level);
        a = Op { ct, m, e };
        if a.e > f.threshold(c.level) {
            break;
        }
    }
    cx.ev("sequences", 1);
    cx.seen((f.id, f.q.clone(), c.level, c.kl, done, a.m));
    Ok(())
}

fn large(cx: &mut Cx) -> R {
    let idx = cx.idx as usize;
    let n = match idx {
        0 | 1 => 4096,
        2 => 16384,
        3 => 65536,
        _ => 1usize << cx.range(7, 11),
    };
    let k = if n > 4096 { 2 } else { cx.range(2, 4) };
    let q = crate::gen_::moduli(cx, n, k, 55, 62);
    let t = primes(if n > 4096 { 22 } else { *cx.pick(&[17u32, 20]) }, n)[0];
    let f = build(30_000 + idx, n, &q, &big(t), cx.range(1, 20))?;
    let level = cx.u(k - 1);
    let kl = cx.range(0, level);
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let i = cx.range(1, n / 2 - 1);
    let l = cx.range(1, 4);
    let mut b = EvaluationKeyBuilder::new_leveled(&sk, level, kl).lib("new_leveled")?;
    b.enable_column_rotation(i).lib("col")?.enable_inner_sum().lib("sum")?.enable_expansion(l).lib("exp")?;
    let ek = b.build(&mut cx.fork()).lib("build")?;
    let v: Vec<u64> = (0..n).map(|_| cx.u64() % t).collect();
    let ct: Ciphertext = sk.try_encrypt(&Plaintext::try_encode(&v, Encoding::simd_at_level(level), &f.par).lib("encode")?, &mut cx.fork()).lib("encrypt")?;
    let h = n / 2;
    let dec = |c: &Ciphertext| decoded(&f, &sk, c);
    let w: Vec<u64> = (0..n).map(|j| if j < h { v[(j + i) % h] } else { v[h + (j - h + i) % h] }).collect();
    check!(dec(&ek.rotates_columns_by(&ct, i).lib("col")?)? == w, "large:columns", "degree {n}: rotation by {i} wrong; {}", f.desc);
    let w: Vec<u64> = (0..n).map(|j| v[(j + h) % n]).collect();
    check!(dec(&ek.rotates_rows(&ct).lib("rows")?)? == w, "large:rows", "degree {n}: row rotation wrong; {}", f.desc);
    let s = v.iter().fold(0, |a, b| addmod(a, *b, t));
    check!(dec(&ek.computes_inner_sum(&ct).lib("sum")?)? == vec![s; n], "large:sum", "degree {n}: inner sum wrong; {}", f.desc);
    let size = 1usize << l;
    let c: Vec<u64> = (0..size).map(|_| cx.u64() % t).collect();
    let ct: Ciphertext = sk.try_encrypt(&Plaintext::try_encode(&c, Encoding::poly_at_level(level), &f.par).lib("encode")?, &mut cx.fork()).lib("encrypt")?;
    for (j, o) in ek.expands(&ct, size).lib("expands")?.iter().enumerate() {
        let d = Vec::<u64>::try_decode(&sk.try_decrypt(o).lib("decrypt")?, Encoding::poly_at_level(level)).lib("decode")?;
        check!(d[0] == mulmod(c[j], size as u64 % t, t) && d[1..].iter().all(|x| *x == 0), "large:expansion", "degree {n}: output {j} of the expansion to {size} is wrong; {}", f.desc);
    }
    cx.ev("large-operations", 4);
    cx.seen((n, q, t, level, kl, i, v[0]));
    Ok(())
}

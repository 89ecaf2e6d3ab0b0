//! C08: parameters.
use crate::fixt::*;
use crate::gen_::{moduli, primes};
use crate::model::*;
use crate::mon::*;
use fhe::bfv::{BfvParameters, BfvParametersBuilder, Encoding, Plaintext, SecretKey};
use fhe::proto::bfv as pb;
use fhe_math::rq::{Context, Poly, PowerBasis};
use fhe_math::zq::primes::generate_prime;
use fhe_traits::{Deserialize, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use prost::Message;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C08",
        rule: "a case drives one parameter builder with a random sequence of setter calls (valid, boundary and invalid values, repeated and overridden) and builds it once or twice, or asks for the default 128-bit sets, or for one prime. The outcome (built or refused) is compared with the documented rules evaluated independently, and what was built with what was asked, level by level. Distinct = distinct (inputs, outcome); non-trivial = every case.",
        workloads: vec![
            Workload { name: "builder", weight: 6, max: 0, f: builder },
            Workload { name: "sizes", weight: 4, max: 0, f: sizes },
            Workload { name: "primes", weight: 2, max: 0, f: one_prime },
            Workload { name: "defaults", weight: 1, max: 8, f: defaults },
        ],
        required: vec![
            "built", "refused:degree", "refused:variance", "refused:both", "refused:neither", "refused:plaintext", "refused:modulus", "refused:duplicate", "refused:exceeds", "refused:coprime",
            "refused:size", "refused:not-enough-primes", "levels", "generated-moduli", "overridden", "default-sets", "default-refused", "prime-found", "prime-none", "big-plaintext", "used",
        ],
        finish: None,
    }
}

#[derive(Clone, Debug, Default)]
struct Ask {
    n: usize,
    t: BigUint,
    v: usize,
    q: Vec<u64>,
    sizes: Vec<usize>,
}
/// Number of primes of exactly `bits` bits congruent to 1 modulo 2n, counting
/// no further than `need`.
fn available(bits: usize, n: usize, need: usize) -> usize {
    let m = 2 * n as u64;
    let mut c = ((1u64 << bits) - 1) / m * m + 1;
    if c >= 1 << bits {
        c -= m.min(c);
    }
    let mut k = 0;
    while c >= 1 << (bits - 1) && k < need {
        if is_prime(c) {
            k += 1;
        }
        if c < m {
            break;
        }
        c -= m;
    }
    k
}
/// Why the documented rules refuse this, if they do; and otherwise, the
/// moduli when they are given.
fn rules(a: &Ask) -> Vec<&'static str> {
    let mut no = vec![];
    let n_ok = a.n.is_power_of_two() && (8..=65536).contains(&a.n);
    if !n_ok {
        no.push("degree");
    }
    if !(1..=32).contains(&a.v) {
        no.push("variance");
    }
    if !a.q.is_empty() && !a.sizes.is_empty() {
        no.push("both");
    }
    if a.q.is_empty() && a.sizes.is_empty() {
        no.push("neither");
    }
    let tb = a.t.bits();
    if a.t < big(2) || (tb > 62 && tb <= 64) {
        no.push("plaintext");
    }
    for (i, q) in a.q.iter().enumerate() {
        if *q < 2 || q >> 62 != 0 || !is_prime(*q) || (n_ok && q % (2 * a.n as u64) != 1) {
            no.push("modulus");
        }
        if a.q[..i].contains(q) {
            no.push("duplicate");
        }
    }
    if !a.q.is_empty() {
        if a.t >= prod(&a.q) {
            no.push("exceeds");
        }
        if a.q.iter().any(|q| *q != 0 && (&a.t % big(*q)).is_zero()) {
            no.push("coprime");
        }
    }
    if !a.sizes.is_empty() {
        if a.sizes.iter().any(|s| !(10..=62).contains(s)) {
            no.push("size");
        } else if n_ok {
            for s in &a.sizes {
                let need = a.sizes.iter().filter(|x| *x == s).count();
                if available(*s, a.n, need) < need {
                    no.push("not-enough-primes");
                    break;
                }
            }
        }
    }
    no
}

fn set(cx: &mut Cx, b: &mut BfvParametersBuilder, a: &mut Ask, want: &Ask) {
    // every setter, in any order, sometimes more than once
    let mut todo: Vec<usize> = (0..5).collect();
    for _ in 0..cx.u(4) {
        todo.push(cx.u(5));
    }
    for i in (1..todo.len()).rev() {
        todo.swap(i, cx.u(i + 1));
    }
    for (i, x) in todo.iter().enumerate() {
        let last = !todo[i + 1..].contains(x);
        if !last {
            cx.ev("overridden", 1);
        }
        match x {
            0 => {
                a.n = if last { want.n } else { 1 << cx.u(12) };
                b.set_degree(a.n);
            }
            1 => {
                a.t = if last { want.t.clone() } else { big(cx.u64()) };
                match a.t.to_u64() {
                    Some(t) if cx.coin(2, 3) => b.set_plaintext_modulus(t),
                    _ => b.set_plaintext_modulus_biguint(a.t.clone()),
                };
            }
            2 => {
                a.v = if last { want.v } else { cx.u(40) };
                b.set_variance(a.v);
            }
            3 => {
                a.q = if last { want.q.clone() } else { vec![cx.u64(); cx.u(3)] };
                b.set_moduli(&a.q);
            }
            _ => {
                a.sizes = if last { want.sizes.clone() } else { vec![cx.u(70); cx.u(3)] };
                b.set_moduli_sizes(&a.sizes);
            }
        }
    }
}

/// Everything built parameters say about themselves.
fn check_built(cx: &mut Cx, p: &Arc<BfvParameters>, a: &Ask) -> R {
    let k = p.moduli().len();
    check!(p.degree() == a.n, "degree", "asked for degree {}, got {}", a.n, p.degree());
    check!(*p.plaintext_big() == a.t, "plaintext", "asked for plaintext modulus {}, got {}", a.t, p.plaintext_big());
    if a.t.bits() <= 62 {
        check!(big(p.plaintext()) == a.t, "plaintext", "asked for plaintext modulus {}, got {}", a.t, p.plaintext());
    } else {
        cx.ev("big-plaintext", 1);
    }
    let w = pb::Parameters::decode(p.to_bytes().as_slice()).prep("parameters")?;
    check!(w.variance as usize == a.v, "variance", "asked for variance {}, got {}", a.v, w.variance);
    check!(w.degree as usize == a.n && w.moduli == p.moduli(), "wire", "{w:?} written for {p:?}");
    if a.q.is_empty() {
        check!(k == a.sizes.len(), "moduli", "asked for sizes {:?}, got {:?}", a.sizes, p.moduli());
        for (q, s) in p.moduli().iter().zip(&a.sizes) {
            check!(64 - q.leading_zeros() as usize == *s, "modulus-size", "asked for a modulus of {s} bits, got {q}");
        }
        cx.ev("generated-moduli", k as u64);
    } else {
        check!(p.moduli() == a.q, "moduli", "asked for moduli {:?}, got {:?}", a.q, p.moduli());
    }
    for (i, q) in p.moduli().iter().enumerate() {
        check!(is_prime(*q) && q % (2 * a.n as u64) == 1 && q >> 62 == 0, "modulus", "modulus {q} is no NTT prime for degree {}", a.n);
        check!(!p.moduli()[..i].contains(q), "distinct", "modulus {q} occurs twice in {:?}", p.moduli());
    }
    let s: Vec<usize> = p.moduli().iter().map(|q| 64 - q.leading_zeros() as usize).collect();
    check!(p.moduli_sizes() == s, "moduli-sizes", "sizes {:?} reported for {:?}", p.moduli_sizes(), p.moduli());
    check!(a.t < prod(p.moduli()), "exceeds", "plaintext modulus {} and moduli {:?}", a.t, p.moduli());
    // the chain of levels
    check!(p.max_level() == k - 1, "max-level", "{} moduli and max level {}", k, p.max_level());
    check!(p.context_levels().len() == k, "levels", "{} moduli and {} levels", k, p.context_levels().len());
    for l in 0..k {
        let c = p.context_at_level(l).lib("context_at_level")?;
        let q = &p.moduli()[..k - l];
        let d = Poly::<PowerBasis>::zero(c).coefficients().ncols();
        check!(c.moduli() == q && d == a.n, "level-moduli", "level {l} has moduli {:?} and degree {d} in parameters {p:?}", c.moduli());
        check!(*c.modulus() == prod(q), "level-modulus", "level {l} has modulus {}", c.modulus());
        let cl = p.context_level_at(l).lib("context_level_at")?;
        check!(cl.level() == l && cl.max_level() == k - 1 && cl.can_switch_down() == (l < k - 1) && cl.poly_context == *c && p.context_levels()[l] == *cl, "level-data", "level {l} says {} of {}, can switch: {}", cl.level(), cl.max_level(), cl.can_switch_down());
        check!(p.level_of_context(c).lib("level_of_context")? == l, "level-of-context", "level {l}");
        // an equal context built apart has the same level
        if a.n <= 256 {
            let other = Context::new_arc(q, a.n).lib("Context::new")?;
            check!(p.level_of_context(&other).lib("level_of_context")? == l, "level-of-context", "level {l} from an equal context");
        }
        cx.ev("levels", 1);
    }
    for l in [k, k + 1, usize::MAX] {
        check!(p.context_at_level(l).is_err() && p.context_level_at(l).is_err(), "level-range", "level {l} of {k} exists");
    }
    // contexts that belong to no level
    if a.n <= 64 {
        let pr = primes(40, a.n);
        let mut q = p.moduli().to_vec();
        if let Some(x) = pr.iter().find(|x| !q.contains(x)) {
            let i = cx.u(k);
            q[i] = *x;
            let other = Context::new_arc(&q, a.n).lib("Context::new")?;
            check!(no_panic("level_of_context", || p.level_of_context(&other))?.is_err(), "level-of-foreign", "a context with moduli {q:?} has a level in {p:?}");
            q[i] = p.moduli()[i];
            q.push(*x);
            let other = Context::new_arc(&q, a.n).lib("Context::new")?;
            check!(no_panic("level_of_context", || p.level_of_context(&other))?.is_err(), "level-of-foreign", "a context with moduli {q:?} has a level in {p:?}");
        }
    }
    let back = BfvParameters::try_deserialize(&p.to_bytes()).lib("try_deserialize")?;
    check!(back == **p, "round-trip", "{p:?} does not round-trip");
    Ok(())
}
/// The parameters work.
fn use_built(cx: &mut Cx, p: &Arc<BfvParameters>, t: &BigUint) -> R {
    let n = p.degree();
    let sk = SecretKey::random(p, &mut cx.fork());
    let m: Vec<BigUint> = (0..n).map(|_| rand_below(cx, t)).collect();
    let pt = if t.bits() <= 62 {
        let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap_or(0)).collect();
        Plaintext::try_encode(&v, Encoding::poly(), p).lib("encode")?
    } else {
        Plaintext::try_encode(&m, Encoding::poly(), p).lib("encode")?
    };
    let ct: fhe::bfv::Ciphertext = sk.try_encrypt(&pt, &mut cx.fork()).lib("encrypt")?;
    let d = no_panic("decrypt", || sk.try_decrypt(&ct))?.lib("decrypt")?;
    let r = Vec::<BigUint>::try_decode(&d, Encoding::poly()).lib("decode")?;
    // fresh noise is at most twice the variance per coefficient
    if prod(p.moduli()).bits() > t.bits() + 12 {
        check!(r == m, "unusable", "encryption does not decrypt under {p:?}");
        cx.ev("used", 1);
    }
    let simd = Plaintext::try_encode(&[1u64], Encoding::simd(), p).is_ok();
    let want = t.to_u64().is_some_and(|x| is_prime(x) && x % (2 * n as u64) == 1);
    check!(simd == want, "simd", "batched encoding available: {simd}, expected {want} for {p:?}");
    Ok(())
}

fn run(cx: &mut Cx, want: Ask) -> R {
    let mut b = BfvParametersBuilder::new();
    let mut a = Ask { v: 10, ..Ask::default() };
    if cx.coin(1, 8) {
        // nothing set but some of it
        for i in 0..5 {
            if cx.coin(1, 2) {
                match i {
                    0 => {
                        b.set_degree(want.n);
                        a.n = want.n
                    }
                    1 => {
                        b.set_plaintext_modulus_biguint(want.t.clone());
                        a.t = want.t.clone()
                    }
                    2 => {
                        b.set_variance(want.v);
                        a.v = want.v
                    }
                    3 => {
                        b.set_moduli(&want.q);
                        a.q = want.q.clone()
                    }
                    _ => {
                        b.set_moduli_sizes(&want.sizes);
                        a.sizes = want.sizes.clone()
                    }
                }
            }
        }
    } else {
        set(cx, &mut b, &mut a, &want);
    }
    cx.tr(format!("{a:?}"));
    let mut no = rules(&a);
    let r = no_panic("build", || b.build_arc())?;
    // what depends on the generated moduli
    if no.is_empty() && !a.sizes.is_empty() {
        if let Ok(p) = &r {
            if a.t >= prod(p.moduli()) {
                no.push("exceeds");
            }
            if p.moduli().iter().any(|q| (&a.t % big(*q)).is_zero()) {
                no.push("coprime");
            }
        } else {
            // the moduli are the library's choice; the product cannot be
            // smaller than with the smallest of each size
            let least: usize = a.sizes.iter().map(|s| s - 1).sum();
            check!(a.t.bits() as usize > least || a.sizes.iter().any(|s| a.t.bits() as usize >= *s), "valid-refused", "{a:?} was refused: {:?}", r.as_ref().err());
            cx.ev("refused:generated", 1);
            cx.seen((format!("{a:?}"), "generated"));
            return Ok(());
        }
    }
    match &r {
        Ok(p) => {
            check!(no.is_empty(), "invalid-built", "built in spite of {no:?}: {a:?}");
            cx.ev("built", 1);
            check_built(cx, p, &a)?;
            if cx.coin(1, 8) {
                let again = b.build().lib("build again")?;
                check!(again == **p, "build-twice", "building twice differs: {a:?}");
            }
            if a.n <= 128 && cx.coin(1, 3) {
                use_built(cx, p, &a.t)?;
            }
        }
        Err(e) => {
            check!(!no.is_empty(), "valid-refused", "{a:?} was refused: {e:?}");
            for r in &no {
                cx.ev(&format!("refused:{r}"), 1);
            }
        }
    }
    cx.seen((format!("{a:?}"), r.is_ok()));
    Ok(())
}

fn degree(cx: &mut Cx) -> usize {
    match cx.u(160) {
        0..=5 => *cx.pick(&[0, 1, 2, 3, 4, 6, 7, 9, 12, 24, 48, 100, 131072, 1 << 20, 1 << 40, usize::MAX]),
        6 => 8 << cx.u(14),
        7..=12 => cx.range(0, 200),
        13..=18 => 8 << cx.u(8),
        _ => 8 << cx.u(5),
    }
}
fn variance(cx: &mut Cx) -> usize {
    match cx.u(20) {
        0 => 0,
        1 => 33,
        2 => *cx.pick(&[34, 64, 1 << 32, usize::MAX]),
        3 => 1,
        4 => 32,
        _ => cx.range(1, 32),
    }
}
fn plain(cx: &mut Cx, q: &[u64]) -> BigUint {
    let qb = prod(q);
    match cx.u(24) {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => big(2),
        3 => qb,
        4 => qb + 1u32,
        5 if !qb.is_zero() => qb - 1u32,
        6 if !q.is_empty() => big(*cx.pick(q)),
        7 if !q.is_empty() => big(*cx.pick(q)) * (1 + cx.u64() % 1000),
        8 => big(1) << cx.range(60, 66),
        9 => (big(1) << cx.range(61, 65)) - 1u32,
        10 => big(1) << cx.u(200),
        11 | 12 => {
            let b = cx.range(1, 180);
            (big(cx.u64()) << 128 | big(cx.u64()) << 64 | big(cx.u64())) >> (192 - b)
        }
        13 => {
            let p = primes(cx.range(10, 60) as u32, 8);
            big(p[cx.u(p.len())])
        }
        _ => big(cx.u64() >> cx.range(3, 62)),
    }
}

fn builder(cx: &mut Cx) -> R {
    let n = degree(cx);
    let good = if n.is_power_of_two() && (8..=65536).contains(&n) { n } else { 16 };
    let lim = if good > 4096 { 2 } else { 5 };
    let k = cx.range(1, lim);
    let (lo, hi) = *cx.pick(&[(10, 62), (62, 62), (30, 40), (50, 60), (10, 20)]);
    let mut q = moduli(cx, good, k, lo, hi);
    match cx.u(16) {
        0 => {
            if let Some(x) = q.first().copied() {
                q.push(x);
            }
        }
        1 => {
            // spoil one modulus
            let x = match cx.u(9) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => cx.u64() >> cx.u(64),
                4 => primes(30, 8)[0] * primes(31, 8)[1], // a composite congruent to 1
                5 => 3,
                6 => (1 << 62) + 1,
                7 => {
                    // prime, but not congruent to 1 modulo 2n
                    let mut x = (cx.u64() >> 4) | 1;
                    while !is_prime(x) {
                        x += 2;
                    }
                    x
                }
                _ => {
                    // a prime for half the degree only
                    let m = good as u64;
                    let mut x = (1u64 << 40) / m * m + 1;
                    while !(is_prime(x) && x % (2 * m) != 1) {
                        x += m;
                    }
                    x
                }
            };
            let i = cx.u(q.len() + 1);
            q.insert(i, x);
        }
        2 => {
            // a square or a product of valid primes
            let p = primes(20, good);
            if p.len() > 1 {
                let x = p[0] * p[cx.u(2)];
                if x >> 62 == 0 {
                    q.push(x);
                }
            }
        }
        _ => {}
    }
    let t = plain(cx, &q);
    let mut a = Ask { n, t, v: variance(cx), q, sizes: vec![] };
    match cx.u(20) {
        0 => a.q.clear(),
        1 => a.sizes = vec![*cx.pick(&[30, 62, 5])],
        _ => {}
    }
    run(cx, a)
}

fn sizes(cx: &mut Cx) -> R {
    let n = match cx.u(160) {
        0..=19 => 8usize << cx.u(7),
        20 => 8 << cx.u(13),
        _ => 8 << cx.u(4),
    };
    let k = cx.range(1, if n > 4096 { 2 } else { 6 });
    let s: Vec<usize> = match cx.u(6) {
        0 => vec![cx.range(10, 62); k],
        1 => vec![cx.range(10, 16); k],
        2 => vec![62; k],
        3 => {
            let mut s: Vec<usize> = (0..k).map(|_| cx.range(10, 62)).collect();
            let i = cx.u(k);
            s[i] = *cx.pick(&[0, 1, 9, 63, 64, 65, 100, usize::MAX]);
            s
        }
        4 => {
            // the number of primes there are, and one more
            let b = ((2 * n as u64).ilog2() as usize + cx.range(1, 4)).clamp(10, 62);
            let k = available(b, n, 7);
            vec![b; (k + cx.u(2)).clamp(1, 7)]
        }
        _ => (0..k).map(|_| cx.range(10, 62)).collect(),
    };
    let bits: usize = s.iter().map(|x| (*x).min(100)).sum::<usize>().max(3);
    let t = match cx.u(6) {
        0 => plain(cx, &[]),
        1 => big(1) << bits,
        2 => (big(1) << (bits - 1)) + 3u32,
        _ => big(cx.u64() >> cx.range(2usize.max(64 - bits.min(60)).min(62), 62)) + 2u32,
    };
    let mut a = Ask { n, t, v: variance(cx), q: vec![], sizes: s };
    if cx.coin(1, 30) {
        a.q = moduli(cx, n, 1, 30, 62);
    }
    run(cx, a)
}

/// generate_prime: the largest prime below the bound of that size.
fn one_prime(cx: &mut Cx) -> R {
    let bits = match cx.u(10) {
        0 => *cx.pick(&[0, 1, 9, 63, 64, 65, 1000]),
        _ => cx.range(10, 62),
    };
    let m = 2u64 << cx.u(18);
    let (found, want) = if (10..=62).contains(&bits) {
        let top = 1u64 << bits;
        let ub = match cx.u(6) {
            0 => top,
            1 => top / 2 + cx.u64() % (m * 3).min(top / 2),
            2 => cx.u64() % (top + 1),
            3 => *cx.pick(&[0, 1, 2, m, m + 1]),
            4 => top / 2,
            _ => top - cx.u64() % (top / 2),
        }
        .min(top);
        cx.tr(format!("generate_prime({bits}, {m}, {ub})"));
        let got = no_panic("generate_prime", || generate_prime(bits, m, ub))?;
        let mut want = None;
        if ub > top / 2 {
            let mut c = (ub - 1) / m * m + 1;
            if c >= ub {
                c = c.saturating_sub(m);
            }
            let mut tries = 0;
            while c >= top / 2 && c > 0 {
                if is_prime(c) {
                    want = Some(c);
                    break;
                }
                tries += 1;
                if c < m || tries > 100_000 {
                    break;
                }
                c -= m;
            }
        }
        (got, want)
    } else {
        (no_panic("generate_prime", || generate_prime(bits, m, 1 << 5))?, None)
    };
    check!(found == want, "generate-prime", "generate_prime gave {found:?}, the largest such prime is {want:?}");
    cx.ev(if want.is_some() { "prime-found" } else { "prime-none" }, 1);
    cx.seen((bits, m, want));
    Ok(())
}

/// The default sets: within the 128-bit budgets of the homomorphic encryption
/// standard, and what they claim to be.
fn defaults(cx: &mut Cx) -> R {
    let nbits = match if cx.idx < 8 { cx.idx as usize % 4 } else { cx.u(4) } {
        0 => *cx.pick(&[0usize, 1, 5, 9, 10, 62, 63, 64, 65, 128, usize::MAX]),
        1 => cx.range(16, 32),
        _ => cx.range(10, 62),
    };
    cx.tr(format!("default_parameters_128({nbits})"));
    let r = no_panic("default_parameters_128", || BfvParameters::default_parameters_128(nbits).map(|i| i.collect::<Vec<_>>()))?;
    let Ok(sets) = r else {
        check!(!(20..=30).contains(&nbits), "no-defaults", "no default parameters for {nbits} bits");
        cx.ev("default-refused", 1);
        cx.seen((nbits, 0));
        return Ok(());
    };
    check!(!sets.is_empty() && (10..=62).contains(&nbits), "default-plaintext", "{} default sets for {nbits} bits", sets.len());
    let mut last = 0;
    for p in &sets {
        let n = p.degree();
        check!(n > last, "default-order", "default degrees not increasing");
        last = n;
        let budget = match n {
            1024 => 27,
            2048 => 54,
            4096 => 109,
            8192 => 218,
            16384 => 438,
            32768 => 881,
            65536 => 1770,
            _ => 0,
        };
        let b = prod(p.moduli()).bits();
        check!(b <= budget, "security-budget", "default parameters of degree {n} have a modulus of {b} bits (at most {budget} for 128-bit security)");
        let t = p.plaintext();
        check!(64 - t.leading_zeros() as usize == nbits && is_prime(t) && t % (2 * n as u64) == 1, "default-plaintext", "default plaintext modulus {t} for {nbits} bits and degree {n}");
        let w = pb::Parameters::decode(p.to_bytes().as_slice()).prep("parameters")?;
        check!(w.variance == 10, "default-variance", "default variance {}", w.variance);
        let a = Ask { n, t: big(t), v: 10, q: p.moduli().to_vec(), sizes: vec![] };
        check_built(cx, p, &a)?;
        cx.ev("default-sets", 1);
    }
    cx.seen((nbits, sets.len()));
    Ok(())
}

//! C01: word-size modular arithmetic is exact.
use crate::model::*;
use crate::mon::*;
use fhe_math::zq::{Modulus, primes};
use num_traits::ToPrimitive;
use rand::{Rng, RngExt};

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "a case is one modulus (2..2^62: edge values, powers of two +-1, composites, NTT primes, optimised and non-optimised forms) with edge-biased operands and vectors of length 0..70; every scalar, vector and variable-time operation's result is compared with 128-bit / big-integer arithmetic. Distinct = distinct modulus (or bit-width pair, or prime-search class) exercised; non-trivial = the modulus was accepted and all operations were compared.",
        workloads: vec![
            Workload { name: "ops", weight: 6, max: 0, f: ops },
            Workload { name: "exhaustive-small", weight: 1, max: 300, f: exhaustive_small },
            Workload { name: "primes", weight: 2, max: 0, f: prime_search },
            Workload { name: "packing", weight: 3, max: 0, f: packing },
        ],
        required: vec!["scalar-ops", "vector-ops", "lazy-ops", "opt-ops", "packing-ops", "prime-decisions"],
        finish: None,
    }
}

pub fn gen_modulus(cx: &mut Cx) -> u64 {
    match cx.u(9) {
        0 => 2 + cx.u64() % 64,
        1 => {
            let b = cx.range(2, 61) as u32;
            let d = cx.u(5) as i64 - 2;
            (((1u64 << b) as i64) + d).max(2) as u64
        }
        2 => ((1u64 << 62) - 1) - (cx.u64() % 64),
        3 => {
            let bits = cx.range(12, 62) as u32;
            let k = cx.range(3, 11);
            let sk = cx.u(3);
            ntt_primes(bits, 1 << k, 1, sk).first().copied().unwrap_or(97)
        }
        4 => {
            // the kind of moduli the library generates
            *cx.pick(&[
                4611686018326724609, 4611686018309947393, 4611686018282684417, 1153, 65537,
                0x7e00001, 0x3fffffff000001, 0xffffee001, 0x1ffffe0001, 0x7fffffd8001,
                4611686018427387903, 4611686018427387847, 2305843009213693951, 40961, 786433,
            ])
        }
        5 => {
            let b = cx.range(2, 31);
            let x = (cx.u64() >> (64 - b)).max(2);
            let y = (cx.u64() >> (64 - b)).max(2);
            (x * y).clamp(2, (1 << 62) - 1)
        }
        _ => {
            let b = cx.range(2, 62);
            (cx.u64() >> (64 - b)).max(2)
        }
    }
}

fn operand(cx: &mut Cx, p: u64) -> u64 {
    match cx.u(10) {
        0 => 0,
        1 => 1 % p,
        2 => p - 1,
        3 => p / 2,
        4 => (p / 2 + 1) % p,
        5 => (p - 1) / 2,
        _ => cx.u64() % p,
    }
}
fn any_u64(cx: &mut Cx, p: u64) -> u64 {
    match cx.u(12) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - cx.u64() % 5,
        3 => p,
        4 => p - 1,
        5 => p + 1,
        6 => (u64::MAX / p) * p,
        7 => ((u64::MAX / p) * p).wrapping_sub(1),
        8 => 1 << 63,
        9 => p.saturating_mul(cx.u64() % 4).saturating_sub(1),
        _ => cx.u64(),
    }
}
fn any_u128(cx: &mut Cx, p: u64) -> u128 {
    let r = ((cx.u64() as u128) << 64) | cx.u64() as u128;
    match cx.u(9) {
        0 => 0,
        1 => u128::MAX,
        2 => (u128::MAX / p as u128) * p as u128,
        3 => (u128::MAX / p as u128) * p as u128 - 1,
        4 => (p as u128) * (p as u128) - 1,
        5 => (p as u128) << 64,
        6 => (r / p as u128) * p as u128,
        7 => ((r / p as u128) * p as u128).wrapping_sub(1),
        _ => r,
    }
}

fn ops(cx: &mut Cx) -> R {
    let p = gen_modulus(cx);
    if p >> 62 != 0 || p < 2 {
        check!(Modulus::new(p).is_err(), "modulus-accept", "Modulus::new({p}) accepted an invalid modulus");
        return Ok(());
    }
    // invalid moduli are refused
    for bad in [0u64, 1, 1 << 62, u64::MAX, (1 << 62) + (cx.u64() >> 2)] {
        check!(Modulus::new(bad).is_err(), "modulus-accept", "Modulus::new({bad}) accepted");
    }
    let m = Modulus::new(p).lib("Modulus::new")?;
    check!(*m == p, "modulus-value", "deref gives {} for {p}", *m);
    let opt = primes::supports_opt(p);
    // the published condition, in exact arithmetic
    {
        let s0 = p.leading_zeros() as usize;
        let l = ((one() << (3 * s0)) + one()) << 64usize;
        let r = (one() << (3 * s0)) * ((one() << s0) + one()) * big(p);
        check!(opt == (l < r), "supports_opt", "supports_opt({p}) = {opt}");
    }
    for _ in 0..12 {
        let (a, b) = (operand(cx, p), operand(cx, p));
        let ab = mulmod(a, b, p);
        let s = m.shoup(b);
        check!(s == ((((b as u128) << 64) / p as u128) as u64), "shoup", "shoup({b}) mod {p} = {s}");
        let u = any_u64(cx, p);
        let w = any_u128(cx, p);
        let n = operand(cx, p);
        let got: [(&str, u64, u64); 12] = [
            ("add", m.add(a, b), addmod(a, b, p)),
            ("add_vt", unsafe { m.add_vt(a, b) }, addmod(a, b, p)),
            ("sub", m.sub(a, b), submod(a, b, p)),
            ("mul", m.mul(a, b), ab),
            ("neg", m.neg(a), negmod(a, p)),
            ("mul_shoup", m.mul_shoup(a, b, s), ab),
            ("reduce", m.reduce(u), u % p),
            ("reduce_vt", unsafe { m.reduce_vt(u) }, u % p),
            ("reduce_u128", m.reduce_u128(w), (w % p as u128) as u64),
            ("reduce_u128_vt", unsafe { m.reduce_u128_vt(w) }, (w % p as u128) as u64),
            ("pow", m.pow(a, n), if n == 0 { 1 } else { powmod(a, n, p) }),
            ("mul_shoup-any", m.mul_shoup(u, b, s), mulmod(u % p, b, p)),
        ];
        for (k, g, e) in got {
            check!(g == e, k, "{k}: modulus {p}, a={a} b={b} u={u} w={w} n={n}: got {g}, expected {e}");
        }
        cx.ev("scalar-ops", 12);
        // lazy forms
        for (k, g, e) in [
            ("lazy_reduce", m.lazy_reduce(u), u as u128 % p as u128),
            ("lazy_reduce_u128", m.lazy_reduce_u128(w), w % p as u128),
            ("lazy_mul_shoup", m.lazy_mul_shoup(u, b, s), mulmod(u % p, b, p) as u128),
        ] {
            check!((g as u128) < 2 * p as u128 && g as u128 % p as u128 == e, k, "{k}: modulus {p}, u={u} w={w} b={b}: got {g}");
        }
        cx.ev("lazy-ops", 3);
        let c = m.center(a);
        check!(
            (c as i128 - a as i128) % p as i128 == 0
                && c as i128 >= -(p.div_ceil(2) as i128)
                && (c as i128) < (p / 2) as i128,
            "center",
            "center({a}) mod {p} = {c}"
        );
        if opt {
            let wp = w % (p as u128 * p as u128);
            for (k, g, e) in [
                ("mul_opt", m.mul_opt(a, b), ab),
                ("reduce_opt", m.reduce_opt(u), u % p),
                ("reduce_opt_vt", unsafe { m.reduce_opt_vt(u) }, u % p),
                ("reduce_opt_u128", m.reduce_opt_u128(wp), (wp % p as u128) as u64),
            ] {
                check!(g == e, k, "{k}: modulus {p}, a={a} b={b} u={u} w={wp}: got {g}, expected {e}");
            }
            let g = m.lazy_reduce_opt_u128(wp);
            check!((g as u128) < 2 * p as u128 && g as u128 % p as u128 == wp % p as u128, "lazy_reduce_opt_u128", "modulus {p} w={wp}: {g}");
            cx.ev("opt-ops", 5);
        }
        // inverse: exists exactly for non-zero elements of prime fields
        let inv = m.inv(a);
        if is_prime(p) && a != 0 {
            check!(inv.is_some_and(|i| i < p && mulmod(i, a, p) == 1), "inv", "inv({a}) mod {p} = {inv:?}");
        } else {
            check!(inv.is_none(), "inv", "inv({a}) mod {p} = {inv:?} (not a unit of a prime field)");
        }
        let e = fhe_util::inverse(a, p);
        let want = invmod(a, p).filter(|_| a != 0);
        check!(e == want, "util-inverse", "inverse({a},{p}) = {e:?}, expected {want:?}");
    }
    // vectors
    let len = cx.u(71);
    let a: Vec<u64> = (0..len).map(|_| operand(cx, p)).collect();
    let b: Vec<u64> = (0..len).map(|_| operand(cx, p)).collect();
    let u: Vec<u64> = (0..len).map(|_| any_u64(cx, p)).collect();
    let s = operand(cx, p);
    let i: Vec<i64> = (0..len)
        .map(|_| match cx.u(8) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => -1,
            3 => -(p as i64),
            4 => p as i64,
            _ => cx.u64() as i64,
        })
        .collect();
    let bs = m.shoup_vec(&b);
    check!(bs.iter().zip(&b).all(|(x, y)| *x == m.shoup(*y)) && bs.len() == len, "shoup_vec", "shoup_vec mod {p}");
    fn zip2(a: &[u64], b: &[u64], f: impl Fn(u64, u64) -> u64) -> Vec<u64> {
        a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
    }
    let inpl = |f: &dyn Fn(&mut [u64]), v: &[u64]| {
        let mut w = v.to_vec();
        f(&mut w);
        w
    };
    let add = zip2(&a, &b, |x, y| addmod(x, y, p));
    let sub = zip2(&a, &b, |x, y| submod(x, y, p));
    let mul = zip2(&a, &b, |x, y| mulmod(x, y, p));
    let smul = zip2(&a, &b, |x, _| mulmod(x, s, p));
    let red: Vec<u64> = u.iter().map(|x| x % p).collect();
    let neg: Vec<u64> = a.iter().map(|x| negmod(*x, p)).collect();
    let redi: Vec<u64> = i.iter().map(|x| (*x as i128).rem_euclid(p as i128) as u64).collect();
    let tests: Vec<(&str, Vec<u64>, &Vec<u64>)> = vec![
        ("add_vec", inpl(&|v| m.add_vec(v, &b), &a), &add),
        ("add_vec_vt", inpl(&|v| unsafe { m.add_vec_vt(v, &b) }, &a), &add),
        ("sub_vec", inpl(&|v| m.sub_vec(v, &b), &a), &sub),
        ("sub_vec_vt", inpl(&|v| unsafe { m.sub_vec_vt(v, &b) }, &a), &sub),
        ("mul_vec", inpl(&|v| m.mul_vec(v, &b), &a), &mul),
        ("mul_vec_vt", inpl(&|v| unsafe { m.mul_vec_vt(v, &b) }, &a), &mul),
        ("scalar_mul_vec", inpl(&|v| m.scalar_mul_vec(v, s), &a), &smul),
        ("scalar_mul_vec_vt", inpl(&|v| unsafe { m.scalar_mul_vec_vt(v, s) }, &a), &smul),
        ("mul_shoup_vec", inpl(&|v| m.mul_shoup_vec(v, &b, &bs), &a), &mul),
        ("mul_shoup_vec_vt", inpl(&|v| unsafe { m.mul_shoup_vec_vt(v, &b, &bs) }, &a), &mul),
        ("reduce_vec", inpl(&|v| m.reduce_vec(v), &u), &red),
        ("reduce_vec_vt", inpl(&|v| unsafe { m.reduce_vec_vt(v) }, &u), &red),
        ("reduce_vec_new", m.reduce_vec_new(&u), &red),
        ("reduce_vec_new_vt", unsafe { m.reduce_vec_new_vt(&u) }, &red),
        ("neg_vec", inpl(&|v| m.neg_vec(v), &a), &neg),
        ("neg_vec_vt", inpl(&|v| unsafe { m.neg_vec_vt(v) }, &a), &neg),
        ("reduce_vec_i64", m.reduce_vec_i64(&i), &redi),
        ("reduce_vec_i64_vt", unsafe { m.reduce_vec_i64_vt(&i) }, &redi),
    ];
    cx.ev("vector-ops", tests.len() as u64);
    for (k, g, e) in tests {
        if g != *e {
            let at = g.iter().zip(e).position(|(x, y)| x != y);
            viol!(k, "{k}: modulus {p}, len {len}, first difference at {at:?}; a={a:?} b={b:?} u={u:?} s={s}: got {g:?}, expected {e:?}");
        }
    }
    let lz = inpl(&|v| m.lazy_reduce_vec(v), &u);
    for (x, y) in lz.iter().zip(&u) {
        check!(*x < 2 * p && x % p == y % p, "lazy_reduce_vec", "lazy_reduce_vec mod {p}: {y} -> {x}");
    }
    let c = m.center_vec(&a);
    for (x, y) in c.iter().zip(&a) {
        check!(*x == m.center(*y), "center_vec", "center_vec mod {p}: {y} -> {x}");
    }
    // serialisation of reduced vectors
    let len8 = 8 * cx.u(9);
    let v: Vec<u64> = (0..len8).map(|_| operand(cx, p)).collect();
    let by = m.serialize_vec(&v);
    let nb = (64 - (p - 1).leading_zeros()) as usize;
    check!(by.len() == m.serialization_length(len8) && by.len() == nb * len8 / 8, "serialization_length", "length mod {p}: {} for {len8}", by.len());
    let back = m.deserialize_vec(&by);
    check!(back == v, "serialize_vec", "serialize/deserialize mod {p}: {v:?} -> {back:?}");
    cx.ev("packing-ops", 1);
    // random vectors are reduced
    let mut r = cx.fork();
    let rv = m.random_vec(len, &mut r);
    check!(rv.len() == len && rv.iter().all(|x| *x < p), "random_vec", "random_vec mod {p} out of range");
    cx.seen(("ops", p));
    cx.sample(|| format!("modulus {p} (opt {opt}), vectors of length {len}, a={:?}..", &a[..a.len().min(3)]));
    Ok(())
}

fn exhaustive_small(cx: &mut Cx) -> R {
    // every pair of operands for small moduli
    let p = cx.idx + 2;
    let m = Modulus::new(p).lib("Modulus::new")?;
    let all: Vec<u64> = (0..p).collect();
    for b in 0..p {
        let s = m.shoup(b);
        let bv = vec![b; p as usize];
        for a in 0..p {
            check!(m.add(a, b) == (a + b) % p, "add", "{a}+{b} mod {p}");
            check!(m.sub(a, b) == (a + p - b) % p, "sub", "{a}-{b} mod {p}");
            check!(m.mul(a, b) == a * b % p, "mul", "{a}*{b} mod {p}");
            check!(m.mul_shoup(a, b, s) == a * b % p, "mul_shoup", "{a}*{b} mod {p}");
        }
        let mut v = all.clone();
        unsafe { m.sub_vec_vt(&mut v, &bv) };
        check!(v.iter().zip(&all).all(|(x, a)| *x == (a + p - b) % p), "sub_vec_vt", "mod {p} b={b}");
        let mut v = all.clone();
        m.mul_vec(&mut v, &bv);
        check!(v.iter().zip(&all).all(|(x, a)| *x == a * b % p), "mul_vec", "mod {p} b={b}");
        let i = m.inv(b);
        let e = if is_prime(p) { (1..p).find(|x| x * b % p == 1) } else { None };
        check!(i == e, "inv", "inv({b}) mod {p} = {i:?}");
    }
    for a in 0..4 * p {
        check!(m.reduce(a) == a % p, "reduce", "{a} mod {p}");
    }
    cx.ev("scalar-ops", 4 * p * p);
    cx.seen(("exh", p));
    Ok(())
}

fn prime_search(cx: &mut Cx) -> R {
    // primality
    for _ in 0..20 {
        let n = match cx.u(6) {
            0 => cx.u64() % 5000,
            1 => *cx.pick(&[
                2047u64, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
                3825123056546413051, 18446744073709551557, 18446744073709551615, 4294967291,
                5459, 5777, 10877, 561, 1105, 1729, 4759123141, 1122004669633,
                18446744073709551533, 9223372036854775783,
            ]),
            2 => {
                let b = cx.range(2, 32);
                let x = (cx.u64() >> (64 - b)) | 1;
                x.saturating_mul(x)
            }
            3 => {
                let b = cx.range(4, 31);
                let x = (cx.u64() >> (64 - b)) | 1;
                x.saturating_mul(2 * x.saturating_sub(1) + 1)
            }
            _ => {
                let b = cx.range(2, 64);
                (cx.u64() >> (64 - b)) | 1
            }
        };
        check!(fhe_util::is_prime(n) == is_prime(n), "is_prime", "is_prime({n}) = {}", fhe_util::is_prime(n));
        cx.ev("prime-decisions", 1);
    }
    // generate_prime returns a prime of the size asked, in the class asked,
    // below the bound, and the largest of them
    let bits = cx.range(8, 63);
    let k = cx.range(1, 17);
    let modulo = if cx.coin(1, 5) { 2 * cx.range(1, 5000) as u64 } else { 1u64 << k };
    let ub = if bits <= 62 {
        let full = 1u64 << bits;
        match cx.u(3) {
            0 => full,
            1 => (full / 2 + cx.u64() % (full / 2)).max(1),
            _ => full - cx.u64() % (full / 2),
        }
    } else {
        u64::MAX
    };
    let g = primes::generate_prime(bits, modulo, ub);
    cx.ev("prime-decisions", 1);
    if !(10..=62).contains(&bits) {
        check!(g.is_none(), "generate_prime", "generate_prime({bits},{modulo},{ub}) = {g:?} outside 10..=62");
        return Ok(());
    }
    if modulo < 1 << 20 {
        // reference search
        let lo = 1u64 << (bits - 1);
        let mut c = (ub - 1) as i128;
        while c >= 0 && c % modulo as i128 != 1 % modulo as i128 {
            c -= 1;
        }
        let mut want = None;
        let mut steps = 0;
        while c >= lo as i128 && steps < 200_000 {
            if is_prime(c as u64) {
                want = Some(c as u64);
                break;
            }
            c -= modulo as i128;
            steps += 1;
        }
        if steps < 200_000 {
            check!(g == want, "generate_prime", "generate_prime({bits},{modulo},{ub}) = {g:?}, expected {want:?}");
        }
    }
    cx.seen(("gp", bits, modulo));
    Ok(())
}

fn packing(cx: &mut Cx) -> R {
    let nb = cx.range(1, 64);
    let nb2 = cx.range(1, 64);
    let len = cx.u(80);
    let mask = u64::MAX >> (64 - nb);
    let a: Vec<u64> = (0..len)
        .map(|_| match cx.u(5) {
            0 => mask,
            1 => 0,
            _ => cx.u64() & mask,
        })
        .collect();
    // reference: one long little-endian bit string
    let mut n = num_bigint::BigUint::default();
    for (i, x) in a.iter().enumerate() {
        n |= big(*x) << (i * nb);
    }
    let total = len * nb;
    let by = fhe_util::transcode_to_bytes(&a, nb);
    let nbytes = total.div_ceil(8);
    let mut want = n.to_bytes_le();
    want.resize(nbytes.max(want.len()), 0);
    want.truncate(nbytes);
    check!(by == want, "transcode_to_bytes", "{len} values of {nb} bits: {by:?} vs {want:?}");
    // back: nb-bit groups of the byte string
    let groups = |n: &num_bigint::BigUint, bits: usize, nb: usize| -> Vec<u64> {
        (0..bits.div_ceil(nb))
            .map(|i| ((n >> (i * nb)) & big(u64::MAX >> (64 - nb))).to_u64().unwrap())
            .collect()
    };
    let back = fhe_util::transcode_from_bytes(&by, nb);
    let wb = groups(&n, nbytes * 8, nb);
    check!(back == wb && back[..len.min(back.len())] == a[..] , "transcode_from_bytes", "{len} values of {nb} bits: {back:?} vs {a:?}");
    let bi = fhe_util::transcode_bidirectional(&a, nb, nb2);
    let wi = groups(&n, total, nb2);
    check!(bi == wi, "transcode_bidirectional", "{len} values {nb}->{nb2}: {bi:?} vs {wi:?}");
    let mut rb = vec![0u8; cx.u(64)];
    cx.rng.fill_bytes(&mut rb);
    let x = fhe_util::transcode_from_bytes(&rb, nb);
    let nn = num_bigint::BigUint::from_bytes_le(&rb);
    check!(x == groups(&nn, rb.len() * 8, nb), "transcode_from_bytes", "bytes {rb:?} as {nb} bits: {x:?}");
    cx.ev("packing-ops", 4);
    cx.seen(("pack", nb, nb2, len % 8));
    let _ = cx.rng.random_range(0..2);
    Ok(())
}

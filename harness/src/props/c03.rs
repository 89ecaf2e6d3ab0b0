//! C03: RNS projection, lifting and scaling.
use crate::model::*;
use crate::mon::*;
use fhe_math::rns::{RnsContext, RnsScaler, ScalingFactor};
use ndarray::{Array1, ArrayView1};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use rand::Rng;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "a case is one basis (1..20 pairwise coprime moduli of 2..62 bits, NTT primes, small primes, prime powers, consecutive integers) and, for scaling, a second basis and a rational factor (1, t/Q, random large and small, even and odd denominators, integers); values sit at 0, +-1, around half the modulus, around rounding boundaries, and uniformly, plus residue vectors chosen to push the internal fixed-point sums in one direction. Distinct = distinct (bases, factor class, value class); non-trivial = the basis was accepted.",
        workloads: vec![
            Workload { name: "project-lift", weight: 3, max: 0, f: project_lift },
            Workload { name: "scale", weight: 5, max: 0, f: scale },
            Workload { name: "refuse", weight: 1, max: 30000, f: refuse },
        ],
        required: vec!["lifts", "scalings", "refused", "tie-boundary", "half-boundary", "partial-outputs"],
        finish: None,
    }
}

fn rand_big(cx: &mut Cx, bits: usize) -> BigUint {
    let mut v = vec![0u8; bits.div_ceil(8).max(1)];
    cx.rng.fill_bytes(&mut v);
    BigUint::from_bytes_le(&v) >> (8 * v.len() - bits)
}
fn below(cx: &mut Cx, q: &BigUint) -> BigUint {
    rand_big(cx, q.bits() as usize + 64) % q
}

pub fn basis(cx: &mut Cx, max: usize) -> Vec<u64> {
    let k = cx.range(1, max);
    let style = cx.u(5);
    let mut out: Vec<u64> = vec![];
    let mut tries = 0;
    while out.len() < k && tries < 400 {
        tries += 1;
        let c = match style {
            0 => (1u64 << 62) - 1 - cx.u64() % 4000,
            1 => {
                let b = cx.range(2, 62);
                (cx.u64() >> (64 - b)).max(2)
            }
            2 => {
                let b = if cx.coin(1, 2) { 62 } else { cx.range(20, 62) };
                let p = crate::gen_::primes(b as u32, 8);
                p[cx.u(p.len())]
            }
            3 => 2 + cx.u64() % 200,
            _ => {
                let p = crate::gen_::primes(62, 4096);
                p[cx.u(p.len())]
            }
        };
        if out.iter().all(|x| gcd(*x, c) == 1) {
            out.push(c);
        }
    }
    out
}

fn project_lift(cx: &mut Cx) -> R {
    let m = basis(cx, if cx.idx % 32 == 0 { 64 } else { 20 });
    let c = RnsContext::new(&m).lib("RnsContext::new")?;
    let crt = Crt::new(&m);
    check!(*c.modulus() == crt.q, "modulus", "modulus of {m:?} is {}", c.modulus());
    for i in 0..m.len() {
        let Some(g) = c.get_garner(i) else { viol!("garner", "garner {i} of {m:?} missing") };
        for (j, mj) in m.iter().enumerate() {
            check!((g % *mj) == if i == j { big(1 % *mj) } else { BigUint::zero() }, "garner", "garner {i} of {m:?} mod {mj}");
        }
    }
    check!(c.get_garner(m.len()).is_none(), "garner", "garner past the end");
    for k in 0..6 {
        let x = match k {
            0 => &crt.q - 1u32,
            1 => &crt.q >> 1,
            _ => {
                let e = cx.u(80);
                rand_big(cx, crt.q.bits() as usize + e)
            }
        };
        let r = c.project(&x);
        check!(r == crt.project(&int(&x)), "project", "project({x}) on {m:?} = {r:?}");
        let l = c.lift(ArrayView1::from(&r));
        check!(l == &x % &crt.q, "lift", "lift(project({x})) on {m:?} = {l}");
        let rr: Vec<u64> = m.iter().map(|q| crate::gen_::residue(cx, *q)).collect();
        let l = c.lift(ArrayView1::from(&rr));
        check!(l < crt.q && c.project(&l) == rr, "lift", "lift({rr:?}) on {m:?} = {l}");
        cx.ev("lifts", 2);
    }
    cx.seen(&m);
    cx.sample(|| format!("basis {m:?}"));
    Ok(())
}

fn scale(cx: &mut Cx) -> R {
    let from = basis(cx, if cx.idx % 32 == 0 { 64 } else if cx.idx % 4 == 0 { 20 } else { 6 });
    let to = if cx.coin(1, 4) {
        from[..cx.range(1, from.len())].to_vec()
    } else if cx.coin(1, 3) {
        let mut t = from.clone();
        for x in basis(cx, 6) {
            if t.iter().all(|y| gcd(x, *y) == 1) {
                t.push(x);
            }
        }
        t
    } else {
        basis(cx, 8)
    };
    let cf = Arc::new(RnsContext::new(&from).lib("RnsContext::new")?);
    let ct = Arc::new(RnsContext::new(&to).lib("RnsContext::new")?);
    let (q, p) = (prod(&from), prod(&to));
    let fclass = cx.u(9);
    let (num, den) = match fclass {
        0 => (BigUint::one(), BigUint::one()),
        1 => (big(2 + cx.u64() % (1 << 40)), q.clone()),
        2 => (p.clone(), q.clone()),
        3 => (big(cx.u64() >> cx.range(1, 60)), big(1 + (cx.u64() >> cx.range(1, 63)))),
        4 => {
            let b = cx.range(1, 300);
            let d = cx.range(1, 300);
            (rand_big(cx, b), rand_big(cx, d) + 1u32)
        }
        5 => (big(1 + cx.u64() % 50), BigUint::one()),
        6 => (big(1), big(2 + cx.u64() % 10)),
        7 => (BigUint::one(), big(1) << cx.range(1, 100)),
        _ => {
            let g = rand_big(cx, 40) + 1u32;
            (&g * 3u32, &g * 2u32)
        }
    };
    let s = RnsScaler::new(&cf, &ct, ScalingFactor::new(&num, &den));
    let crt = Crt::new(&from);
    let (bn, bd) = (int(&num), int(&den));
    let cls = cx.u(7);
    for _ in 0..8 {
        let rests: Vec<u64> = match cls {
            0 => from.iter().map(|m| crate::gen_::residue(cx, *m)).collect(),
            1 => {
                // around half the modulus
                let d = cx.u64() % 5;
                let x = (&q >> 1) + if cx.coin(1, 2) { BigUint::zero() } else { &q - 2u32 } + d;
                cx.ev("half-boundary", 1);
                crt.project(&int(&(x % &q)))
            }
            2 => {
                // near a rounding boundary: x * num / den close to k + 1/2
                let k = below(cx, &q);
                if num.is_zero() {
                    crt.project(&int(&k))
                } else {
                    let kk = &k * &num / &den;
                    let x = ((kk * 2u32 + 1u32) * &den / (&num * 2u32)) + cx.u64() % 3;
                    cx.ev("tie-boundary", 1);
                    crt.project(&int(&(x % &q)))
                }
            }
            3 | 4 => {
                // push the internal sum of fractional parts in one direction
                let up = cls == 3;
                (0..from.len())
                    .map(|i| {
                        let r = (cf.get_garner(i).unwrap() * &num) % &den;
                        let pos = r < (&den >> 1usize);
                        if pos == up { from[i] - 1 - cx.u64() % 2.min(from[i]) } else { cx.u64() % 2.min(from[i]) }
                    })
                    .collect()
            }
            _ => crt.project(&int(&below(cx, &q))),
        };
        let x = crt.lift(&rests);
        let results = scale_candidates(&x, &q, from.len(), &bn, &bd);
        let expect: Vec<Vec<u64>> = results.iter().map(|r| to.iter().map(|m| modu(r, *m)).collect()).collect();
        let start = cx.u(to.len());
        let len = cx.range(1, to.len() - start);
        let full = s.scale_new(ArrayView1::from(&rests), to.len());
        check!(
            expect.contains(&full),
            "scale",
            "scaling {rests:?} (x = {x}) of basis {from:?} by {num}/{den} into {to:?}: got {full:?}, expected {:?}",
            expect[0]
        );
        let mut part = Array1::from_elem(len, u64::MAX);
        s.scale(ArrayView1::from(&rests), part.view_mut(), start);
        check!(part.as_slice().unwrap() == &full[start..start + len], "scale-part", "scaling {rests:?} of {from:?} by {num}/{den} into {to:?}[{start}..{}]: {part:?} vs {full:?}", start + len);
        cx.ev("scalings", 1);
        cx.ev("partial-outputs", 1);
    }
    cx.seen((&from, &to, fclass, cls));
    cx.sample(|| format!("{from:?} -> {to:?} by {num}/{den}, values of class {cls}"));
    Ok(())
}

fn refuse(cx: &mut Cx) -> R {
    check!(RnsContext::new(&[]).is_err(), "refuse-empty", "the empty basis was accepted");
    let mut m = basis(cx, 6);
    let i = cx.u(m.len());
    match cx.u(4) {
        0 => m.push(m[i]),
        1 => {
            let g = m[i] as u128 * (1 + cx.u64() % 3) as u128;
            if g >= 1 << 62 {
                return Ok(());
            }
            let at = cx.u(m.len() + 1);
            m.insert(at, g as u64);
        }
        2 => {
            let bad = *cx.pick(&[0u64, 1 << 62, u64::MAX, (1 << 63) + 1]);
            let at = cx.u(m.len() + 1);
            m.insert(at, bad);
        }
        _ => {
            let f = *cx.pick(&[2u64, 3, 5]);
            let a = f * (1 + cx.u64() % (1 << 50));
            let b = f * (1 + cx.u64() % (1 << 50));
            m = vec![a, b];
        }
    }
    check!(RnsContext::new(&m).is_err(), "refuse", "basis {m:?} was accepted");
    cx.ev("refused", 1);
    cx.seen(("refuse", &m));
    Ok(())
}

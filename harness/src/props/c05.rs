//! C05: changing the modulus of polynomials.
use super::polyhist::vt;
use crate::gen_::{ctx, moduli, residue, residues};
use crate::model::*;
use crate::mon::*;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, Poly, PowerBasis};
use num_bigint::{BigInt, BigUint};
use num_traits::One;
use rand::Rng;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C05",
        rule: "a case is a chain of 1..9 moduli (10..62 bits, degree 8..64) and a polynomial whose coefficients sit on rounding boundaries of the modulus to drop, at the ends and middle of the range, or anywhere; it is switched down step by step or at once with ring operations in between, or scaled/switched to another chain (identity prefix, disjoint, longer, shorter) in both representations; every coefficient is compared with exact rational rounding. Distinct = distinct (chain, target, value class); non-trivial = the modulus changed.",
        workloads: vec![
            Workload { name: "switch-down", weight: 4, max: 0, f: switch_down },
            Workload { name: "scale", weight: 4, max: 0, f: scale },
            Workload { name: "chain", weight: 2, max: 40000, f: chain },
        ],
        required: vec!["switch-downs", "scalings", "switches", "chain-queries", "refused-targets", "boundary-coefficients", "interleaved-ops", "identity-prefix"],
        finish: None,
    }
}

fn rows_of(p: &Poly<PowerBasis>) -> Vec<Vec<u64>> {
    p.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}

/// Values in [0, Q), column by column.
fn values(cx: &mut Cx, crt: &Crt, n: usize) -> Vec<BigUint> {
    let cls = cx.u(5);
    let q = &crt.q;
    let last = *crt.moduli.last().unwrap();
    (0..n)
        .map(|_| match cls {
            0 => {
                // k * q_last + q_last/2 +- 1
                cx.ev("boundary-coefficients", 1);
                let mut b = vec![0u8; (q.bits() as usize).div_ceil(8) + 8];
                cx.rng.fill_bytes(&mut b);
                let x = BigUint::from_bytes_le(&b) % q;
                let x = &x - (&x % last) + last / 2 + cx.u64() % 3;
                x % q
            }
            1 => {
                let d = cx.u64() % 4;
                match cx.u(3) {
                    0 => big(d) % q,
                    1 => (q - 1u32 - d.min(1)) % q,
                    _ => ((q >> 1) + d) % q,
                }
            }
            2 => crt.lift(&crt.moduli.iter().map(|m| residue(cx, *m)).collect::<Vec<_>>()),
            _ => {
                let mut b = vec![0u8; (q.bits() as usize).div_ceil(8) + 8];
                cx.rng.fill_bytes(&mut b);
                BigUint::from_bytes_le(&b) % q
            }
        })
        .collect()
}

fn make(cx: &mut Cx, c: &Arc<Context>, v: &[BigUint], flag: bool) -> R<Poly<PowerBasis>> {
    let _ = cx;
    if flag {
        Poly::<PowerBasis>::try_convert_from_public(v, c, vt()).lib("from-big")
    } else {
        Poly::<PowerBasis>::try_convert_from(v, c, false).lib("from-big")
    }
}

fn switch_down(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(3);
    let k = cx.range(2, if cx.idx % 5 == 0 { 9 } else { 4 });
    let (lo, hi) = *cx.pick(&[(62u32, 62u32), (10, 62), (10, 20), (50, 62)]);
    let m = moduli(cx, n, k, lo, hi);
    if m.len() < 2 {
        return Err(Fail::Skip("no primes"));
    }
    let c = ctx(&m, n)?;
    let crt = Crt::new(&m);
    let flag = cx.coin(1, 2);
    let mut v = values(cx, &crt, n);
    let mut p = make(cx, &c, &v, flag)?;
    let mut cur = m.clone();
    while cur.len() > 1 {
        // either one step, or several at once
        let drop = cx.range(1, cur.len() - 1);
        let target = cx.coin(1, 2);
        if target {
            let t = ctx(&cur[..cur.len() - drop], n)?;
            p.switch_down_to(&t).lib("switch_down_to")?;
        }
        for _ in 0..drop {
            let last = cur.pop().unwrap();
            let qn = prod(&cur);
            v = v.iter().map(|x| ((x + last / 2) / last) % &qn).collect();
            if !target {
                p.switch_down().lib("switch_down")?;
            }
        }
        check!(p.ctx().moduli() == cur.as_slice(), "switch-context", "after dropping {drop} of {m:?} the context is {:?}", p.ctx().moduli());
        let crt = Crt::new(&cur);
        let rows = rows_of(&p);
        for (j, x) in v.iter().enumerate() {
            let e = crt.project(&int(x));
            let g: Vec<u64> = rows.iter().map(|r| r[j]).collect();
            check!(g == e, "switch-down", "chain {m:?} down to {} moduli (policy {flag}): coefficient {j} is {g:?}, expected {e:?}", cur.len());
        }
        check!(flag || !p.allows_variable_time_computations(), "switch-policy", "switching down granted variable time");
        cx.ev("switch-downs", drop as u64);
        if cx.coin(1, 2) {
            // keep computing at this level
            let c2 = ctx(&cur, n)?;
            let w = values(cx, &crt, n);
            let o = make(cx, &c2, &w, flag)?;
            p = &p + &o;
            v = v.iter().zip(&w).map(|(a, b)| (a + b) % &crt.q).collect();
            p = -p;
            v = v.iter().map(|a| (&crt.q - a) % &crt.q).collect();
            p = p.into_ntt().into_power_basis();
            cx.ev("interleaved-ops", 3);
        }
    }
    let before = p.clone();
    check!(p.switch_down().is_err(), "switch-past-end", "switched below the last modulus");
    check!(p == before, "switch-past-end", "a refused switch changed the polynomial");
    cx.seen((&m, n, flag));
    cx.sample(|| format!("degree {n}, chain {m:?} switched down to one modulus"));
    Ok(())
}

fn scale(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(3);
    let k = cx.range(1, if cx.idx % 6 == 0 { 14 } else { 5 });
    let (lo, hi) = *cx.pick(&[(62u32, 62u32), (10, 62), (45, 62)]);
    let from = moduli(cx, n, k, lo, hi);
    let to = match cx.u(4) {
        0 => from[..cx.range(1, from.len())].to_vec(),
        1 => {
            let mut t = from.clone();
            let e = cx.range(1, 4);
            for x in moduli(cx, n, e, lo, hi) {
                if !t.contains(&x) {
                    t.push(x);
                }
            }
            t
        }
        2 => {
            let mut t = from[..cx.u(from.len())].to_vec();
            for x in moduli(cx, n, 3, lo, hi) {
                if !t.contains(&x) {
                    t.push(x);
                }
            }
            t
        }
        _ => {
            let e = cx.range(1, 5);
            moduli(cx, n, e, lo, hi)
        }
    };
    if from.is_empty() || to.is_empty() {
        return Err(Fail::Skip("no primes"));
    }
    let (cf, ct) = (ctx(&from, n)?, ctx(&to, n)?);
    let (q, pq) = (prod(&from), prod(&to));
    let use_switcher = cx.coin(1, 3);
    let one = BigUint::one();
    let (num, den) = if use_switcher {
        (pq.clone(), q.clone())
    } else {
        match cx.u(5) {
            0 | 1 => (one.clone(), one.clone()),
            2 => (big(cx.u64() >> cx.range(4, 60)), q.clone()),
            3 => (big(cx.u64() >> cx.range(1, 62)) + 1u32, big(cx.u64() >> cx.range(1, 62)) + 1u32),
            _ => (pq.clone(), q.clone()),
        }
    };
    if num == den && from[0] == to[0] {
        cx.ev("identity-prefix", 1);
    }
    let crt = Crt::new(&from);
    let crt_to = Crt::new(&to);
    let flag = cx.coin(1, 2);
    let v = values(cx, &crt, n);
    let p = make(cx, &cf, &v, flag)?;
    let before = p.clone();
    let pn = p.clone().into_ntt();
    let (r, rn): (Poly<PowerBasis>, Poly<Ntt>) = if use_switcher {
        let s = Switcher::new(&cf, &ct).lib("Switcher::new")?;
        cx.ev("switches", 1);
        (p.switch(&s).lib("switch")?, pn.switch(&s).lib("switch")?)
    } else {
        let s = Scaler::new(&cf, &ct, ScalingFactor::new(&num, &den)).lib("Scaler::new")?;
        cx.ev("scalings", 1);
        (p.scale(&s).lib("scale")?, pn.scale(&s).lib("scale")?)
    };
    check!(p == before, "scale-operand", "scaling changed its operand");
    check!(r.ctx().moduli() == to.as_slice() && rn.ctx().moduli() == to.as_slice(), "scale-context", "scaled polynomial is in another context");
    check!(flag || !(r.allows_variable_time_computations() || rn.allows_variable_time_computations()), "scale-policy", "scaling granted variable time");
    let rows = rows_of(&r);
    let rows_n = rows_of(&rn.to_power_basis());
    check!(rows == rows_n, "scale-representation", "scaling {from:?} -> {to:?} by {num}/{den} differs between representations");
    let (bn, bd): (BigInt, BigInt) = (int(&num), int(&den));
    for (j, x) in v.iter().enumerate() {
        let g: Vec<u64> = rows.iter().map(|r| r[j]).collect();
        let c = scale_candidates(x, &q, from.len(), &bn, &bd);
        let ok = c.iter().any(|e| crt_to.project(e) == g);
        check!(ok, "scale", "scaling {from:?} -> {to:?} by {num}/{den} (policy {flag}): coefficient {j} = {x} gives {g:?}, expected {:?}", crt_to.project(&c[0]));
    }
    // a polynomial of another context is refused
    let other = moduli(cx, n, 2, 30, 40);
    if other.len() == 2 && other != from {
        let o = Poly::<PowerBasis>::zero(&ctx(&other, n)?);
        let s = Scaler::new(&cf, &ct, ScalingFactor::new(&num, &den)).lib("Scaler::new")?;
        check!(o.scale(&s).is_err(), "scale-mismatch", "a polynomial of {other:?} was scaled by a scaler for {from:?}");
        let c2 = ctx(&moduli(cx, 2 * n, 1, 30, 40), 2 * n)?;
        check!(Scaler::new(&cf, &c2, ScalingFactor::one()).is_err(), "scale-mismatch", "a scaler between degrees was built");
        cx.ev("refused-targets", 2);
    }
    cx.seen((&from, &to, &num, &den));
    cx.sample(|| format!("degree {n}: {from:?} -> {to:?} by {num}/{den}"));
    Ok(())
}

fn chain(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(2);
    let k = cx.range(1, 8);
    let m = moduli(cx, n, k, 20, 62);
    if m.is_empty() {
        return Err(Fail::Skip("no primes"));
    }
    let c = ctx(&m, n)?;
    for i in 0..m.len() {
        let at = c.context_at_level(i).lib("context_at_level")?;
        check!(at.moduli() == &m[..m.len() - i], "chain-level", "level {i} of {m:?} is {:?}", at.moduli());
        check!(*at.modulus() == prod(&m[..m.len() - i]), "chain-modulus", "modulus of level {i} of {m:?}");
        // an equal context built elsewhere is the same place
        let mine = Arc::new(Context::new(&m[..m.len() - i], n).lib("Context::new")?);
        check!(c.niterations_to(&mine).ok() == Some(i), "chain-distance", "distance from {m:?} to its level {i}: {:?}", c.niterations_to(&mine).ok());
        for j in 0..m.len() {
            let b = c.context_at_level(j).lib("context_at_level")?;
            let d = at.niterations_to(&b).ok();
            let e = if j >= i { Some(j - i) } else { None };
            check!(d == e, "chain-distance", "from level {i} to {j} of {m:?}: {d:?}");
        }
        cx.ev("chain-queries", 2 + m.len() as u64);
    }
    check!(c.context_at_level(m.len()).is_err(), "chain-level", "a level past the end of {m:?}");
    // targets that are not on the chain
    let v = residues(cx, n, m[0]);
    let mut p = Poly::<PowerBasis>::try_convert_from(v.repeat(1), &ctx(&m[..1], n)?, false).lib("from-residues")?;
    let mut bad = vec![];
    if m.len() > 1 {
        bad.push(ctx(&m[1..], n)?);
        let mut r = m.clone();
        r.reverse();
        if r[..1] != m[..1] {
            bad.push(ctx(&r[..1], n)?);
            bad.push(ctx(&r, n)?);
        }
        bad.push(ctx(&m, n)?);
    }
    let nn = moduli(cx, 2 * n, 1, 20, 62);
    bad.push(ctx(&nn, 2 * n)?);
    let before = p.clone();
    for b in &bad {
        check!(p.switch_down_to(b).is_err(), "chain-refuse", "switched {:?} to {:?}", &m[..1], b.moduli());
        check!(p == before, "chain-refuse", "a refused switch changed the polynomial");
        cx.ev("refused-targets", 1);
    }
    let rows: Vec<Vec<u64>> = m.iter().map(|q| residues(cx, n, *q)).collect();
    let mut p = Poly::<PowerBasis>::try_convert_from(rows.concat(), &c, false).lib("from-residues")?;
    let before = p.clone();
    for b in &bad {
        if b.moduli() == m.as_slice() {
            continue;
        }
        check!(p.switch_down_to(b).is_err(), "chain-refuse", "switched {m:?} to {:?}", b.moduli());
        check!(p == before, "chain-refuse", "a refused switch changed the polynomial");
        cx.ev("refused-targets", 1);
    }
    cx.seen((&m, n));
    Ok(())
}

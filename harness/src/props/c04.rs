//! C04: polynomial arithmetic.
use super::polyhist::{Judge, history, vt};
use crate::gen_::{ctx, primes, residues};
use crate::model::*;
use crate::mon::*;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Ntt, Poly, PowerBasis, SubstitutionExponent, dot_product};
use ndarray::Array2;

pub fn property() -> Property {
    Property {
        id: "C04",
        rule: "a case is one history: a context (degree 8..128, 1..8 moduli of 10..62 bits), a pool of polynomials from every constructor, and 4..16 random operations in random representations, forms and execution policies; every result is compared coefficient by coefficient with schoolbook arithmetic. A second workload uses degrees up to 32768 with evaluation at roots. Distinct = distinct history; non-trivial = at least one operation was judged.",
        workloads: vec![
            Workload { name: "histories", weight: 8, max: 0, f: |cx| history(cx, Judge::Value) },
            Workload { name: "large-degree", weight: 1, max: 0, f: large },
            Workload { name: "layout", weight: 1, max: 2000, f: layout },
        ],
        required: vec![
            "op:add", "op:sub", "op:mul", "op:mul-shoup", "op:scalar-mul", "op:neg", "op:substitute", "op:monomial",
            "op:convert", "op:dot", "op:serialize", "op:lazy-mul", "op:observe", "dot-products-with-reduction", "large-products",
        ],
        finish: None,
    }
}

fn eval(a: &[u64], r: u64, p: u64) -> u64 {
    a.iter().rev().fold(0, |acc, c| addmod(mulmod(acc, r, p), *c, p))
}

/// Large degrees: products and substitutions checked at roots of x^n+1 found
/// independently.
fn large(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(8, if cx.idx % 4 == 0 { 16 } else { 12 });
    let k = cx.range(1, 3);
    let mut m = vec![];
    for _ in 0..k {
        let b = *cx.pick(&[30u32, 40, 50, 59, 60, 61, 62]);
        let p = primes(b, n);
        if p.is_empty() {
            continue;
        }
        let q = p[cx.u(p.len().min(3))];
        if !m.contains(&q) {
            m.push(q);
        }
    }
    if m.is_empty() {
        return Err(Fail::Skip("no primes"));
    }
    let c = ctx(&m, n)?;
    let a: Vec<Vec<u64>> = m.iter().map(|q| residues(cx, n, *q)).collect();
    let b: Vec<Vec<u64>> = m.iter().map(|q| residues(cx, n, *q)).collect();
    let flag = cx.coin(1, 2);
    let pa = Poly::<PowerBasis>::try_convert_from(a.concat(), &c, flag).lib("from-residues")?;
    let pb = Poly::<PowerBasis>::try_convert_from(b.concat(), &c, flag).lib("from-residues")?;
    let (na, nb) = (pa.clone().into_ntt(), pb.clone().into_ntt());
    let prod = (&na * &nb).to_power_basis();
    let sh = (&na * &pb.clone().into_ntt_shoup()).to_power_basis();
    let len = cx.range(1, 20);
    let dot = dot_product(vec![na.clone(); len].iter(), vec![nb.clone(); len].iter()).lib("dot_product")?.into_power_basis();
    let e = 2 * cx.u(n) + 1;
    let se = SubstitutionExponent::new(&c, e).lib("SubstitutionExponent::new")?;
    let s1 = na.substitute(&se).lib("substitute")?.into_power_basis();
    let s2 = pa.substitute(&se).lib("substitute")?;
    check!(s1 == s2, "large:substitute", "degree {n} exponent {e}: substitution differs between representations");
    for (i, q) in m.iter().enumerate() {
        check!(s2.coefficients().row(i).as_slice().unwrap() == substitute(&a[i], e, *q).as_slice(), "large:substitute", "degree {n} modulus {q} exponent {e}");
        for _ in 0..3 {
            // a root of x^n + 1
            let r = loop {
                let g = 2 + cx.u64() % (q - 2);
                let r = powmod(g, (q - 1) / (2 * n as u64), *q);
                if powmod(r, n as u64, *q) == q - 1 {
                    break r;
                }
            };
            let want = mulmod(eval(&a[i], r, *q), eval(&b[i], r, *q), *q);
            for (w, p) in [("mul", &prod), ("mul-shoup", &sh)] {
                let row = p.coefficients().row(i).to_vec();
                check!(row.iter().all(|x| x < q) && eval(&row, r, *q) == want, format!("large:{w}"), "degree {n} modulus {q}: {w} wrong at root {r}");
            }
            let row = dot.coefficients().row(i).to_vec();
            check!(eval(&row, r, *q) == mulmod(want, len as u64 % q, *q), "large:dot", "degree {n} modulus {q}: dot product of {len} equal pairs wrong at root {r}");
        }
    }
    cx.ev("large-products", 3 * m.len() as u64);
    cx.seen(("large", n, &m, e));
    Ok(())
}

/// Residue matrices in any memory layout denote the same polynomial.
fn layout(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(3);
    let m: Vec<u64> = primes(50, n)[..3].to_vec();
    let c = ctx(&m, n)?;
    let rows: Vec<Vec<u64>> = m.iter().map(|q| residues(cx, n, *q)).collect();
    let mut t = Array2::<u64>::zeros((n, 3));
    for i in 0..3 {
        for j in 0..n {
            t[[j, i]] = rows[i][j];
        }
    }
    let a = t.reversed_axes();
    let p = Poly::<PowerBasis>::try_convert_from_public(a, &c, vt()).lib("from-array")?;
    let q = Poly::<PowerBasis>::try_convert_from(rows.concat(), &c, false).lib("from-residues")?;
    check!(p == q, "layout:eq", "column-major residues give another polynomial");
    let (x, y): (Poly<Ntt>, Poly<Ntt>) = (p.clone().into_ntt(), q.clone().into_ntt());
    check!(x == y && &p + &q == &q + &q, "layout:ops", "column-major residues behave differently");
    cx.seen(("layout", rows));
    Ok(())
}

//! C02: the NTT is an exact, invertible evaluation map.
use crate::gen_::{primes, residues};
use crate::model::*;
use crate::mon::*;
use fhe_math::ntt::NttOperator;
use fhe_math::zq::Modulus;

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "a case is one (size, modulus) with several coefficient vectors (extreme, sparse, small, random residues); the evaluation points are read off the transform of x, checked to be the distinct roots of x^n+1, and every transform is compared with direct evaluation, inverted both ways, and multiplied pointwise against schoolbook negacyclic multiplication. Distinct = distinct (size, modulus, vector class); non-trivial = the operator was built.",
        workloads: vec![
            Workload { name: "small", weight: 6, max: 0, f: small },
            Workload { name: "large", weight: 2, max: 0, f: large },
            Workload { name: "refuse", weight: 1, max: 20000, f: refuse },
        ],
        required: vec!["evaluations", "round-trips", "products", "refusals", "large-transforms"],
        finish: None,
    }
}

fn pick_prime(cx: &mut Cx, n: usize) -> R<u64> {
    let lo = (2 * n as u64).ilog2() + 1;
    let b = if cx.coin(1, 3) { 62 } else { cx.range(lo as usize, 62) as u32 };
    let p = primes(b, n);
    if p.is_empty() {
        // the smallest prime of the class
        let mut c = 2 * n as u64 + 1;
        while !is_prime(c) {
            c += 2 * n as u64;
        }
        return Ok(c);
    }
    Ok(p[cx.u(p.len())])
}

fn roundtrip(op: &NttOperator, n: usize, p: u64, a: &[u64]) -> R<Vec<u64>> {
    let mut f = a.to_vec();
    op.forward(&mut f);
    let mut fv = a.to_vec();
    unsafe { op.forward_vt(fv.as_mut_ptr()) };
    check!(f == fv, "forward_vt", "size {n} modulus {p}: forward_vt differs from forward on {:?}..", &a[..8]);
    check!(f.iter().all(|x| *x < p), "forward-canonical", "size {n} modulus {p}: forward leaves residues >= p");
    let mut b = f.clone();
    op.backward(&mut b);
    check!(b == a, "backward-of-forward", "size {n} modulus {p}: backward(forward(a)) != a, a = {:?}..", &a[..8]);
    let mut b = f.clone();
    unsafe { op.backward_vt(b.as_mut_ptr()) };
    check!(b == a, "backward_vt", "size {n} modulus {p}: backward_vt(forward(a)) != a, a = {:?}..", &a[..8]);
    // the other direction: a taken as a transform
    let mut g = a.to_vec();
    op.backward(&mut g);
    check!(g.iter().all(|x| *x < p), "backward-canonical", "size {n} modulus {p}: backward leaves residues >= p");
    let mut gv = a.to_vec();
    unsafe { op.backward_vt(gv.as_mut_ptr()) };
    check!(g == gv, "backward_vt", "size {n} modulus {p}: backward_vt differs from backward");
    op.forward(&mut g);
    check!(g == a, "forward-of-backward", "size {n} modulus {p}: forward(backward(a)) != a, a = {:?}..", &a[..8]);
    Ok(f)
}
fn eval(a: &[u64], r: u64, p: u64) -> u64 {
    a.iter().rev().fold(0, |acc, c| addmod(mulmod(acc, r, p), *c, p))
}
fn points(op: &NttOperator, n: usize, p: u64) -> R<Vec<u64>> {
    let mut x = vec![0u64; n];
    x[1] = 1;
    op.forward(&mut x);
    let mut s = x.clone();
    s.sort_unstable();
    s.dedup();
    check!(s.len() == n, "points-distinct", "size {n} modulus {p}: evaluation points repeat");
    for r in &x {
        check!(powmod(*r, n as u64, p) == p - 1, "points-roots", "size {n} modulus {p}: {r} is not a root of x^n+1");
    }
    Ok(x)
}

fn small(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(3, 8);
    let p = pick_prime(cx, n)?;
    let m = Modulus::new(p).lib("Modulus::new")?;
    let op = NttOperator::new(&m, n);
    check!(op.is_some(), "accepts", "size {n} modulus {p} refused");
    let op = op.unwrap();
    // Operators made separately must be interchangeable: contexts of
    // different parties and levels each make their own.
    let op2 = NttOperator::new(&m, n).unwrap();
    let pts = points(&op, n, p)?;
    for _ in 0..2 {
        let a = residues(cx, n, p);
        let b = residues(cx, n, p);
        let fa = roundtrip(&op, n, p, &a)?;
        let fb = roundtrip(&op2, n, p, &b)?;
        for i in 0..n {
            let e = eval(&a, pts[i], p);
            check!(fa[i] == e, "evaluation", "size {n} modulus {p}: component {i} is {}, the polynomial {a:?} is {e} at {}", fa[i], pts[i]);
        }
        cx.ev("evaluations", n as u64);
        cx.ev("round-trips", 4);
        let mut c: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| mulmod(*x, *y, p)).collect();
        op.backward(&mut c);
        check!(c == negacyclic(&a, &b, p), "convolution", "size {n} modulus {p}: pointwise product of {a:?} and {b:?} is not the negacyclic product");
        cx.ev("products", 1);
    }
    cx.seen((n, p));
    cx.sample(|| format!("size {n}, modulus {p}, points {:?}..", &pts[..3]));
    Ok(())
}

fn large(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(9, if cx.idx % 5 == 0 { 16 } else { 13 });
    let p = pick_prime(cx, n)?;
    let m = Modulus::new(p).lib("Modulus::new")?;
    let Some(op) = NttOperator::new(&m, n) else { viol!("accepts", "size {n} modulus {p} refused") };
    let pts = points(&op, n, p)?;
    let a = residues(cx, n, p);
    let fa = roundtrip(&op, n, p, &a)?;
    for k in 0..12 {
        let i = match k {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => cx.u(n),
        };
        let e = eval(&a, pts[i], p);
        check!(fa[i] == e, "evaluation", "size {n} modulus {p}: component {i} is {}, expected {e}", fa[i]);
    }
    // linearity over every component
    let b = residues(cx, n, p);
    let fb = roundtrip(&op, n, p, &b)?;
    let k = cx.u64() % p;
    let mut c: Vec<u64> = a.iter().zip(&b).map(|(x, y)| addmod(mulmod(k, *x, p), *y, p)).collect();
    op.forward(&mut c);
    for i in 0..n {
        check!(c[i] == addmod(mulmod(k, fa[i], p), fb[i], p), "linearity", "size {n} modulus {p}: component {i}");
    }
    cx.ev("evaluations", 12);
    cx.ev("round-trips", 8);
    cx.ev("large-transforms", 3);
    cx.seen((n, p));
    Ok(())
}

fn refuse(cx: &mut Cx) -> R {
    let n = 1usize << cx.range(3, 16);
    let c = match cx.u(4) {
        // composite of the right class
        0 => {
            let a = (cx.u64() % (1 << 20)) * 2 * n as u64 + 1;
            let b = (cx.u64() % 8) * 2 * n as u64 + 1;
            a.saturating_mul(b)
        }
        1 => pick_prime(cx, n / 2 + 4 - n / 2 % 4)?,
        2 => {
            // prime of the class of a smaller size
            let k = if n > 8 { n / 2 } else { 4 };
            pick_prime(cx, k)?
        }
        _ => {
            let b = cx.range(2, 62);
            (cx.u64() >> (64 - b)) | 1
        }
    };
    if !(2..1 << 62).contains(&c) {
        return Ok(());
    }
    let m = Modulus::new(c).lib("Modulus::new")?;
    let want = is_prime(c) && c % (2 * n as u64) == 1;
    let got = NttOperator::new(&m, n).is_some();
    check!(got == want, "admissible", "size {n} modulus {c}: operator {}", if got { "built" } else { "refused" });
    cx.ev("refusals", !want as u64);
    cx.seen(("r", n, c));
    Ok(())
}

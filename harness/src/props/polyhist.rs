//! Random histories of polynomial operations, judged by schoolbook arithmetic
//! on residues (C04) and by the execution-policy rules (C18).
use crate::gen_::{rand_ctx, residues};
use crate::model::*;
use crate::mon::*;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, dot_product};
use fhe_traits::{DeserializeWithContext, PublicData, Serialize, VariableTime};
use ndarray::Array2;
use num_bigint::{BigInt, BigUint};
use rand::Rng;
use std::sync::Arc;
use zeroize::Zeroize;

pub fn vt() -> VariableTime {
    VariableTime::new(PublicData::assert_public())
}

#[derive(Clone)]
pub enum P {
    B(Poly<PowerBasis>),
    N(Poly<Ntt>),
    S(Poly<NttShoup>),
}
#[derive(Clone)]
pub struct M {
    /// residues in the power basis, one row per modulus
    pub rows: Vec<Vec<u64>>,
    /// may the polynomial permit variable-time computation?
    pub vt: bool,
}
impl P {
    pub fn flag(&self) -> bool {
        match self {
            P::B(p) => p.allows_variable_time_computations(),
            P::N(p) => p.allows_variable_time_computations(),
            P::S(p) => p.allows_variable_time_computations(),
        }
    }
    pub fn repr(&self) -> &'static str {
        match self {
            P::B(_) => "power-basis",
            P::N(_) => "ntt",
            P::S(_) => "shoup",
        }
    }
    fn set(&mut self, on: bool) {
        macro_rules! s {
            ($p:expr) => {
                if on { $p.allow_variable_time_computations(vt()) } else { $p.disallow_variable_time_computations() }
            };
        }
        match self {
            P::B(p) => s!(p),
            P::N(p) => s!(p),
            P::S(p) => s!(p),
        }
    }
    fn pb(&self) -> Poly<PowerBasis> {
        match self {
            P::B(p) => p.to_power_basis(),
            P::N(p) => p.to_power_basis(),
            P::S(p) => p.to_power_basis(),
        }
    }
    fn raw(&self) -> Vec<Vec<u64>> {
        let rows = |a: ndarray::ArrayView2<'_, u64>| a.outer_iter().map(|r| r.to_vec()).collect();
        match self {
            P::B(p) => rows(p.coefficients()),
            P::N(p) => rows(p.coefficients()),
            P::S(p) => rows(p.coefficients()),
        }
    }
}

/// Which of the two properties is being judged.
#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Value,
    Policy,
}

struct H {
    ctx: Arc<Context>,
    moduli: Vec<u64>,
    n: usize,
    judge: Judge,
}
impl H {
    fn verify(&self, cx: &mut Cx, p: &P, m: &M, op: &str) -> R {
        cx.ev("results-checked", 1);
        if self.judge == Judge::Policy {
            if p.flag() {
                check!(m.vt, format!("policy:{op}"), "{op} in {} representation: result permits variable time although an operand did not; history {:?}", p.repr(), cx.trace);
            }
            return Ok(());
        }
        for (r, q) in p.raw().iter().zip(&self.moduli) {
            check!(r.len() == self.n && r.iter().all(|x| x < q), format!("canonical:{op}"), "{op}: residue >= modulus {q}; degree {} moduli {:?} history {:?}", self.n, self.moduli, cx.trace);
        }
        let b = p.pb();
        for (i, r) in b.coefficients().outer_iter().enumerate() {
            if r.as_slice().unwrap() != m.rows[i].as_slice() {
                let at = r.iter().zip(&m.rows[i]).position(|(x, y)| x != y);
                viol!(
                    format!("value:{op}"),
                    "{op} in {} representation: row {i} (modulus {}) first differs at coefficient {at:?}; degree {}, moduli {:?}, history {:?}",
                    p.repr(), self.moduli[i], self.n, self.moduli, cx.trace
                );
            }
        }
        Ok(())
    }
    fn fresh(&self, cx: &mut Cx) -> R<(P, M)> {
        let flag = cx.coin(1, 2);
        let src = cx.u(12);
        let (n, k) = (self.n, self.moduli.len());
        cx.tr(format!("fresh{src}{}", if flag { "v" } else { "c" }));
        let rows: Vec<Vec<u64>>;
        let pb: P = match src {
            0..=3 => {
                let r: Vec<Vec<u64>> = self.moduli.iter().map(|q| residues(cx, n, *q)).collect();
                let flat: Vec<u64> = r.concat();
                rows = r;
                if cx.coin(1, 2) {
                    let a = Array2::from_shape_vec((k, n), flat).unwrap();
                    P::B(if flag { Poly::<PowerBasis>::try_convert_from_public(a, &self.ctx, vt()) } else { Poly::<PowerBasis>::try_convert_from(a, &self.ctx, false) }.lib("from-array")?)
                } else {
                    P::B(if flag { Poly::<PowerBasis>::try_convert_from_public(flat, &self.ctx, vt()) } else { Poly::<PowerBasis>::try_convert_from(flat, &self.ctx, false) }.lib("from-residues")?)
                }
            }
            4 => {
                // integers, any u64, possibly fewer than the degree
                let l = cx.u(n + 1);
                let v: Vec<u64> = (0..l).map(|_| if cx.coin(1, 4) { u64::MAX - cx.u64() % 3 } else { cx.u64() }).collect();
                rows = self.moduli.iter().map(|q| (0..n).map(|i| v.get(i).map_or(0, |x| x % q)).collect()).collect();
                if k == 1 && l == n {
                    // taken as residues: use reduced ones
                    let v = rows[0].clone();
                    P::B(Poly::<PowerBasis>::try_convert_from(v, &self.ctx, flag).lib("from-residues")?)
                } else if flag {
                    P::B(Poly::<PowerBasis>::try_convert_from_public(v.as_slice(), &self.ctx, vt()).lib("from-u64")?)
                } else {
                    P::B(Poly::<PowerBasis>::try_convert_from(&v, &self.ctx, false).lib("from-u64")?)
                }
            }
            5 => {
                let l = cx.u(n + 1);
                let v: Vec<i64> = (0..l)
                    .map(|_| match cx.u(5) {
                        0 => i64::MIN,
                        1 => i64::MAX,
                        2 => -(cx.u(4) as i64),
                        _ => cx.u64() as i64,
                    })
                    .collect();
                rows = self.moduli.iter().map(|q| (0..n).map(|i| v.get(i).map_or(0, |x| (*x as i128).rem_euclid(*q as i128) as u64)).collect()).collect();
                P::B(if flag { Poly::<PowerBasis>::try_convert_from_public(v.as_slice(), &self.ctx, vt()) } else { Poly::<PowerBasis>::try_convert_from(v.as_slice(), &self.ctx, false) }.lib("from-i64")?)
            }
            6 => {
                let l = cx.u(n + 1);
                let v: Vec<BigUint> = (0..l)
                    .map(|_| {
                        let mut b = vec![0u8; cx.u(8 * k + 9)];
                        cx.rng.fill_bytes(&mut b);
                        BigUint::from_bytes_le(&b)
                    })
                    .collect();
                rows = self.moduli.iter().map(|q| (0..n).map(|i| v.get(i).map_or(0, |x| modu(&int(x), *q))).collect()).collect();
                match cx.u(3) {
                    0 => P::B(if flag { Poly::<PowerBasis>::try_convert_from_public(v.as_slice(), &self.ctx, vt()) } else { Poly::<PowerBasis>::try_convert_from(v.as_slice(), &self.ctx, false) }.lib("from-big")?),
                    // the other representations take residues of transforms
                    _ => {
                        let b = Poly::<PowerBasis>::try_convert_from(v.as_slice(), &self.ctx, flag).lib("from-big")?;
                        P::B(b)
                    }
                }
            }
            7 => {
                let mut r = cx.fork();
                let p = Poly::<Ntt>::random(&self.ctx, &mut r);
                rows = p.to_power_basis().coefficients().outer_iter().map(|r| r.to_vec()).collect();
                P::N(p)
            }
            8 => {
                let mut r = cx.fork();
                let v = cx.range(1, 32);
                let p = Poly::<PowerBasis>::small(&self.ctx, v, &mut r).lib("small")?;
                rows = p.coefficients().outer_iter().map(|r| r.to_vec()).collect();
                // one small integer per coefficient, the same in every row
                for j in 0..n {
                    let c: Vec<i128> = (0..k).map(|i| center_u64(rows[i][j], self.moduli[i])).collect();
                    check!(c.iter().all(|x| *x == c[0] && x.unsigned_abs() <= 2 * v as u128), "value:small", "small polynomial of variance {v}: coefficient {j} is {c:?}");
                }
                check!(!p.allows_variable_time_computations(), "policy:small", "a sampled small polynomial permits variable time");
                P::B(p)
            }
            9 => {
                let mut s = [0u8; 32];
                cx.rng.fill_bytes(&mut s);
                let p = Poly::<NttShoup>::random_from_seed(&self.ctx, s);
                rows = p.to_power_basis().coefficients().outer_iter().map(|r| r.to_vec()).collect();
                let q = Poly::<Ntt>::random_from_seed(&self.ctx, s);
                check!(q.coefficients() == p.coefficients(), "value:random_from_seed", "random_from_seed depends on the representation");
                P::S(p)
            }
            10 => {
                rows = vec![vec![0; n]; k];
                match cx.u(3) {
                    0 => P::B(Poly::zero(&self.ctx)),
                    1 => P::N(Poly::zero(&self.ctx)),
                    _ => P::S(Poly::zero(&self.ctx)),
                }
            }
            _ => {
                // transform-domain residues
                let r: Vec<Vec<u64>> = self.moduli.iter().map(|q| residues(cx, n, *q)).collect();
                let flat: Vec<u64> = r.concat();
                let p = Poly::<Ntt>::try_convert_from(flat.as_slice(), &self.ctx, flag).lib("from-ntt-residues")?;
                rows = p.to_power_basis().coefficients().outer_iter().map(|r| r.to_vec()).collect();
                let s = Poly::<NttShoup>::try_convert_from(flat, &self.ctx, flag).lib("from-ntt-residues")?;
                check!(s.coefficients() == p.coefficients(), "value:from-shoup", "residues of a Shoup polynomial were changed");
                if cx.coin(1, 2) { P::N(p) } else { P::S(s) }
            }
        };
        let mut p = pb;
        if self.judge == Judge::Policy && !(flag && src <= 6 || flag && src == 11) {
            check!(!p.flag(), "policy:constructor", "constructor {src} without public data permits variable time");
        }
        // The caller declares it public, or not.
        let allowed = flag;
        p.set(flag);
        let m = M { rows, vt: allowed };
        Ok((p, m))
    }
}

fn to(p: P, r: usize) -> P {
    match (p, r) {
        (P::B(p), 0) => P::B(p),
        (P::B(p), 1) => P::N(p.into_ntt()),
        (P::B(p), _) => P::S(p.into_ntt_shoup()),
        (P::N(p), 0) => P::B(p.into_power_basis()),
        (P::N(p), 1) => P::N(p),
        (P::N(p), _) => P::S(p.into_ntt_shoup()),
        (P::S(p), 0) => P::B(p.into_power_basis()),
        (P::S(p), 1) => P::N(p.into_ntt()),
        (P::S(p), _) => P::S(p),
    }
}

pub fn history(cx: &mut Cx, judge: Judge) -> R {
    let (maxk, maxlog) = if cx.idx % 7 == 0 { (8, 5) } else { (3, 7) };
    let (ctx, moduli, n) = rand_ctx(cx, maxk, maxlog)?;
    let h = H { ctx: ctx.clone(), moduli: moduli.clone(), n, judge };
    cx.tr(format!("degree {n} moduli {moduli:?}"));
    let mut pool: Vec<(P, M)> = vec![];
    for _ in 0..3 {
        let (p, m) = h.fresh(cx)?;
        h.verify(cx, &p, &m, "constructor")?;
        pool.push((p, m));
    }
    let steps = cx.range(4, 16);
    let zip = |a: &M, b: &M, f: fn(u64, u64, u64) -> u64| M {
        rows: (0..moduli.len()).map(|i| a.rows[i].iter().zip(&b.rows[i]).map(|(x, y)| f(*x, *y, moduli[i])).collect()).collect(),
        vt: a.vt && b.vt,
    };
    let mulm = |a: &M, b: &M| M { rows: (0..moduli.len()).map(|i| negacyclic(&a.rows[i], &b.rows[i], moduli[i])).collect(), vt: a.vt && b.vt };
    for _ in 0..steps {
        let (i, j) = (cx.u(pool.len()), cx.u(pool.len()));
        let (a, ma) = pool[i].clone();
        let (b, mb) = pool[j].clone();
        let op = cx.u(13);
        let form = cx.u(3);
        let (name, r): (&str, (P, M)) = match op {
            0 | 1 => {
                let sub = op == 1;
                let rep = cx.u(2);
                let (x, y) = (to(a, rep), to(b, rep));
                macro_rules! go {
                    ($x:expr, $y:expr, $c:ident) => {{
                        let (x, y) = ($x, $y);
                        P::$c(match (sub, form) {
                            (false, 0) => &x + &y,
                            (false, 1) => {
                                let mut z = x.clone();
                                z += &y;
                                z
                            }
                            (false, _) => x + y,
                            (true, 0) => &x - &y,
                            (true, _) => {
                                let mut z = x.clone();
                                z -= &y;
                                z
                            }
                        })
                    }};
                }
                let r = match (x, y) {
                    (P::B(x), P::B(y)) => go!(x, y, B),
                    (P::N(x), P::N(y)) => go!(x, y, N),
                    _ => unreachable!(),
                };
                (if sub { "sub" } else { "add" }, (r, zip(&ma, &mb, if sub { submod } else { addmod })))
            }
            2 | 3 => {
                let x = to(a, 1);
                let y = to(b, if op == 2 { 1 } else { 2 });
                let P::N(x) = x else { unreachable!() };
                let r = match (y, form) {
                    (P::N(y), 0) => &x * &y,
                    (P::N(y), _) => {
                        let mut z = x.clone();
                        z *= &y;
                        z
                    }
                    (P::S(y), 0) => &x * &y,
                    (P::S(y), _) => {
                        let mut z = x.clone();
                        z *= &y;
                        z
                    }
                    _ => unreachable!(),
                };
                (if op == 2 { "mul" } else { "mul-shoup" }, (P::N(r), mulm(&ma, &mb)))
            }
            4 => {
                let mut by = vec![0u8; cx.u(8 * moduli.len() + 4)];
                cx.rng.fill_bytes(&mut by);
                let s = BigUint::from_bytes_le(&by);
                let rep = cx.u(2);
                let r = match (to(a, rep), form) {
                    (P::B(x), 0) => P::B(&x * &s),
                    (P::B(x), 1) => P::B(&s * &x),
                    (P::B(mut x), _) => {
                        x *= &s;
                        P::B(x)
                    }
                    (P::N(x), 0) => P::N(&x * &s),
                    (P::N(x), 1) => P::N(&s * &x),
                    (P::N(mut x), _) => {
                        x *= &s;
                        P::N(x)
                    }
                    _ => unreachable!(),
                };
                let m = M { rows: ma.rows.iter().zip(&moduli).map(|(r, q)| { let k = modu(&int(&s), *q); r.iter().map(|x| mulmod(*x, k, *q)).collect() }).collect(), vt: ma.vt };
                ("scalar-mul", (r, m))
            }
            5 => {
                let rep = cx.u(2);
                let r = match (to(a, rep), form) {
                    (P::B(x), 0) => P::B(-&x),
                    (P::B(x), _) => P::B(-x),
                    (P::N(x), 0) => P::N(-&x),
                    (P::N(x), _) => P::N(-x),
                    _ => unreachable!(),
                };
                let m = M { rows: ma.rows.iter().zip(&moduli).map(|(r, q)| r.iter().map(|x| negmod(*x, *q)).collect()).collect(), vt: ma.vt };
                ("neg", (r, m))
            }
            6 => {
                let e = match cx.u(4) {
                    0 => 2 * n - 1,
                    1 => 2 * cx.u(8 * n) + 1,
                    2 => powmod(3, cx.u(n) as u64, 2 * n as u64) as usize,
                    _ => 2 * cx.u(n) + 1,
                };
                let se = SubstitutionExponent::new(&ctx, e).lib("SubstitutionExponent::new")?;
                check!(SubstitutionExponent::new(&ctx, e + 1).is_err(), "substitution-even", "even exponent {} accepted", e + 1);
                let rep = cx.u(3);
                let r = match to(a, rep) {
                    P::B(x) => P::B(x.substitute(&se).lib("substitute")?),
                    P::N(x) => P::N(x.substitute(&se).lib("substitute")?),
                    P::S(x) => P::S(x.substitute(&se).lib("substitute")?),
                };
                let m = M { rows: ma.rows.iter().zip(&moduli).map(|(r, q)| substitute(r, e, *q)).collect(), vt: ma.vt };
                ("substitute", (r, m))
            }
            7 => {
                let P::B(mut x) = to(a, 0) else { unreachable!() };
                let k = if cx.coin(1, 6) { cx.u(6 * n + 2) } else { cx.u(2 * n + 1) };
                x.multiply_inverse_power_of_x(k).lib("multiply_inverse_power_of_x")?;
                let shift = (2 * n - k % (2 * n)) % (2 * n);
                let m = M {
                    rows: ma.rows.iter().zip(&moduli).map(|(r, q)| {
                        let mut o = vec![0; n];
                        for (c, v) in r.iter().enumerate() {
                            let d = (c + shift) % (2 * n);
                            if d < n { o[d] = *v } else { o[d - n] = negmod(*v, *q) }
                        }
                        o
                    }).collect(),
                    vt: ma.vt,
                };
                ("monomial", (P::B(x), m))
            }
            8 => {
                let rep = cx.u(3);
                let x = to(a, rep);
                ("convert", (x, ma))
            }
            9 => {
                // dot product, sometimes long enough to need intermediate
                // reductions
                let len = match cx.u(5) {
                    0 => 1,
                    1 => cx.range(2, 6),
                    2 => *cx.pick(&[15usize, 16, 17, 18, 31, 32, 33]),
                    _ => cx.range(2, if n <= 32 { 80 } else { 20 }),
                };
                let mut ps = vec![];
                let mut qs = vec![];
                let mut acc = vec![vec![0u64; n]; moduli.len()];
                let mut flag = true;
                let ext = cx.coin(1, 3);
                let base: Vec<(Poly<Ntt>, M)> = if ext {
                    let rows: Vec<Vec<u64>> = moduli.iter().map(|q| vec![q - 1; n]).collect();
                    let p = Poly::<Ntt>::try_convert_from(rows.concat(), &ctx, false).lib("from-residues")?;
                    let m: Vec<Vec<u64>> = p.to_power_basis().coefficients().outer_iter().map(|r| r.to_vec()).collect();
                    vec![(p, M { rows: m, vt: false })]
                } else {
                    pool.iter().map(|(p, m)| { let P::N(x) = to(p.clone(), 1) else { unreachable!() }; (x, m.clone()) }).collect()
                };
                // products of the base are computed once
                let nb = base.len();
                let mut prods: Vec<Vec<Option<M>>> = vec![vec![None; nb]; nb];
                for _ in 0..len {
                    let (u, v) = (cx.u(nb), cx.u(nb));
                    if prods[u][v].is_none() {
                        prods[u][v] = Some(mulm(&base[u].1, &base[v].1));
                    }
                    let pr = prods[u][v].as_ref().unwrap();
                    for (ar, (pr, q)) in acc.iter_mut().zip(pr.rows.iter().zip(&moduli)) {
                        for (x, y) in ar.iter_mut().zip(pr) {
                            *x = addmod(*x, *y, *q);
                        }
                    }
                    flag &= pr.vt;
                    ps.push(base[u].0.clone());
                    qs.push(base[v].0.clone());
                }
                let r = dot_product(ps.iter(), qs.iter()).lib("dot_product")?;
                if dot_product(ps.iter(), qs[..len - 1].iter()).is_ok() {
                    viol!("dot-length", "dot product of {len} and {} polynomials accepted", len - 1);
                }
                cx.ev("dot-products", 1);
                if len >= 16 && moduli.iter().any(|q| *q >> 61 != 0) {
                    cx.ev("dot-products-with-reduction", 1);
                }
                ("dot", (P::N(r), M { rows: acc, vt: flag }))
            }
            10 => {
                // serialisation: same value, never a permission
                let rep = cx.u(3);
                let r = match to(a, rep) {
                    P::B(x) => P::B(Poly::from_bytes(&x.to_bytes(), &ctx).lib("from_bytes")?),
                    P::N(x) => P::N(Poly::from_bytes(&x.to_bytes(), &ctx).lib("from_bytes")?),
                    P::S(x) => P::S(Poly::from_bytes(&x.to_bytes(), &ctx).lib("from_bytes")?),
                };
                ("serialize", (r, M { rows: ma.rows, vt: false }))
            }
            11 => {
                // public lazy constant times a Shoup polynomial
                let v = residues(cx, n, u64::MAX);
                let P::S(y) = to(b, 2) else { unreachable!() };
                let mut z = Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&v, &ctx, vt());
                z *= &y;
                let mv = M { rows: moduli.iter().map(|q| v.iter().map(|x| x % q).collect()).collect(), vt: true };
                cx.ev("lazy-products", 1);
                ("lazy-mul", (P::N(z), mulm(&mv, &mb)))
            }
            _ => {
                // integers back out
                if judge == Judge::Value {
                    let x = to(a.clone(), 0);
                    let P::B(x) = x else { unreachable!() };
                    let v = Vec::<u64>::try_from(&x).lib("to-u64")?;
                    check!(v == ma.rows.concat(), "value:to-u64", "Vec<u64> of a polynomial differs; {:?}", cx.trace);
                    let crt = Crt::new(&moduli);
                    let bv = Vec::<BigUint>::from(&x);
                    for (c, y) in bv.iter().enumerate() {
                        let e: BigInt = int(&crt.lift(&ma.rows.iter().map(|r| r[c]).collect::<Vec<_>>()));
                        check!(int(y) == e, "value:to-big", "coefficient {c} as integer is {y}, expected {e}; {:?}", cx.trace);
                    }
                    check!((x == a.pb()) && (&x + &Poly::zero(&ctx) == x), "value:eq", "equality of equal polynomials fails");
                    if ma.rows != mb.rows {
                        check!(x != b.pb(), "value:eq", "different polynomials compare equal; {:?}", cx.trace);
                    }
                    let mut z = a.clone();
                    let raw = match &mut z {
                        P::B(p) => { p.zeroize(); z.raw() }
                        P::N(p) => { p.zeroize(); z.raw() }
                        P::S(p) => { p.zeroize(); z.raw() }
                    };
                    check!(raw.iter().flatten().all(|x| *x == 0), "value:zeroize", "zeroize leaves coefficients");
                }
                ("observe", (a, ma))
            }
        };
        let (mut p, mut m) = r;
        cx.tr(format!("{name}({i},{j}).{form}.{}", p.repr()));
        h.verify(cx, &p, &m, name)?;
        // operands are untouched
        if judge == Judge::Value && cx.coin(1, 4) {
            h.verify(cx, &pool[i].0, &pool[i].1, "operand-kept")?;
        }
        if cx.coin(1, 5) {
            let on = cx.coin(1, 2);
            p.set(on);
            m.vt = on;
            cx.tr(format!("policy {on}"));
            check!(p.flag() == on, "policy:set", "the permission does not follow the setter");
        }
        cx.ev(&format!("op:{name}"), 1);
        if pool.len() < 5 {
            pool.push((p, m));
        } else {
            let k = cx.u(pool.len());
            pool[k] = (p, m);
        }
    }
    let key = cx.trace.clone();
    cx.seen(key);
    let t = cx.trace.join(" ");
    cx.sample(|| t);
    Ok(())
}

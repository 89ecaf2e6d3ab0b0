//! C21: no undefined behaviour. The verdict is that of the instrumentation the
//! binary was built with (sanitizer, interpreter, overflow and precondition
//! traps); the guard words around buffers are monitored in every build.
use crate::fixt::*;
use crate::gen_::*;
use crate::model::*;
use crate::mon::*;
use crate::session::*;
use fhe::bfv::*;
use fhe_math::ntt::NttOperator;
use fhe_math::rns::{RnsContext, RnsScaler, ScalingFactor};
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, dot_product};
use fhe_math::zq::Modulus;
use fhe_traits::*;
use ndarray::{Array2, ArrayView1, ArrayViewMut1, ShapeBuilder};
use num_bigint::BigUint;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C21",
        rule: "a case is a world of objects and a history of operations of every kind on it, or word, transform, scaling, dot-product and conversion calls on buffers of exactly the size needed (bordered by guard words), or calls with arguments of wrong sizes, indices, contexts and layouts. The instrumented builds (address sanitizer with precondition checks, undefined-behaviour interpreter, overflow traps) watch every access. Distinct = distinct calls and arguments.",
        workloads: vec![
            Workload { name: "session", weight: 6, max: 0, f: |cx| session(cx, Want { budget: 30, max_k: 4, max_logn: 6, pool: 120, ..ANY }) },
            Workload { name: "words", weight: 4, max: 0, f: words },
            Workload { name: "transforms", weight: 3, max: 0, f: transforms },
            Workload { name: "scalers", weight: 3, max: 0, f: scalers },
            Workload { name: "dots", weight: 2, max: 0, f: dots },
            Workload { name: "layouts", weight: 2, max: 0, f: layouts },
            Workload { name: "hostile", weight: 4, max: 0, f: hostile },
            Workload { name: "tiny", weight: 1, max: 0, f: tiny },
        ],
        required: vec!["results", "word-calls", "transforms", "scalings", "long-dots", "layouts", "hostile-calls"],
        finish: None,
    }
}
/// A panic is no undefined behaviour, but these say that one was prevented.
fn fatal(msg: &str) -> bool {
    msg.contains("unsafe precondition") || (msg.contains("attempt to ") && msg.contains("overflow"))
}
fn overflow(cx: &Cx, what: &str, o: &Out) -> R {
    let _ = cx;
    if o.name == "panicked" {
        let m = String::from_utf8_lossy(&o.bytes);
        check!(!fatal(&m), format!("overflow:{what}"), "{what}: {m}");
    }
    Ok(())
}
fn session(cx: &mut Cx, w: Want) -> R {
    let f = fix(cx, w)?;
    if f.deepest(2).is_none() {
        return Err(Fail::Skip("no level with enough room"));
    }
    let mut w = World::new(&f, cx)?;
    let mut ops = vec![];
    for _ in 0..cx.range(6, 20) {
        let (s, k) = (cx.u64(), cx.u(KINDS));
        let o = w.run(k, &mut cx_of(s, 0))?;
        overflow(cx, "operation", &o)?;
        cx.ev("results", 1);
        ops.push(o.name);
        w.absorb(o, cx);
    }
    cx.sample(|| format!("{}: {}", f.desc, ops.join(" ")));
    cx.seen((f.id, ops));
    Ok(())
}
/// Operations in the smallest worlds there are, for the interpreter. Successive
/// cases run through the kinds.
fn tiny(cx: &mut Cx) -> R {
    let worlds: &[(usize, &[u64], u64)] = &[(8, &[97, 113], 17), (8, &[4611686018326724609, 257], 65537), (16, &[193, 97], 3), (8, &[113, 4611686018309947393], 97), (8, &[241], 5), (8, &[193, 257, 1153], 17)];
    let (n, q, t) = worlds[cx.idx as usize % worlds.len()];
    let f = Arc::new(build(0, n, q, &big(t), 3)?);
    let mut w = World::new(&f, cx)?;
    let mut ops = vec![];
    for j in 0..TINY {
        let k = (cx.idx as usize * TINY + j) % KINDS;
        let o = w.run(k, &mut cx_of(cx.u64(), 0))?;
        overflow(cx, "operation", &o)?;
        cx.ev("results", 1);
        cx.ev(o.name, 1);
        ops.push(o.name);
        w.absorb(o, cx);
    }
    cx.sample(|| format!("{}: {}", f.desc, ops.join(" ")));
    cx.seen((f.q.clone(), ops));
    Ok(())
}
const TINY: usize = 4;

const GUARD: u64 = 0xfeed_face_dead_beef;
const G: usize = 4;
/// Run `f` on a buffer at the end of its allocation, and again bordered by
/// guard words on both sides.
fn guarded(cx: &mut Cx, name: &str, v: &[u64], f: impl Fn(&mut [u64])) -> R<Vec<u64>> {
    let mut exact: Box<[u64]> = v.into();
    let r1 = catching(|| f(&mut exact));
    let mut wide = vec![GUARD; v.len() + 2 * G];
    wide[G..G + v.len()].copy_from_slice(v);
    let n = v.len();
    let r2 = catching(|| f(&mut wide[G..G + n]));
    for p in [r1.err(), r2.err()].into_iter().flatten() {
        check!(!fatal(&p.msg), format!("overflow:{name}"), "{name} on {n} words: {}", p.msg);
        cx.ev("panics", 1);
    }
    check!(wide[..G].iter().chain(&wide[G + n..]).all(|x| *x == GUARD), format!("out-of-bounds-write:{name}"), "{name} on {n} words wrote outside of its argument: {:x?} {:x?}", &wide[..G], &wide[G + n..]);
    Ok(exact.into_vec())
}
fn some_modulus(cx: &mut Cx) -> R<(Modulus, u64)> {
    loop {
        let b = cx.range(4, 62);
        let q = match cx.u(4) {
            0 => 1u64 << (b - 1),
            1 => (1 << b) - 1 - cx.u64() % 3,
            _ => (cx.u64() >> (64 - b)) | (1 << (b - 1)),
        };
        if let Ok(m) = Modulus::new(q) {
            return Ok((m, q));
        }
    }
}
fn words(cx: &mut Cx) -> R {
    let (m, q) = some_modulus(cx)?;
    let n = *cx.pick(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100]);
    let a = residues(cx, n, q);
    let b: Box<[u64]> = residues(cx, n, q).into();
    let s = residue(cx, q);
    let bs: Box<[u64]> = m.shoup_vec(&b).into();
    let any: Vec<u64> = (0..n).map(|_| if cx.coin(1, 4) { *cx.pick(&[0, u64::MAX, q, q - 1, 1 << 63]) } else { cx.u64() }).collect();
    let pub_ = cx.coin(1, 2);
    let k = cx.u(8);
    let name = ["add", "sub", "mul", "scalar_mul", "mul_shoup", "reduce", "neg", "lazy_reduce"][k];
    unsafe {
        let f = |v: &mut [u64]| match (k, pub_) {
            (0, false) => m.add_vec(v, &b),
            (0, true) => m.add_vec_vt(v, &b),
            (1, false) => m.sub_vec(v, &b),
            (1, true) => m.sub_vec_vt(v, &b),
            (2, false) => m.mul_vec(v, &b),
            (2, true) => m.mul_vec_vt(v, &b),
            (3, false) => m.scalar_mul_vec(v, s),
            (3, true) => m.scalar_mul_vec_vt(v, s),
            (4, false) => m.mul_shoup_vec(v, &b, &bs),
            (4, true) => m.mul_shoup_vec_vt(v, &b, &bs),
            (5, false) => m.reduce_vec(v),
            (5, true) => m.reduce_vec_vt(v),
            (6, false) => m.neg_vec(v),
            (6, true) => m.neg_vec_vt(v),
            _ => m.lazy_reduce_vec(v),
        };
        let _ = guarded(cx, name, if k == 5 || k == 7 { &any } else { &a }, f)?;
    }
    let i: Box<[i64]> = any.iter().map(|x| *x as i64).collect();
    // values at the ends of the type
    for r in [
        catching(|| {
            let _ = (m.center_vec(&b), m.reduce_vec_new(&any), m.shoup_vec(&b), m.pow(s, any.first().copied().unwrap_or(3)), m.inv(s));
            let bytes: Box<[u8]> = m.serialize_vec(&b).into();
            m.deserialize_vec(&bytes).len()
        }),
        catching(|| m.reduce_vec_i64(&i).len()),
        catching(|| unsafe { (m.reduce_vec_i64_vt(&i), m.reduce_vec_new_vt(&any)).0.len() }),
        catching(|| {
            let x = (cx.u64() as u128) << 64 | cx.u64() as u128;
            (m.reduce_u128(x) + m.reduce(x as u64)) as usize
        }),
    ] {
        if let Err(p) = r {
            check!(!fatal(&p.msg), "overflow:words", "modulus {q}, {n} words: {} at {}", p.msg, p.loc);
        }
    }
    for w in [1usize, 7, 8, 13, 33, 62, 63, 64, cx.range(1, 64)] {
        let bytes: Box<[u8]> = (0..cx.u(40)).map(|_| cx.u64() as u8).collect();
        let mask = if w == 64 { u64::MAX } else { (1 << w) - 1 };
        let v: Box<[u64]> = any.iter().map(|x| x & mask).collect();
        let r = catching(|| {
            let a = fhe_util::transcode_from_bytes(&bytes, w).len();
            let o = fhe_util::transcode_to_bytes(&v, w).len();
            a + o + fhe_util::transcode_bidirectional(&v, w, 1 + q as usize % 64).len()
        });
        if let Err(p) = r {
            check!(!fatal(&p.msg), "overflow:transcode", "{w} bits, {n} words: {} at {}", p.msg, p.loc);
        }
    }
    cx.ev("word-calls", 15);
    cx.sample(|| format!("{name} of {n} words modulo {q}"));
    cx.seen((q, a, name, pub_));
    Ok(())
}
fn transforms(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(if cfg!(miri) { 3 } else { 9 });
    let q = moduli(cx, n, 1, 10, 62);
    let Some(&q) = q.first() else { return Err(Fail::Skip("no prime")) };
    let m = Modulus::new(q).lib("Modulus::new")?;
    let Some(op) = NttOperator::new(&m, n) else { return Err(Fail::Skip("no operator")) };
    let v = residues(cx, n, q);
    let _ = guarded(cx, "forward", &v, |v| op.forward(v))?;
    let _ = guarded(cx, "backward", &v, |v| op.backward(v))?;
    let _ = guarded(cx, "forward_vt", &v, |v| unsafe { op.forward_vt(v.as_mut_ptr()) })?;
    let _ = guarded(cx, "backward_vt", &v, |v| unsafe { op.backward_vt(v.as_mut_ptr()) })?;
    cx.ev("transforms", 8);
    cx.seen((n, q, v));
    Ok(())
}
fn rns_moduli(cx: &mut Cx, k: usize) -> Vec<u64> {
    moduli(cx, 8, k, 10, 62)
}
fn scalers(cx: &mut Cx) -> R {
    let k = cx.range(1, 6);
    let a = rns_moduli(cx, k);
    let k = cx.range(1, 6);
    let b = rns_moduli(cx, k);
    if a.is_empty() || b.is_empty() {
        return Err(Fail::Skip("no prime"));
    }
    let (qa, qb) = (Arc::new(RnsContext::new(&a).lib("RnsContext::new")?), Arc::new(RnsContext::new(&b).lib("RnsContext::new")?));
    let r = |cx: &mut Cx| BigUint::from(cx.u64() | 1) << cx.u(100);
    let factor = match cx.u(3) {
        0 => ScalingFactor::one(),
        _ => ScalingFactor::new(&r(cx), &r(cx)),
    };
    let s = RnsScaler::new(&qa, &qb, factor);
    let x: Box<[u64]> = a.iter().map(|q| residue(cx, *q)).collect();
    let start = cx.u(b.len());
    let len = cx.range(1, b.len() - start);
    let _ = guarded(cx, "scale", &vec![0; len], |out| s.scale(ArrayView1::from(&x[..]), ArrayViewMut1::from(out), start))?;
    // rows and columns of matrices: the views have strides
    let w = cx.range(1, 4);
    let xs = Array2::from_shape_fn((a.len(), w), |(i, _)| x[i]);
    let mut out = Array2::from_elem((b.len() + 2, w + 2), GUARD);
    for c in 0..w {
        let mut o = out.column_mut(c + 1);
        s.scale(xs.column(c), o.slice_mut(ndarray::s![1 + start..1 + start + len]), start);
    }
    for ((i, j), y) in out.indexed_iter() {
        let inside = i > start && i <= start + len && j >= 1 && j <= w;
        check!(inside || *y == GUARD, "out-of-bounds-write:scale", "scaling into rows {start}+{len} of columns 1..={w} wrote ({i}, {j})");
    }
    let _ = qa.lift(ArrayView1::from(&x[..]));
    let _ = qb.project(&(r(cx) << 64));
    cx.ev("scalings", 2 + w as u64);
    cx.seen((a, b, x, start, len));
    Ok(())
}
/// Enough products for the accumulators to be reduced half way.
fn dots(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(2);
    let k = cx.range(1, 3);
    let lo = *cx.pick(&[59, 61, 62]);
    let q = moduli(cx, n, k, lo, 62);
    if q.is_empty() {
        return Err(Fail::Skip("no prime"));
    }
    let c = Arc::new(Context::new(&q, n).lib("Context::new")?);
    let most = 1usize << (2 * (q.iter().map(|q| q.leading_zeros()).min().unwrap()));
    let count = match cx.u(4) {
        0 => most,
        1 => most + 1,
        2 => 2 * most + cx.u(4),
        _ => cx.range(1, 3 * most),
    }
    .min(if cfg!(miri) { 40 } else { 300 });
    let pubs = cx.coin(1, 2);
    let mk = |cx: &mut Cx| {
        let mut p = Poly::<Ntt>::random(&c, &mut cx.fork());
        if pubs {
            p.allow_variable_time_computations(VariableTime::new(PublicData::assert_public()));
        }
        p
    };
    let a: Vec<_> = (0..count.min(5)).map(|_| mk(cx)).collect();
    let b: Vec<_> = (0..count.min(5)).map(|_| mk(cx)).collect();
    let r = catching(|| dot_product((0..count).map(|i| &a[i % a.len()]), (0..count).map(|i| &b[(i * 3) % b.len()])).map(|p| p.coefficients().len()));
    if let Err(p) = r {
        check!(!fatal(&p.msg), "overflow:dot_product", "{count} products modulo {q:?}: {} at {}", p.msg, p.loc);
    }
    cx.ev(if count > most { "long-dots" } else { "short-dots" }, 1);
    cx.seen((q, n, count, pubs, cx.idx));
    Ok(())
}
/// Polynomials from matrices of any memory layout, used every way.
fn layouts(cx: &mut Cx) -> R {
    let (ctx, q, n) = rand_ctx(cx, 4, 5)?;
    let vals = Array2::from_shape_fn((q.len(), n), |(i, _)| cx.u64() % q[i]);
    let layout = cx.u(5);
    let a: Array2<u64> = match layout {
        0 => vals.clone(),
        1 => {
            let mut f = Array2::zeros((q.len(), n).f());
            f.assign(&vals);
            f
        }
        2 => {
            // a transposed matrix
            let mut f = Array2::zeros((n, q.len()));
            f.assign(&vals.t());
            f.reversed_axes()
        }
        3 => {
            // a window of a larger matrix
            let mut f = Array2::from_elem((q.len() + 2, n + 3), GUARD);
            f.slice_mut(ndarray::s![1..1 + q.len(), 2..2 + n]).assign(&vals);
            f.slice_move(ndarray::s![1..1 + q.len(), 2..2 + n])
        }
        _ => {
            // a reversed matrix
            let mut f = Array2::zeros((q.len(), n));
            f.assign(&vals.slice(ndarray::s![..;-1, ..;-1]));
            f.slice_move(ndarray::s![..;-1, ..;-1])
        }
    };
    let vt = cx.coin(1, 2);
    let p = Poly::<PowerBasis>::try_convert_from(a.clone(), &ctx, vt).lib("try_convert_from")?;
    let x = Poly::<Ntt>::try_convert_from(a.clone(), &ctx, vt).lib("try_convert_from")?;
    let s = Poly::<NttShoup>::try_convert_from(a, &ctx, vt).lib("try_convert_from")?;
    let name = ["row-major", "column-major", "transposed", "window", "reversed"][layout];
    let r = catching(|| {
        let y = p.clone().into_ntt();
        let z = &(&x * &s) + &(&y * &x);
        let e = SubstitutionExponent::new(&ctx, 2 * (cx.u(n)) + 1).unwrap();
        let w = (z.substitute(&e).unwrap().into_power_basis(), x.clone().into_power_basis(), s.clone().into_power_basis(), p.clone().into_ntt_shoup());
        let b = [p.to_bytes(), x.to_bytes(), s.to_bytes()].concat();
        (w, b)
    });
    match r {
        Ok(((_, x2, s2, _), _)) => {
            check!(x2 == s2, "layout", "{name}: one matrix, two polynomials");
            check!(p.coefficients() == vals, "layout", "{name}: coefficients moved");
        }
        Err(e) => check!(!fatal(&e.msg), "overflow:layout", "{name}: {} at {}", e.msg, e.loc),
    }
    cx.ev("layouts", 1);
    cx.seen((q, n, layout, vt, cx.idx));
    Ok(())
}
/// Safe calls with arguments that do not fit: refusals, panics and nonsense are
/// all fine, anything undefined is not.
fn hostile(cx: &mut Cx) -> R {
    let kind = cx.u(10);
    let mut calls = vec![];
    let mut call = |name: &'static str, f: &mut dyn FnMut()| {
        let r = catching(f);
        calls.push((name, r.is_err()));
    };
    // sizes around and away from the right one
    let off = |cx: &mut Cx, n: usize| match cx.u(6) {
        0 => 0,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => 2 * n,
        4 => n / 2,
        _ => n + cx.u(9),
    };
    match kind {
        0 | 1 => {
            let n = 8usize << cx.u(4);
            let q = moduli(cx, n, 1, 10, 62);
            let Some(&q) = q.first() else { return Err(Fail::Skip("no prime")) };
            let m = Modulus::new(q).lib("Modulus::new")?;
            let Some(op) = NttOperator::new(&m, n) else { return Err(Fail::Skip("no operator")) };
            let len = off(cx, n);
            let v: Box<[u64]> = (0..len).map(|_| if cx.coin(1, 2) { cx.u64() } else { cx.u64() % q }).collect();
            let w = v.clone();
            call("forward", &mut || op.forward(&mut v.clone()));
            call("backward", &mut || op.backward(&mut w.clone()));
        }
        2 | 3 => {
            let k = cx.range(1, 5);
            let a = rns_moduli(cx, k);
            let k = cx.range(1, 5);
            let b = rns_moduli(cx, k);
            if a.is_empty() || b.is_empty() {
                return Err(Fail::Skip("no prime"));
            }
            let (qa, qb) = (Arc::new(RnsContext::new(&a).lib("RnsContext::new")?), Arc::new(RnsContext::new(&b).lib("RnsContext::new")?));
            let s = RnsScaler::new(&qa, &qb, if cx.coin(1, 2) { ScalingFactor::one() } else { ScalingFactor::new(&BigUint::from(cx.u64() | 1), &BigUint::from(cx.u64() | 1)) });
            let nx = if cx.coin(1, 2) { a.len() } else { off(cx, a.len()) };
            let x: Box<[u64]> = (0..nx).map(|_| cx.u64()).collect();
            let size = if cx.coin(1, 2) { b.len() } else { off(cx, b.len()) };
            let start = *cx.pick(&[0, 1, b.len(), b.len() + 1, usize::MAX, usize::MAX - 1, 7]);
            call("scale_new", &mut || drop(s.scale_new(ArrayView1::from(&x[..]), size)));
            let mut out = vec![0; size].into_boxed_slice();
            call("scale", &mut || s.scale(ArrayView1::from(&x[..]), ArrayViewMut1::from(&mut out[..]), start));
            call("lift", &mut || drop(qa.lift(ArrayView1::from(&x[..]))));
            call("get_garner", &mut || drop(qa.get_garner(start).cloned()));
        }
        4 => {
            let (m, q) = some_modulus(cx)?;
            let n = cx.u(40);
            let v: Box<[u64]> = (0..n).map(|_| cx.u64()).collect();
            let len = off(cx, n);
            let w: Box<[u64]> = (0..len).map(|_| cx.u64()).collect();
            let l2 = off(cx, n);
            let z: Box<[u64]> = (0..l2).map(|_| cx.u64()).collect();
            call("add_vec", &mut || m.add_vec(&mut v.clone(), &w));
            call("sub_vec", &mut || m.sub_vec(&mut v.clone(), &w));
            call("mul_vec", &mut || m.mul_vec(&mut v.clone(), &w));
            call("mul_shoup_vec", &mut || m.mul_shoup_vec(&mut v.clone(), &w, &z));
            call("shoup_vec", &mut || drop(m.shoup_vec(&w)));
            call("center_vec", &mut || drop(m.center_vec(&w)));
            call("serialize_vec", &mut || drop(m.serialize_vec(&w)));
            let b: Box<[u8]> = (0..len).map(|_| cx.u64() as u8).collect();
            call("deserialize_vec", &mut || drop(m.deserialize_vec(&b)));
            let bits = *cx.pick(&[0usize, 1, 63, 64, 65, 128, q as usize % 100]);
            call("transcode_from_bytes", &mut || drop(fhe_util::transcode_from_bytes(&b, bits)));
            call("transcode_to_bytes", &mut || drop(fhe_util::transcode_to_bytes(&w, bits)));
            call("transcode_bidirectional", &mut || drop(fhe_util::transcode_bidirectional(&w, bits, 1 + len % 64)));
            let var = cx.u(40);
            let mut r = cx.fork();
            call("sample_vec_cbd", &mut || drop(fhe_util::sample_vec_cbd(n, var, &mut r)));
        }
        5 | 6 => {
            // polynomials of different shapes
            let (c1, q1, n1) = rand_ctx(cx, 4, 5)?;
            let (c2, _, _) = rand_ctx(cx, 4, 5)?;
            let vt = cx.coin(1, 2);
            let mk = |cx: &mut Cx, c: &Arc<Context>| {
                let mut p = Poly::<Ntt>::random(c, &mut cx.fork());
                if vt {
                    p.allow_variable_time_computations(VariableTime::new(PublicData::assert_public()));
                }
                p
            };
            let (a, b) = (mk(cx, &c1), mk(cx, &c2));
            let bs = b.clone().into_ntt_shoup();
            let (ap, bp) = (a.to_power_basis(), b.to_power_basis());
            call("add", &mut || drop(&a + &b));
            call("sub", &mut || drop(&a - &b));
            call("mul", &mut || drop(&a * &b));
            call("mul-shoup", &mut || drop(&a * &bs));
            call("mul-assign", &mut || {
                let mut c = a.clone();
                c *= &bs;
                c *= &b;
            });
            call("add-power", &mut || drop(&ap + &bp));
            call("dot_product", &mut || drop(dot_product([&a, &a].into_iter(), [&a, &b].into_iter())));
            call("dot_product", &mut || drop(dot_product([&a, &b].into_iter(), [&b].into_iter())));
            let e = SubstitutionExponent::new(&c2, 2 * cx.u(100) + 1).lib("SubstitutionExponent::new")?;
            call("substitute", &mut || drop(a.substitute(&e)));
            call("substitute-power", &mut || drop(ap.substitute(&e)));
            let (from, to) = if cx.coin(1, 2) { (&c2, &c1) } else { (&c1, &c2) };
            if let Ok(s) = Scaler::new(from, to, ScalingFactor::new(&BigUint::from(3u8), &BigUint::from(cx.u64() | 1))) {
                call("scale", &mut || drop(ap.scale(&s)));
                call("scale-ntt", &mut || drop(b.scale(&s)));
            }
            if let Ok(s) = Switcher::new(from, to) {
                call("switch", &mut || drop(ap.switch(&s)));
                call("switch", &mut || drop(b.switch(&s)));
            }
            let power = *cx.pick(&[0, 1, n1 - 1, n1, n1 + 1, 2 * n1, 2 * n1 + 1, usize::MAX]);
            call("power", &mut || drop(ap.clone().multiply_inverse_power_of_x(power)));
            call("switch_down_to", &mut || drop(ap.clone().switch_down_to(&c2)));
            let len = off(cx, n1 * q1.len());
            let v: Vec<u64> = (0..len).map(|_| cx.u64()).collect();
            // values beyond the moduli, and wrong counts
            let all: Vec<u64> = (0..n1 * q1.len()).map(|_| cx.u64()).collect();
            for v in [v, all] {
                call("convert", &mut || {
                    if let Ok(p) = Poly::<PowerBasis>::try_convert_from(v.clone(), &c1, vt) {
                        let n = p.clone().into_ntt();
                        let s = p.clone().into_ntt_shoup();
                        drop((&n * &s, &p + &p, -&p, p.to_bytes(), n.into_power_basis()));
                        let mut d = p.clone();
                        let _ = d.switch_down();
                    }
                });
                call("convert", &mut || {
                    if let Ok(p) = Poly::<Ntt>::try_convert_from(v.clone(), &c1, vt) {
                        drop((&p * &p, &p - &p, p.clone().into_power_basis()));
                        drop(dot_product((0..40).map(|_| &p), (0..40).map(|_| &p)));
                    }
                });
                call("convert", &mut || {
                    if let Ok(p) = Poly::<NttShoup>::try_convert_from(v.clone(), &c1, vt) {
                        drop((&a * &p, p.clone().into_power_basis()));
                    }
                });
            }
        }
        7 | 8 => {
            // ciphertexts with any number of parts and any content
            let f = fix(cx, Want { budget: 30, max_k: 4, max_logn: 5, pool: 60, ..ANY })?;
            if f.deepest(2).is_none() {
                return Err(Fail::Skip("no level with enough room"));
            }
            let w = World::new(&f, cx)?;
            let level = cx.range(0, f.max_level());
            let ctx = f.ctx(level)?;
            let parts = cx.range(2, 5);
            let c: Vec<Poly<Ntt>> = (0..parts)
                .map(|_| {
                    let v: Vec<u64> = (0..f.n * (f.q.len() - level)).map(|_| cx.u64()).collect();
                    Poly::<Ntt>::try_convert_from(v, &ctx, cx.coin(1, 2)).unwrap()
                })
                .collect();
            let Ok(c) = Ciphertext::new(c, &f.par) else { return Err(Fail::Skip("refused")) };
            let (other, pt) = (&w.ct[cx.u(w.ct.len())].1, &w.pt[cx.u(w.pt.len())].1);
            call("add", &mut || drop(&c + &**other));
            call("mul", &mut || drop(&c * &**other));
            call("mul-self", &mut || drop(&c * &c));
            call("mul-pt", &mut || drop(&c * pt));
            call("decrypt", &mut || drop(w.sk.try_decrypt(&c)));
            call("noise", &mut || drop(unsafe { w.sk.measure_noise(&c) }));
            call("to_bytes", &mut || drop(c.to_bytes()));
            call("dot", &mut || drop(dot_product_scalar([&c, &c].into_iter(), [pt, pt].into_iter())));
            for (_, k) in &w.ek {
                call("rotate", &mut || drop((k.rotates_rows(&c), k.rotates_columns_by(&c, 1), k.computes_inner_sum(&c), k.expands(&c, f.n))));
            }
            for (_, k) in &w.rk {
                call("relinearize", &mut || drop(k.relinearizes(&mut c.clone())));
            }
            for (_, m) in &w.mul {
                call("multiply", &mut || drop(m.multiply(&c, other)));
            }
            for (_, g) in &w.rgsw {
                call("external", &mut || drop(g * &c));
            }
            call("switch_down", &mut || {
                let mut c = c.clone();
                let _ = c.switch_down();
                let _ = c.switch_to_level(usize::MAX);
                let _ = c.switch_to_level(f.max_level());
            });
            let n = *cx.pick(&[0usize, 1, f.n + 1, 3 * f.n, f.n]);
            let v: Vec<u64> = (0..n).map(|_| cx.u64()).collect();
            let e = [Encoding::poly_at_level(level), Encoding::simd_at_level(level), Encoding::poly_at_level(100)];
            for e in e {
                call("encode", &mut || {
                    if let Ok(p) = Plaintext::try_encode(v.as_slice(), e.clone(), &f.par) {
                        drop((Vec::<u64>::try_decode(&p, e.clone()), Vec::<i64>::try_decode(&p, None)));
                    }
                });
                call("encode-vt", &mut || drop(Plaintext::try_encode_vt(v.as_slice(), e.clone(), &f.par, VariableTime::new(PublicData::assert_public()))));
                let s: Vec<i64> = v.iter().map(|x| *x as i64).collect();
                call("encode-signed", &mut || drop(Plaintext::try_encode(s.as_slice(), e.clone(), &f.par)));
                call("encode-vec", &mut || drop(PlaintextVec::try_encode(v.as_slice(), e.clone(), &f.par)));
            }
        }
        _ => {
            // bytes
            let f = fix(cx, Want { budget: 30, max_k: 3, max_logn: 5, pool: 60, ..ANY })?;
            if f.deepest(2).is_none() {
                return Err(Fail::Skip("no level with enough room"));
            }
            let w = World::new(&f, cx)?;
            let objs: Vec<Vec<u8>> = vec![
                w.ct[cx.u(w.ct.len())].1.to_bytes(),
                w.sk.to_bytes(),
                w.pk.to_bytes(),
                w.ek[0].1.to_bytes(),
                w.rk.first().map(|x| x.1.to_bytes()).unwrap_or_default(),
                w.rgsw.first().map(|x| x.1.to_bytes()).unwrap_or_default(),
                f.par.to_bytes(),
                w.poly[0].1.to_bytes(),
            ];
            for _ in 0..6 {
                let mut b = objs[cx.u(objs.len())].clone();
                for _ in 0..cx.u(3) {
                    match (cx.u(4), b.len()) {
                        (_, 0) => b.push(cx.u64() as u8),
                        (0, n) => b[cx.u(n)] = cx.u64() as u8,
                        (1, n) => b.truncate(cx.u(n)),
                        (2, n) => b[cx.u(n.min(16))] ^= 1 << cx.u(8),
                        (_, n) => {
                            let i = cx.u(n);
                            b.insert(i, cx.u64() as u8)
                        }
                    }
                }
                let b = b.into_boxed_slice();
                call("Ciphertext", &mut || {
                    if let Ok(c) = Ciphertext::from_bytes(&b, &f.par) {
                        drop((&c * &c, w.sk.try_decrypt(&c)));
                    }
                });
                call("SecretKey", &mut || drop(SecretKey::from_bytes(&b, &f.par)));
                call("PublicKey", &mut || drop(PublicKey::from_bytes(&b, &f.par)));
                call("EvaluationKey", &mut || {
                    if let Ok(k) = EvaluationKey::from_bytes(&b, &f.par) {
                        drop((k.rotates_rows(&w.ct[0].1), k.expands(&w.ct[0].1, f.n)));
                    }
                });
                call("RelinearizationKey", &mut || {
                    if let Ok(k) = RelinearizationKey::from_bytes(&b, &f.par) {
                        drop(k.relinearizes(&mut (&*w.ct[0].1 * &*w.ct[0].1)));
                    }
                });
                call("RGSWCiphertext", &mut || {
                    if let Ok(k) = RGSWCiphertext::from_bytes(&b, &f.par) {
                        drop(&k * &*w.ct[0].1);
                    }
                });
                call("BfvParameters", &mut || drop(BfvParameters::try_deserialize(&b)));
                let ctx = f.ctx(0)?;
                call("Poly", &mut || {
                    if let Ok(p) = Poly::<Ntt>::from_bytes(&b, &ctx) {
                        drop(&p * &p);
                    }
                });
                call("Poly", &mut || drop(Poly::<NttShoup>::from_bytes(&b, &ctx)));
            }
        }
    }
    cx.ev("hostile-calls", calls.len() as u64);
    cx.ev("hostile-panics", calls.iter().filter(|x| x.1).count() as u64);
    for (n, p) in &calls {
        cx.ev(&format!("hostile:{n}:{}", if *p { "panicked" } else { "returned" }), 1);
    }
    cx.seen((kind, cx.idx));
    Ok(())
}

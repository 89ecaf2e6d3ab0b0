//! C23: the transform back ends are interchangeable. This half records what a
//! build produces; the runner compares the records of two builds.
use crate::fixt::*;
use crate::gen_::*;
use crate::mon::*;
use crate::session::*;
use fhe_math::ntt::NttOperator;
use fhe_math::zq::Modulus;

pub fn property() -> Property {
    Property {
        id: "C23",
        rule: "a case is a world (random parameters, keys of every kind, plaintexts and ciphertexts of several levels, polynomials) and a history of operations whose results join it, or a transform of edge-biased vectors. Builds with either back end run the same cases from the same generator states, and every key, ciphertext part, wire form, decrypted or decoded value, polynomial and refusal is compared. Distinct = distinct (parameters, sequence of operations).",
        workloads: vec![
            Workload { name: "session", weight: 6, max: 0, f: |cx| session(cx, Want { budget: 30, max_k: 4, max_logn: 7, pool: 200, ..ANY }, 30) },
            Workload { name: "products", weight: 3, max: 0, f: |cx| session(cx, Want { budget: 70, min_k: 2, max_k: 4, max_logn: 6, max_t: 40, lo: 40, pool: 100, ..ANY }, 30) },
            Workload { name: "large", weight: 1, max: 0, f: |cx| session(cx, Want { budget: 40, max_k: 3, max_logn: 12, pool: 24, ..ANY }, 8) },
            Workload { name: "transform", weight: 6, max: 0, f: transform },
        ],
        required: vec![
            "results", "transforms", "add", "mul", "relinearize", "multiply", "rotate-rows", "rotate-columns", "inner-sum", "expand", "external-product", "dot-product", "switch", "encrypt", "encrypt-pk", "encrypt-rgsw",
            "decrypt", "noise", "encode", "serialize", "deserialize", "keys", "evaluation-keys", "joint-public-key", "key-switch-shares", "joint-relinearization-key", "polynomial", "scaling", "sampling", "words", "parameters", "refused",
        ],
        finish: None,
    }
}
fn session(cx: &mut Cx, w: Want, steps: usize) -> R {
    let f = fix(cx, w)?;
    if f.deepest(2).is_none() {
        return Err(Fail::Skip("no level with enough room"));
    }
    let mut w = World::new(&f, cx)?;
    cx.out("world", &w.snapshot());
    let mut ops = vec![];
    for _ in 0..cx.range(steps / 2, steps) {
        let (s, k) = (cx.u64(), cx.u(KINDS));
        let mut c = cx_of(s, 0);
        let o = w.run(k, &mut c)?;
        cx.out(o.name, &o.bytes);
        cx.ev(if o.ok { o.name } else { "refused" }, 1);
        cx.ev("results", 1);
        ops.push(o.name);
        w.absorb(o, cx);
    }
    cx.sample(|| format!("{}: {}", f.desc, ops.join(" ")));
    cx.seen((f.id, f.q.clone(), ops));
    Ok(())
}
fn transform(cx: &mut Cx) -> R {
    let n = 8usize << cx.u(10);
    let q = moduli(cx, n, 1, 10, 62);
    let Some(&q) = q.first() else { return Err(Fail::Skip("no prime")) };
    let m = Modulus::new(q).lib("Modulus::new")?;
    let Some(op) = NttOperator::new(&m, n) else {
        cx.out("no-operator", &[]);
        return Err(Fail::Skip("no operator"));
    };
    let v = residues(cx, n, q);
    let b = |v: &[u64]| -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() };
    let mut x = v.clone();
    op.forward(&mut x);
    cx.out("forward", &b(&x));
    let mut y = v.clone();
    op.backward(&mut y);
    cx.out("backward", &b(&y));
    let mut x = v.clone();
    unsafe { op.forward_vt(x.as_mut_ptr()) };
    cx.out("forward-vt", &b(&x));
    let mut y = v.clone();
    unsafe { op.backward_vt(y.as_mut_ptr()) };
    cx.out("backward-vt", &b(&y));
    cx.ev("transforms", 4);
    cx.seen((n, q, v));
    Ok(())
}

//! C18: variable-time execution is never enabled on secret data.
use super::polyhist::{Judge, history, vt};
use crate::fixt::*;
use crate::mon::*;
use fhe::bfv::{BfvParameters, Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, PlaintextVec, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar};
use fhe::mbfv::round::R1Aggregated;
use fhe::mbfv::{Aggregate, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare, SecretKeySwitchShare};
use fhe_math::ntt::NttOperator;
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent};
use fhe_math::zq::Modulus;
use fhe_traits::{DeserializeParametrized, DeserializeWithContext, FheDecoder, FheDecrypter, FheEncoder, FheEncoderVariableTime, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use prost::Message;
use std::collections::HashMap;
use std::sync::Arc;

pub fn property() -> Property {
    Property {
        id: "C18",
        rule: "four kinds of cases. Polynomial histories: random operations over polynomials with random permissions; a result that permits variable time although an operand did not is a violation. Scheme operations: one homomorphic operation on ciphertexts whose parts carry random permissions, run with all, none and the drawn permissions; results must be equal, each result part may permit only if every part it is computed from does, and with no permission no variable-time code may run (hook). Protected flows: key generation, encryption, decryption, encoding, key construction and the multiparty protocols under a hook that sees every operand of variable-time code; an operand that is the secret, one of its powers, substitutions or products, the message, the scaled message, the phase, or a small (sampled) vector is a violation. Wire: bytes that ask for the permission must not get it. Distinct = distinct (parameters, operation, permissions).",
        workloads: vec![
            Workload { name: "polynomials", weight: 3, max: 0, f: |cx| history(cx, Judge::Policy) },
            Workload { name: "scheme", weight: 5, max: 0, f: scheme },
            Workload { name: "protected", weight: 3, max: 0, f: protected },
            Workload { name: "multiparty", weight: 2, max: 0, f: multiparty },
            Workload { name: "wire", weight: 1, max: 0, f: wire },
        ],
        required: vec![
            "results-checked", "op:add", "op:mul", "op:convert", "op:dot", "scheme:add", "scheme:sub", "scheme:neg", "scheme:add-plain", "scheme:mul-plain", "scheme:mul", "scheme:square", "scheme:relinearize", "scheme:multiplicator",
            "scheme:switch-down", "scheme:rotate-columns", "scheme:rotate-rows", "scheme:inner-sum", "scheme:expand", "scheme:rgsw", "scheme:dot-product", "silent-runs", "protected:encrypt-sk", "protected:encrypt-pk",
            "protected:decrypt", "protected:noise", "protected:encode", "protected:relinearization-key", "protected:evaluation-key", "protected:rgsw", "protected:fresh-message", "protected:multiparty", "events-seen", "wire-refused",
        ],
        finish: None,
    }
}

pub struct Event {
    pub q: u64,
    pub op: &'static str,
    pub v: Vec<u64>,
}
/// Run library code, recording the operands of all variable-time code.
#[cfg(fhe_monitor)]
pub fn record<T>(f: impl FnOnce() -> R<T>) -> R<(T, Vec<Event>)> {
    use std::{cell::RefCell, rc::Rc};
    struct Restore;
    impl Drop for Restore {
        fn drop(&mut self) {
            fhe_math::monitor::replace(None);
        }
    }
    let log = Rc::new(RefCell::new(vec![]));
    let l = log.clone();
    let guard = Restore;
    fhe_math::monitor::replace(Some(Box::new(move |q, op, v| l.borrow_mut().push(Event { q, op, v: v.to_vec() }))));
    let r = f();
    drop(guard);
    let e = std::mem::take(&mut *log.borrow_mut());
    Ok((r?, e))
}
#[cfg(not(fhe_monitor))]
pub fn record<T>(f: impl FnOnce() -> R<T>) -> R<(T, Vec<Event>)> {
    Ok((f()?, vec![]))
}

fn set(ct: &Ciphertext, on: &[bool]) -> Ciphertext {
    let mut c = ct.clone();
    for (p, b) in c.iter_mut().zip(on) {
        if *b { p.allow_variable_time_computations(vt()) } else { p.disallow_variable_time_computations() }
    }
    c
}
fn flags(ct: &Ciphertext) -> Vec<bool> {
    ct.iter().map(|p| p.allows_variable_time_computations()).collect()
}

/// From which operands a part of the result is computed.
#[derive(Clone, Copy)]
enum Dep {
    /// the parts at the same position and every plaintext
    Same,
    /// as Same, but plaintexts enter the first part only
    Plain0,
    /// parts i, j with i + j = k
    Conv,
    /// a product brought back to two parts
    ConvRelin,
    /// key switching of the second part
    Ks,
    /// relinearization of three parts
    Relin,
    All,
}
fn may(dep: Dep, k: usize, cts: &[Vec<bool>], pts: &[bool]) -> bool {
    let conv = |k: usize| (0..cts[0].len()).all(|i| k < i || k - i >= cts[1].len() || (cts[0][i] && cts[1][k - i]));
    match dep {
        Dep::Same => cts.iter().all(|c| c[k]) && pts.iter().all(|p| *p),
        Dep::Plain0 => cts.iter().all(|c| c[k]) && (k != 0 || pts.iter().all(|p| *p)),
        Dep::Conv => conv(k),
        Dep::ConvRelin => conv(k) && conv(2),
        Dep::Ks => if k == 0 { cts[0][0] && cts[0][1] } else { cts[0][1] },
        Dep::Relin => cts[0][k] && cts[0][2],
        Dep::All => cts.iter().flatten().all(|x| *x) && pts.iter().all(|p| *p),
    }
}

type Op = Box<dyn Fn(&[Ciphertext], &[Plaintext]) -> R<Vec<Ciphertext>>>;
fn one(c: Ciphertext) -> R<Vec<Ciphertext>> {
    Ok(vec![c])
}

fn scheme(cx: &mut Cx) -> R {
    let f = fix(cx, Want { budget: 30, min_k: 2, max_k: 4, max_logn: 5, max_t: 70, small_t: true, ..ANY })?;
    let level = cx.u(f.q.len());
    if f.crt[level].q.bits() < f.t.bits() + 4 {
        return Err(Fail::Skip("no room"));
    }
    let sk = SecretKey::random(&f.par, &mut cx.fork());
    let n = f.n;
    let mut lens = vec![2usize, 2];
    let mut npt = 0usize;
    let key_level = cx.range(0, level);
    let relin_ok = level + 1 < f.q.len();
    let rk = |cx: &mut Cx| RelinearizationKey::new_leveled(&sk, level, cx.range(0, level.min(f.q.len() - 2)), &mut cx.fork()).lib("RelinearizationKey::new_leveled");
    let k = cx.u(16);
    let (name, dep, op): (&'static str, Dep, Op) = match k {
        0 => {
            lens = vec![cx.range(2, 4); 2];
            let w = cx.u(2);
            ("add", Dep::Same, Box::new(move |c, _| one(if w == 0 { &c[0] + &c[1] } else { let mut a = c[0].clone(); a += &c[1]; a })))
        }
        1 => {
            lens = vec![cx.range(2, 4); 2];
            let w = cx.u(2);
            ("sub", Dep::Same, Box::new(move |c, _| one(if w == 0 { &c[0] - &c[1] } else { let mut a = c[0].clone(); a -= &c[1]; a })))
        }
        2 => {
            lens = vec![cx.range(2, 4)];
            let w = cx.u(2);
            ("neg", Dep::Same, Box::new(move |c, _| one(if w == 0 { -&c[0] } else { -c[0].clone() })))
        }
        3 => {
            lens = vec![cx.range(2, 4)];
            npt = 1;
            let w = cx.u(3);
            ("add-plain", Dep::Plain0, Box::new(move |c, p| one(match w { 0 => &c[0] + &p[0], 1 => &p[0] + &c[0], _ => { let mut a = c[0].clone(); a += &p[0]; a } })))
        }
        4 => {
            lens = vec![cx.range(2, 4)];
            npt = 1;
            let w = cx.u(3);
            ("sub-plain", Dep::Plain0, Box::new(move |c, p| one(match w { 0 => &c[0] - &p[0], 1 => &p[0] - &c[0], _ => { let mut a = c[0].clone(); a -= &p[0]; a } })))
        }
        5 => {
            lens = vec![cx.range(2, 4)];
            npt = 1;
            let w = cx.u(2);
            ("mul-plain", Dep::Same, Box::new(move |c, p| one(if w == 0 { &c[0] * &p[0] } else { let mut a = c[0].clone(); a *= &p[0]; a })))
        }
        6 => {
            lens = vec![cx.range(2, 3), cx.range(2, 3)];
            ("mul", Dep::Conv, Box::new(|c, _| one(&c[0] * &c[1])))
        }
        7 => {
            lens = vec![cx.range(2, 3)];
            ("square", Dep::All, Box::new(|c, _| one(&c[0] * &c[0])))
        }
        8 if relin_ok => {
            lens = vec![3];
            let rk = rk(cx)?;
            ("relinearize", Dep::Relin, Box::new(move |c, _| { let mut a = c[0].clone(); rk.relinearizes(&mut a).lib("relinearizes")?; one(a) }))
        }
        9 if relin_ok => {
            let rk = rk(cx)?;
            let mut m = Multiplicator::default(&rk).lib("Multiplicator::default")?;
            if cx.coin(1, 2) {
                m.enable_mod_switching().lib("enable_mod_switching")?;
            }
            ("multiplicator", Dep::ConvRelin, Box::new(move |c, _| one(m.multiply(&c[0], &c[1]).lib("multiply")?)))
        }
        10 if level < f.max_level() => {
            lens = vec![cx.range(2, 4)];
            let to = cx.range(level + 1, f.max_level());
            ("switch-down", Dep::Same, Box::new(move |c, _| { let mut a = c[0].clone(); a.switch_to_level(to).lib("switch_to_level")?; one(a) }))
        }
        11 | 12 => {
            lens = vec![2];
            let mut b = EvaluationKeyBuilder::new_leveled(&sk, level, key_level).lib("EvaluationKeyBuilder")?;
            b.enable_inner_sum().lib("enable_inner_sum")?;
            b.enable_row_rotation().lib("enable_row_rotation")?;
            let i = cx.range(1, n / 2 - 1);
            b.enable_column_rotation(i).lib("enable_column_rotation")?;
            let mut ek = b.build(&mut cx.fork()).lib("build")?;
            if cx.coin(1, 3) {
                ek = EvaluationKey::from_bytes(&ek.to_bytes(), &f.par).lib("from_bytes")?;
            }
            match cx.u(3) {
                0 => ("rotate-columns", Dep::Ks, Box::new(move |c: &[Ciphertext], _: &[Plaintext]| one(ek.rotates_columns_by(&c[0], i).lib("rotates_columns_by")?)) as Op),
                1 => ("rotate-rows", Dep::Ks, Box::new(move |c, _| one(ek.rotates_rows(&c[0]).lib("rotates_rows")?))),
                _ => ("inner-sum", Dep::Ks, Box::new(move |c, _| one(ek.computes_inner_sum(&c[0]).lib("computes_inner_sum")?))),
            }
        }
        13 => {
            lens = vec![2];
            let l = cx.range(1, n.ilog2() as usize);
            let mut b = EvaluationKeyBuilder::new_leveled(&sk, level, key_level).lib("EvaluationKeyBuilder")?;
            b.enable_expansion(l).lib("enable_expansion")?;
            let ek = b.build(&mut cx.fork()).lib("build")?;
            let size = cx.range(2, 1 << l);
            ("expand", Dep::Ks, Box::new(move |c, _| ek.expands(&c[0], size).lib("expands")))
        }
        14 => {
            lens = vec![2];
            let m = f.rand_msg(cx);
            let r: RGSWCiphertext = sk.try_encrypt(&f.encode(&m, level)?, &mut cx.fork()).lib("rgsw")?;
            let w = cx.u(2);
            ("rgsw", Dep::All, Box::new(move |c, _| one(if w == 0 { &c[0] * &r } else { &r * &c[0] })))
        }
        _ => {
            let len = cx.range(2, 3);
            let count = cx.range(1, 5);
            lens = vec![len; count];
            npt = count;
            ("dot-product", Dep::Same, Box::new(|c, p| one(dot_product_scalar(c.iter(), p.iter()).lib("dot_product_scalar")?)))
        }
    };
    // operands
    let ctx = f.ctx(level)?;
    let mut cts = vec![];
    for l in &lens {
        let mut r = cx.fork();
        let polys: Vec<Poly<Ntt>> = (0..*l).map(|_| Poly::<Ntt>::random(&ctx, &mut r)).collect();
        let mut c = Ciphertext::new(polys, &f.par).lib("Ciphertext::new")?;
        if cx.coin(1, 6) {
            c = Ciphertext::from_bytes(&c.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?;
        }
        cts.push(c);
    }
    let mut pts: Vec<[Plaintext; 2]> = vec![];
    for _ in 0..npt {
        let v: Vec<u64> = f.rand_msg(cx).iter().map(|x| x.to_u64().unwrap()).collect();
        let e = || if f.simd && v[0] % 2 == 1 { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) };
        let a = Plaintext::try_encode(&v, e(), &f.par).lib("try_encode")?;
        let b = Plaintext::try_encode_vt(v.as_slice(), e(), &f.par, vt()).lib("try_encode_vt")?;
        check!(a == b, "scheme:encode-value", "encoding with and without permission differ; {}", f.desc);
        pts.push([a, b]);
    }
    let drawn: Vec<Vec<bool>> = lens.iter().map(|l| (0..*l).map(|_| cx.coin(2, 3)).collect()).collect();
    let dpt: Vec<bool> = (0..npt).map(|_| cx.coin(2, 3)).collect();
    let run = |cf: &[Vec<bool>], pf: &[bool]| -> R<(Vec<Ciphertext>, Vec<Event>)> {
        let c: Vec<Ciphertext> = cts.iter().zip(cf).map(|(c, f)| set(c, f)).collect();
        let p: Vec<Plaintext> = pts.iter().zip(pf).map(|(p, f)| p[*f as usize].clone()).collect();
        record(|| op(&c, &p))
    };
    let all: Vec<Vec<bool>> = lens.iter().map(|l| vec![true; *l]).collect();
    let none: Vec<Vec<bool>> = lens.iter().map(|l| vec![false; *l]).collect();
    let (ra, ea) = run(&all, &vec![true; npt])?;
    cx.ev("events-seen", ea.len() as u64);
    let same = |r: &[Ciphertext], what: &str| -> R {
        check!(r == ra.as_slice(), format!("scheme:value:{name}"), "{name}: the result with {what} differs from that with all permissions; level {level}; {}", f.desc);
        Ok(())
    };
    let (rn, en) = run(&none, &vec![false; npt])?;
    same(&rn, "no permissions")?;
    check!(rn.iter().all(|c| flags(c).iter().all(|x| !x)), format!("scheme:policy:{name}"), "{name} of operands without permission: {:?}; level {level}; {}", rn.iter().map(flags).collect::<Vec<_>>(), f.desc);
    check!(en.is_empty(), format!("scheme:ran:{name}"), "{name} of operands without permission ran {} variable-time operations (first: {} modulo {}); level {level}; {}", en.len(), en[0].op, en[0].q, f.desc);
    if en.is_empty() {
        cx.ev("silent-runs", 1);
    }
    let (rd, ed) = run(&drawn, &dpt)?;
    same(&rd, "drawn permissions")?;
    for c in &rd {
        for (i, b) in flags(c).iter().enumerate() {
            check!(!b || may(dep, i, &drawn, &dpt), format!("scheme:policy:{name}"), "{name}: part {i} of the result permits variable time; operands {drawn:?} {dpt:?}, level {level}; {}", f.desc);
        }
    }
    // no protected part is an operand of variable-time code
    let mut secret = Secrets::new(&f);
    for (c, fl) in cts.iter().zip(&drawn) {
        for (i, (p, on)) in c.iter().zip(fl).enumerate() {
            if !on {
                secret.poly("unpermitted ciphertext part", &set_poly(p));
                let _ = i;
            }
        }
    }
    secret.judge(cx, &format!("scheme:{name}"), &ed, false)?;
    cx.ev(&format!("scheme:{name}"), 1);
    cx.seen((f.id, f.q.clone(), level, name, drawn, dpt));
    Ok(())
}
fn set_poly(p: &Poly<Ntt>) -> Poly<Ntt> {
    let mut p = p.clone();
    p.disallow_variable_time_computations();
    p
}

/// Vectors no variable-time code may see.
struct Secrets {
    n: usize,
    rows: HashMap<(u64, Vec<u64>), &'static str>,
    ops: HashMap<u64, NttOperator>,
    moduli: Vec<u64>,
}
fn plain(v: &[u64]) -> bool {
    // too regular to identify anything
    let mut d: Vec<u64> = v.to_vec();
    d.sort_unstable();
    d.dedup();
    d.len() < 4
}
impl Secrets {
    fn new(f: &Fix) -> Self {
        let mut ops = HashMap::new();
        for q in f.q.iter().copied().chain(f.ts) {
            if let Some(o) = Modulus::new(q).ok().and_then(|m| NttOperator::new(&m, f.n)) {
                ops.insert(q, o);
            }
        }
        Secrets { n: f.n, rows: HashMap::new(), ops, moduli: f.q.clone() }
    }
    fn row(&mut self, name: &'static str, q: u64, v: Vec<u64>) {
        if !plain(&v) {
            self.rows.entry((q, v)).or_insert(name);
        }
    }
    /// A polynomial in both representations.
    fn poly(&mut self, name: &'static str, p: &Poly<Ntt>) {
        let qs = p.ctx().moduli().to_vec();
        for (q, r) in qs.iter().zip(p.coefficients().outer_iter()) {
            self.row(name, *q, r.to_vec());
        }
        let b = p.clone().into_power_basis();
        for (q, r) in qs.iter().zip(b.coefficients().outer_iter()) {
            self.row(name, *q, r.to_vec());
        }
    }
    /// Integer coefficients, modulo every modulus, in both representations.
    fn ints(&mut self, name: &'static str, v: &[i128]) {
        for q in self.moduli.clone() {
            let mut r: Vec<u64> = v.iter().map(|x| x.rem_euclid(q as i128) as u64).collect();
            self.row(name, q, r.clone());
            if let Some(o) = self.ops.get(&q) {
                o.forward(&mut r);
                self.row(name, q, r);
            }
        }
    }
    /// Residues modulo one modulus.
    fn residues(&mut self, name: &'static str, q: u64, v: &[u64]) {
        self.row(name, q, v.iter().map(|x| x % q).collect());
    }
    /// A small vector, as it is or after the inverse transform: sampled noise
    /// or a secret.
    fn small(&self, q: u64, v: &[u64]) -> bool {
        if q < 1 << 40 || v.len() != self.n {
            return false;
        }
        let is = |v: &[u64]| {
            let c: Vec<i64> = v.iter().map(|x| if *x > q / 2 { -((q - x) as i64) } else { *x as i64 }).collect();
            let mut d = c.clone();
            d.sort_unstable();
            d.dedup();
            c.iter().all(|x| x.unsigned_abs() <= 70) && c.iter().filter(|x| **x != 0).count() >= self.n / 4 && d.len() >= 3
        };
        if is(v) {
            return true;
        }
        let Some(o) = self.ops.get(&q) else { return false };
        let mut w = v.to_vec();
        o.backward(&mut w);
        is(&w)
    }
    fn judge(&self, cx: &mut Cx, what: &str, events: &[Event], small: bool) -> R {
        for e in events {
            let v: Vec<u64> = e.v.iter().map(|x| x % e.q).collect();
            if let Some(name) = self.rows.get(&(e.q, v.clone())) {
                viol!(format!("ran:{what}:{name}"), "{what}: the {name} is an operand of variable-time {} modulo {}", e.op, e.q);
            }
            if small {
                check!(!self.small(e.q, &v), format!("ran:{what}:small"), "{what}: a small secret vector is an operand of variable-time {} modulo {}: {:?}", e.op, e.q, &v[..4]);
            }
        }
        cx.ev("events-judged", events.len() as u64);
        cx.ev("events-seen", events.len() as u64);
        cx.ev("protected-vectors", self.rows.len() as u64);
        Ok(())
    }
    /// The secret itself, its powers, substitutions and digits.
    fn key(&mut self, f: &Fix, s: &[i64]) -> R {
        let v: Vec<i128> = s.iter().map(|x| *x as i128).collect();
        self.ints("secret key", &v);
        let sq = crate::model::negacyclic_big(&s.iter().map(|x| (*x).into()).collect::<Vec<_>>(), &s.iter().map(|x| (*x).into()).collect::<Vec<_>>());
        let sq: Vec<i128> = sq.iter().map(|x| x.to_i128().unwrap()).collect();
        self.ints("squared secret key", &sq);
        let ctx = f.ctx(f.max_level())?;
        for e in (3..2 * f.n).step_by(2) {
            let sub = crate::model::substitute_big(&s.iter().map(|x| (*x).into()).collect::<Vec<_>>(), e);
            let sub: Vec<i128> = sub.iter().map(|x| x.to_i128().unwrap()).collect();
            self.ints("substituted secret key", &sub);
        }
        // multiples used by digit decompositions
        let lb = f.q[0].next_power_of_two().ilog2() as usize / 2;
        if lb < 62 {
            self.ints("scaled secret key", &v.iter().map(|x| x << lb).collect::<Vec<_>>());
            self.ints("scaled squared secret key", &sq.iter().map(|x| x << lb).collect::<Vec<_>>());
        }
        let _ = ctx;
        Ok(())
    }
    fn message(&mut self, f: &Fix, m: &[BigUint], level: usize) {
        if let Some(t) = f.ts {
            let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
            self.residues("message", t, &v);
            self.ints("message", &v.iter().map(|x| *x as i128).collect::<Vec<_>>());
            if f.simd {
                if let Some(o) = self.ops.get(&t) {
                    let mut w = v.clone();
                    o.forward(&mut w);
                    self.residues("message slots", t, &w);
                }
            }
        } else {
            for q in f.q.clone() {
                let v: Vec<u64> = m.iter().map(|x| (x % q).to_u64().unwrap()).collect();
                self.row("message", q, v.clone());
                if let Some(o) = self.ops.get(&q) {
                    let mut w = v;
                    o.forward(&mut w);
                    self.row("message", q, w);
                }
            }
        }
        let scaled = f.scaled(m, level);
        for q in f.crt[level].moduli.clone() {
            let mut r: Vec<u64> = scaled.iter().map(|x| crate::model::modu(x, q)).collect();
            self.row("scaled message", q, r.clone());
            if let Some(o) = self.ops.get(&q) {
                o.forward(&mut r);
                self.row("scaled message", q, r);
            }
        }
    }
    /// c_i s^i and the phase of a ciphertext.
    fn ciphertext(&mut self, ct: &Ciphertext, s: &[i64]) -> R {
        let ctx = ct[0].ctx();
        let sp = Poly::<PowerBasis>::try_convert_from(s, ctx, false).prep("secret")?.into_ntt();
        let mut acc = set_poly(&ct[0]);
        let mut pw = sp.clone();
        for c in ct.iter().skip(1) {
            let p = &set_poly(c) * &pw;
            self.poly("part times secret", &p);
            self.poly("part times secret", &-&p);
            acc += &p;
            pw *= &sp;
            self.poly("power of the secret", &pw);
            self.poly("phase", &acc);
        }
        Ok(())
    }
}

fn large_fix(cx: &mut Cx) -> R<Arc<Fix>> {
    // moduli large enough to tell small vectors from random ones, and degrees
    // large enough to identify vectors
    let f = fix(cx, Want { budget: 12, min_k: 1, max_k: 4, max_logn: 6, lo: 40, pool: 150, ..ANY })?;
    if f.n < 16 || f.t.bits() < 3 {
        return Err(Fail::Skip("too small to identify vectors"));
    }
    Ok(f)
}
fn good_msg(cx: &mut Cx, f: &Fix) -> Vec<BigUint> {
    (0..f.n).map(|_| f.rand_big(cx)).collect()
}

fn protected(cx: &mut Cx) -> R {
    let f = large_fix(cx)?;
    let f = &*f;
    let level = f.level(cx, 8)?;
    let par: &Arc<BfvParameters> = &f.par;
    let mut r0 = cx.fork();
    let (sk, ev) = record(|| Ok(SecretKey::random(par, &mut r0)))?;
    let s = secret(&sk)?;
    let mut sec = Secrets::new(f);
    sec.key(f, &s)?;
    sec.judge(cx, "keygen", &ev, true)?;
    let m = good_msg(cx, f);
    sec.message(f, &m, level);
    let k = cx.u(7);
    cx.seen((f.id, f.q.clone(), level, k, m.clone()));
    // encoding of a secret message
    let simd = f.simd && cx.coin(1, 2);
    let enc = || if simd { Encoding::simd_at_level(level) } else { Encoding::poly_at_level(level) };
    let vals: Option<Vec<u64>> = f.ts.map(|_| m.iter().map(|x| x.to_u64().unwrap()).collect());
    let mode = cx.u(3);
    let (pt, ev) = record(|| match (&vals, mode) {
        (Some(v), 0) => Plaintext::try_encode(v, enc(), par).lib("try_encode"),
        (Some(v), 1) => PlaintextVec::try_encode(v.as_slice(), enc(), par).lib("try_encode").map(|p| p[0].clone()),
        _ => {
            if simd {
                Plaintext::try_encode(vals.as_ref().unwrap(), enc(), par).lib("try_encode")
            } else {
                Plaintext::try_encode(m.as_slice(), enc(), par).lib("try_encode")
            }
        }
    })?;
    let m = f.coeffs(&pt)?;
    sec.message(f, &m, level);
    sec.judge(cx, "encode", &ev, true)?;
    cx.ev("protected:encode", 1);
    let mut rng = cx.fork();
    match k {
        0 => {
            let (ct, ev): (Ciphertext, _) = record(|| sk.try_encrypt(&pt, &mut rng).lib("sk.try_encrypt"))?;
            sec.ciphertext(&ct, &s)?;
            sec.judge(cx, "encrypt-sk", &ev, true)?;
            cx.ev("protected:encrypt-sk", 1);
        }
        1 => {
            let (pk, ev) = record(|| Ok(PublicKey::new(&sk, &mut rng)))?;
            sec.judge(cx, "public-key", &ev, true)?;
            let pk = if cx.coin(1, 2) { PublicKey::from_bytes(&pk.to_bytes(), par).lib("PublicKey::from_bytes")? } else { pk };
            let (ct, ev): (Ciphertext, _) = record(|| pk.try_encrypt(&pt, &mut rng).lib("pk.try_encrypt"))?;
            sec.ciphertext(&ct, &s)?;
            sec.judge(cx, "encrypt-pk", &ev, true)?;
            cx.ev("protected:encrypt-pk", 1);
        }
        2 | 3 => {
            // ciphertexts of every shape, all parts permitted
            let len = cx.range(2, 4);
            let ph: Vec<num_bigint::BigInt> = f.scaled(&m, level);
            let mut ct = craft(cx, f, level, &s, len, &ph)?;
            ct = set(&ct, &vec![true; len]);
            sec.ciphertext(&ct, &s)?;
            let (d, ev) = record(|| sk.try_decrypt(&ct).lib("try_decrypt"))?;
            sec.judge(cx, "decrypt", &ev, true)?;
            cx.ev("protected:decrypt", 1);
            let (got, ev) = record(|| match (&vals, simd) {
                (Some(_), true) => Ok(Vec::<u64>::try_decode(&d, Encoding::simd_at_level(level)).lib("try_decode")?.into_iter().map(crate::model::big).collect()),
                (Some(_), false) if mode == 0 => Ok(Vec::<u64>::try_decode(&d, Encoding::poly_at_level(level)).lib("try_decode")?.into_iter().map(crate::model::big).collect()),
                _ => Vec::<BigUint>::try_decode(&d, Encoding::poly_at_level(level)).lib("try_decode"),
            })?;
            let _: Vec<BigUint> = got;
            sec.judge(cx, "decode", &ev, true)?;
            let (_, ev) = record(|| unsafe { sk.measure_noise(&ct) }.lib("measure_noise"))?;
            sec.judge(cx, "measure-noise", &ev, true)?;
            cx.ev("protected:noise", 1);
            // what was decrypted is secret: a product with it is not permitted
            let public = set(&ct, &vec![true; len]);
            let (p, ev) = record(|| Ok([&public * &d, &public + &d, &public - &d, &public * &pt]))?;
            sec.rows.retain(|_, name| *name != "part times secret");
            sec.judge(cx, "combine-decrypted", &ev, false)?;
            check!(p[0].iter().chain(p[3].iter()).all(|x| !x.allows_variable_time_computations()), "policy:decrypted", "a product with a secret plaintext permits variable time; {}", f.desc);
            check!(!p[1][0].allows_variable_time_computations() && !p[2][0].allows_variable_time_computations(), "policy:decrypted", "a sum with a secret plaintext permits variable time; {}", f.desc);
            let ctx = f.ctx(level)?;
            let q = Poly::<PowerBasis>::try_convert_from(&pt, &ctx, false).lib("plaintext-poly")?;
            check!(!q.allows_variable_time_computations(), "policy:plaintext-poly", "the polynomial of a secret plaintext permits variable time");
            cx.ev("protected:fresh-message", 1);
        }
        4 => {
            if f.q.len() < 2 || level + 1 >= f.q.len() {
                return Err(Fail::Skip("no room for a relinearization key"));
            }
            let kl = cx.range(0, level.min(f.q.len() - 2));
            let (rk, ev) = record(|| RelinearizationKey::new_leveled(&sk, level, kl, &mut rng).lib("RelinearizationKey::new_leveled"))?;
            sec.judge(cx, "relinearization-key", &ev, true)?;
            let (_, ev) = record(|| RelinearizationKey::from_bytes(&rk.to_bytes(), par).lib("from_bytes"))?;
            sec.judge(cx, "relinearization-key", &ev, true)?;
            cx.ev("protected:relinearization-key", 1);
        }
        5 => {
            let kl = cx.range(0, level);
            let i = cx.range(1, f.n / 2 - 1);
            let (ek, ev) = record(|| {
                let mut b = EvaluationKeyBuilder::new_leveled(&sk, level, kl).lib("EvaluationKeyBuilder")?;
                b.enable_row_rotation().lib("enable_row_rotation")?;
                b.enable_column_rotation(i).lib("enable_column_rotation")?;
                b.enable_expansion(2).lib("enable_expansion")?;
                b.build(&mut rng).lib("build")
            })?;
            sec.judge(cx, "evaluation-key", &ev, true)?;
            let (_, ev) = record(|| EvaluationKey::from_bytes(&ek.to_bytes(), par).lib("from_bytes"))?;
            sec.judge(cx, "evaluation-key", &ev, true)?;
            cx.ev("protected:evaluation-key", 1);
        }
        _ => {
            let (_, ev): (RGSWCiphertext, _) = record(|| sk.try_encrypt(&pt, &mut rng).lib("try_encrypt(rgsw)"))?;
            // m s, the payload of the second half
            let ctx = f.ctx(level)?;
            let mp = Poly::<PowerBasis>::try_convert_from(m.as_slice(), &ctx, false).prep("message")?.into_ntt();
            let sp = Poly::<PowerBasis>::try_convert_from(s.as_slice(), &ctx, false).prep("secret")?.into_ntt();
            sec.poly("message times secret", &(&mp * &sp));
            sec.judge(cx, "rgsw", &ev, true)?;
            cx.ev("protected:rgsw", 1);
        }
    }
    Ok(())
}

fn multiparty(cx: &mut Cx) -> R {
    let f = large_fix(cx)?;
    let f = &*f;
    let level = f.level(cx, 8)?;
    let par = &f.par;
    let np = cx.range(1, 3);
    let mut sks = vec![];
    let mut sec = Secrets::new(f);
    for _ in 0..np {
        let sk = SecretKey::random(par, &mut cx.fork());
        sec.key(f, &secret(&sk)?)?;
        sks.push(sk);
    }
    let js: Vec<i64> = {
        let v = sks.iter().map(secret).collect::<R<Vec<_>>>()?;
        (0..f.n).map(|i| v.iter().map(|x| x[i]).sum()).collect()
    };
    sec.key(f, &js)?;
    let m = good_msg(cx, f);
    sec.message(f, &m, level);
    let mut rng = cx.fork();
    let k = cx.u(5);
    cx.seen(("mp", f.id, f.q.clone(), level, k, m.clone()));
    let ph = f.scaled(&m, level);
    let ct = craft(cx, f, level, &js, 2, &ph)?;
    let ct = Arc::new(set(&ct, &[true, true]));
    for sk in &sks {
        sec.ciphertext(&ct, &secret(sk)?)?;
    }
    sec.ciphertext(&ct, &js)?;
    let (what, ev) = match k {
        0 => {
            let crp = CommonRandomPoly::new(par, &mut rng).lib("CommonRandomPoly::new")?;
            let (_, ev) = record(|| {
                let mut v = vec![];
                for sk in &sks {
                    v.push(PublicKeyShare::new(sk, crp.clone(), &mut rng).lib("PublicKeyShare::new")?);
                }
                PublicKey::from_shares(v).lib("from_shares")
            })?;
            ("mp-public-key", ev)
        }
        1 => {
            if f.q.len() < 2 {
                return Err(Fail::Skip("no relinearization with one modulus"));
            }
            let crp = CommonRandomPoly::new_vec(par, &mut rng).lib("new_vec")?;
            let (_, ev) = record(|| {
                let mut gens = vec![];
                for sk in &sks {
                    gens.push(RelinKeyGenerator::new(sk, &crp, &mut rng).lib("RelinKeyGenerator::new")?);
                }
                let mut r1 = vec![];
                for g in &gens {
                    r1.push(g.round_1(&mut rng).lib("round_1")?);
                }
                let agg = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares(r1).lib("from_shares")?);
                let mut r2 = vec![];
                for g in &gens {
                    r2.push(g.round_2(&agg, &mut rng).lib("round_2")?);
                }
                RelinearizationKey::from_shares(r2).lib("from_shares")
            })?;
            ("mp-relinearization-key", ev)
        }
        2 => {
            let out = SecretKey::random(par, &mut rng);
            let so = secret(&out)?;
            sec.key(f, &so)?;
            for sk in &sks {
                let s = secret(sk)?;
                let d: Vec<i64> = s.iter().zip(&so).map(|(a, b)| a - b).collect();
                sec.key(f, &d)?;
                sec.ciphertext(&ct, &d)?;
            }
            let (_, ev) = record(|| {
                let mut v = vec![];
                for sk in &sks {
                    v.push(SecretKeySwitchShare::new(sk, &out, ct.clone(), &mut rng).lib("SecretKeySwitchShare::new")?);
                }
                Ciphertext::from_shares(v).lib("from_shares")
            })?;
            ("mp-secret-key-switch", ev)
        }
        3 => {
            let out = SecretKey::random(par, &mut rng);
            sec.key(f, &secret(&out)?)?;
            let pk = PublicKey::new(&out, &mut rng);
            let (_, ev) = record(|| {
                let mut v = vec![];
                for sk in &sks {
                    v.push(PublicKeySwitchShare::new(sk, &pk, &ct, &mut rng).lib("PublicKeySwitchShare::new")?);
                }
                Ciphertext::from_shares(v).lib("from_shares")
            })?;
            ("mp-public-key-switch", ev)
        }
        _ => {
            let (_, ev) = record(|| {
                let mut v = vec![];
                for sk in &sks {
                    v.push(DecryptionShare::new(sk, &ct, &mut rng).lib("DecryptionShare::new")?);
                }
                Plaintext::from_shares(v).lib("from_shares")
            })?;
            ("mp-decrypt", ev)
        }
    };
    sec.judge(cx, what, &ev, true)?;
    cx.ev("protected:multiparty", 1);
    Ok(())
}

/// Nothing read from bytes permits variable time by its own word.
fn wire(cx: &mut Cx) -> R {
    let f = fix(cx, Want { pool: 60, ..ANY })?;
    let level = cx.u(f.q.len());
    let ctx = f.ctx(level)?;
    let mut r = cx.fork();
    let mut p = Poly::<Ntt>::random(&ctx, &mut r);
    p.allow_variable_time_computations(vt());
    macro_rules! t {
        ($ty:ty, $p:expr) => {{
            let b = $p.to_bytes();
            let mut w = RqWire::decode(b.as_slice()).prep("wire polynomial")?;
            w.allow_variable_time = true;
            for bytes in [b, w.encode_to_vec()] {
                let q = Poly::<$ty>::from_bytes(&bytes, &ctx).lib("Poly::from_bytes")?;
                check!(!q.allows_variable_time_computations(), "wire:permitted", "a polynomial read from bytes permits variable time; {}", f.desc);
                check!(q == $p, "wire:value", "a polynomial changed by serialization; {}", f.desc);
                cx.ev("wire-refused", 1);
            }
        }};
    }
    t!(Ntt, p);
    t!(PowerBasis, p.clone().into_power_basis());
    t!(NttShoup, p.clone().into_ntt_shoup());
    // substituting and switching keep, never gain
    let mut q = p.clone();
    q.disallow_variable_time_computations();
    let e = 2 * cx.u(f.n) + 1;
    let se = SubstitutionExponent::new(&ctx, e).lib("SubstitutionExponent::new")?;
    check!(!q.substitute(&se).lib("substitute")?.allows_variable_time_computations(), "policy:substitute", "substitution permits variable time");
    let zero = BigUint::zero();
    check!(!(&q * &zero).allows_variable_time_computations(), "policy:scalar", "a scalar product permits variable time");
    cx.seen(("wire", f.id, level, e));
    Ok(())
}

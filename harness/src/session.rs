//! Worlds of shared library objects, and operations on them that are functions
//! of the world and a seed: run twice, on another thread or in another build,
//! they must give the same bytes.
use crate::fixt::*;
use crate::mon::*;
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_math::rns::{RnsContext, ScalingFactor};
use fhe_math::rq::scaler::Scaler;
use fhe_math::rq::switcher::Switcher;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, traits::TryConvertFrom};
use fhe_math::zq::Modulus;
use fhe_traits::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

pub fn cx_of(seed: u64, i: u64) -> Cx {
    Cx { rng: case_rng("session", "op", seed, i), idx: i, seed, thorough: false, stats: Stats::default(), sample: None, trace: vec![], outs: vec![] }
}
/// What an operation produced.
pub struct Out {
    pub name: &'static str,
    pub bytes: Vec<u8>,
    pub ct: Option<(usize, Ciphertext)>,
    pub ok: bool,
}
pub struct World {
    pub f: Arc<Fix>,
    pub sk: SecretKey,
    pub sk2: SecretKey,
    pub pk: PublicKey,
    pub rk: Vec<(usize, RelinearizationKey)>,
    pub ek: Vec<(usize, EvaluationKey)>,
    pub mul: Vec<(usize, Multiplicator)>,
    pub rgsw: Vec<(usize, RGSWCiphertext)>,
    pub pt: Vec<(usize, Plaintext)>,
    pub ct: Vec<(usize, Arc<Ciphertext>)>,
    pub poly: Vec<(usize, Poly<PowerBasis>)>,
}
fn b64(v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn bbig(v: &[BigUint]) -> Vec<u8> {
    v.iter().flat_map(|x| [vec![x.bits() as u8], x.to_bytes_le()].concat()).collect()
}
fn bpb(p: &Poly<PowerBasis>) -> Vec<u8> {
    [b64(p.coefficients().as_slice().unwrap()), vec![p.allows_variable_time_computations() as u8]].concat()
}
fn bntt(p: &Poly<Ntt>) -> Vec<u8> {
    [b64(p.coefficients().as_slice().unwrap()), vec![p.allows_variable_time_computations() as u8]].concat()
}
fn bsh(p: &Poly<NttShoup>) -> Vec<u8> {
    [b64(p.coefficients().as_slice().unwrap()), vec![p.allows_variable_time_computations() as u8]].concat()
}
pub fn bct(c: &Ciphertext) -> Vec<u8> {
    // every part, and the wire form
    let mut v: Vec<u8> = c.iter().flat_map(bntt).collect();
    v.extend(c.to_bytes());
    v
}

/// Kinds of operations.
pub const KINDS: usize = 41;
impl World {
    pub fn new(f: &Arc<Fix>, cx: &mut Cx) -> R<World> {
        let sk = SecretKey::random(&f.par, &mut cx.fork());
        let sk2 = SecretKey::random(&f.par, &mut cx.fork());
        let pk = PublicKey::new(&sk, &mut cx.fork());
        let mut w = World { f: f.clone(), sk, sk2, pk, rk: vec![], ek: vec![], mul: vec![], rgsw: vec![], pt: vec![], ct: vec![], poly: vec![] };
        let deep = f.deepest(2).unwrap_or(0);
        for level in 0..=deep {
            if level > 2 {
                break;
            }
            if f.q.len() - level > 1 {
                let kl = cx.range(0, level);
                let rk = RelinearizationKey::new_leveled(&w.sk, level, kl, &mut cx.fork()).lib("RelinearizationKey::new_leveled")?;
                if level == 0 {
                    // the default multiplicator needs room for an extended basis
                    if let Ok(m) = Multiplicator::default(&rk) {
                        w.mul.push((0, m));
                    }
                }
                w.rk.push((level, rk));
            }
            let kl = cx.range(0, level);
            let mut b = EvaluationKeyBuilder::new_leveled(&w.sk, level, kl).lib("EvaluationKeyBuilder::new_leveled")?;
            if cx.coin(1, 2) {
                b.enable_row_rotation().lib("enable_row_rotation")?;
                b.enable_column_rotation(1).lib("enable_column_rotation")?;
                b.enable_column_rotation(f.n / 4).lib("enable_column_rotation")?;
            } else if cx.coin(1, 2) {
                b.enable_inner_sum().lib("enable_inner_sum")?;
            }
            b.enable_expansion(cx.range(1, f.n.trailing_zeros() as usize)).lib("enable_expansion")?;
            w.ek.push((level, b.build(&mut cx.fork()).lib("EvaluationKeyBuilder::build")?));
            let pt = f.encode(&f.rand_msg(cx), level)?;
            if f.q.len() - level > 1 {
                let g: RGSWCiphertext = w.sk.try_encrypt(&pt, &mut cx.fork()).lib("rgsw encryption")?;
                w.rgsw.push((level, g));
            }
            for _ in 0..2 {
                let pt = f.encode(&f.rand_msg(cx), level)?;
                let c: Ciphertext = w.sk.try_encrypt(&pt, &mut cx.fork()).lib("encrypt")?;
                w.ct.push((level, Arc::new(c)));
                let c: Ciphertext = w.pk.try_encrypt(&pt, &mut cx.fork()).lib("encrypt")?;
                w.ct.push((level, Arc::new(c)));
                w.pt.push((level, pt));
            }
            w.pt.push((level, pt));
            let ctx = f.ctx(level)?;
            w.poly.push((level, Poly::<PowerBasis>::random(&ctx, &mut cx.fork())));
            let mut p = Poly::<PowerBasis>::random(&ctx, &mut cx.fork());
            p.allow_variable_time_computations(VariableTime::new(PublicData::assert_public()));
            w.poly.push((level, p));
        }
        Ok(w)
    }
    /// Everything shared, as bytes.
    pub fn snapshot(&self) -> Vec<u8> {
        let mut v = self.f.par.to_bytes();
        v.extend(self.sk.to_bytes());
        v.extend(self.sk2.to_bytes());
        v.extend(self.pk.to_bytes());
        self.rk.iter().for_each(|x| v.extend(x.1.to_bytes()));
        self.ek.iter().for_each(|x| v.extend(x.1.to_bytes()));
        self.rgsw.iter().for_each(|x| v.extend(x.1.to_bytes()));
        self.ct.iter().for_each(|x| v.extend(bct(&x.1)));
        for (l, p) in &self.pt {
            v.push(*l as u8);
            v.extend(bbig(&self.f.coeffs(p).unwrap_or_default()));
        }
        self.poly.iter().for_each(|x| v.extend(bpb(&x.1)));
        v
    }
    pub fn op(&self, seed: u64, i: u64) -> R<Out> {
        let mut cx = cx_of(seed, i);
        let cx = &mut cx;
        let k = cx.u(KINDS);
        self.run(k, cx)
    }
    /// One operation; whatever goes wrong is an outcome, too.
    pub fn run(&self, k: usize, cx: &mut Cx) -> R<Out> {
        let (name, e) = match catching(|| self.run_inner(k, cx)) {
            Ok(Ok(o)) => return Ok(o),
            Ok(Err(Fail::Violation { sig, msg })) => ("unexpected", format!("{sig} {msg}")),
            Ok(Err(e)) => return Err(e),
            Err(p) if p.in_harness => return Err(Fail::Harness(format!("{} at {}", p.msg, p.loc))),
            Err(p) => ("panicked", p.msg),
        };
        if std::env::var("SESSION_DEBUG").is_ok() {
            eprintln!("UNEXPECTED {k} {e}");
        }
        Ok(Out { name, bytes: e.into_bytes(), ct: None, ok: false })
    }
    fn run_inner(&self, k: usize, cx: &mut Cx) -> R<Out> {
        let f = &self.f;
        let par = &f.par;
        let lv = self.ct[cx.u(self.ct.len())].0;
        let (l, a) = self.ct[cx.u(self.ct.len())].clone();
        let peers: Vec<&Arc<Ciphertext>> = self.ct.iter().filter(|x| x.0 == l && x.1.len() == a.len()).map(|x| &x.1).collect();
        let b = peers[cx.u(peers.len())];
        let pts: Vec<&Plaintext> = self.pt.iter().filter(|x| x.0 == l).map(|x| &x.1).collect();
        let pt = pts[cx.u(pts.len())];
        let g: ChaCha8Rng = ChaCha8Rng::seed_from_u64(cx.u64());
        let mut r = g.clone();
        let fail = |name: &'static str, e: String| Ok(Out { name, bytes: e.into_bytes(), ct: None, ok: false });
        macro_rules! ct {
            ($name:expr, $e:expr) => {{
                let c: Ciphertext = $e;
                Ok(Out { name: $name, bytes: bct(&c), ct: Some((l, c)), ok: true })
            }};
        }
        macro_rules! by {
            ($name:expr, $e:expr) => {
                Ok(Out { name: $name, bytes: $e, ct: None, ok: true })
            };
        }
        macro_rules! tryct {
            ($name:expr, $e:expr) => {
                match $e {
                    Ok(c) => ct!($name, c),
                    Err(e) => fail($name, format!("{e:?}")),
                }
            };
        }
        macro_rules! tryby {
            ($name:expr, $e:expr, $f:expr) => {
                match $e {
                    Ok(c) => by!($name, $f(c)),
                    Err(e) => fail($name, format!("{e:?}")),
                }
            };
        }
        let (pl, p) = &self.poly[cx.u(self.poly.len())];
        let pctx = f.ctx(*pl)?;
        match k {
            0 => ct!("add", &*a + &**b),
            1 => ct!("sub", &*a - &**b),
            2 => ct!("neg", -&*a),
            3 => ct!("add-pt", &*a + pt),
            4 => ct!("sub-pt", pt - &*a),
            5 => ct!("mul-pt", &*a * pt),
            6 | 7 => {
                if a.len() + b.len() > 5 {
                    return ct!("mul-pt", &*a * pt);
                }
                ct!("mul", if k == 6 { &*a * &**b } else { &*a * &*a })
            }
            8 | 9 => {
                let Some((_, rk)) = self.rk.iter().find(|x| x.0 == l) else { return fail("relinearize", "no key".into()) };
                let mut c = if a.len() > 2 { (*a).clone() } else { &*a * &**b };
                tryct!("relinearize", rk.relinearizes(&mut c).map(|_| c))
            }
            10 => {
                let Some((_, m)) = self.mul.first() else { return fail("multiply", "no multiplicator".into()) };
                tryct!("multiply", m.multiply(&a, b))
            }
            11 => {
                let Some((_, rk)) = self.rk.iter().find(|x| x.0 == l) else { return fail("multiply-level", "no key".into()) };
                let m = Multiplicator::default(rk).and_then(|mut m| {
                    if cx.coin(1, 2) {
                        m.enable_mod_switching()?;
                    }
                    Ok(m)
                });
                match m.and_then(|m| m.multiply(&a, b)) {
                    Ok(c) => {
                        let l2 = lvl(f, &c);
                        by!("multiply-level", [bct(&c), vec![l2 as u8]].concat())
                    }
                    Err(e) => fail("multiply-level", format!("{e:?}")),
                }
            }
            12..=15 => {
                let (_, ek) = self.ek.iter().find(|x| x.0 == l).unwrap();
                match k {
                    12 => tryct!("rotate-rows", ek.rotates_rows(&a)),
                    13 => {
                        let by = *cx.pick(&[1, f.n / 4, 2]);
                        tryct!("rotate-columns", ek.rotates_columns_by(&a, by))
                    }
                    14 => tryct!("inner-sum", ek.computes_inner_sum(&a)),
                    _ => {
                        let size = cx.range(1, f.n);
                        tryby!("expand", ek.expands(&a, size), |v: Vec<Ciphertext>| v.iter().flat_map(bct).collect())
                    }
                }
            }
            16 | 17 => {
                if a.len() != 2 {
                    return fail("external-product", "length".into());
                }
                let Some((_, g)) = self.rgsw.iter().find(|x| x.0 == l) else { return fail("external-product", "no operand".into()) };
                ct!("external-product", if k == 16 { &*a * g } else { g * &*a })
            }
            18 => {
                let n = cx.range(1, 5);
                let cs: Vec<&Ciphertext> = (0..n).map(|_| &**peers[cx.u(peers.len())]).collect();
                let ps: Vec<&Plaintext> = (0..n).map(|_| pts[cx.u(pts.len())]).collect();
                tryct!("dot-product", dot_product_scalar(cs.iter().copied(), ps.iter().copied()))
            }
            19 => {
                let mut c = (*a).clone();
                let to = cx.range(0, f.max_level());
                let e = c.switch_to_level(to);
                let d = c.switch_down();
                by!("switch", [format!("{e:?} {d:?}").into_bytes(), bct(&c)].concat())
            }
            20 => tryct!("encrypt", SecretKey::try_encrypt(&self.sk, pt, &mut r)),
            21 => tryct!("encrypt-pk", self.pk.try_encrypt(pt, &mut r)),
            22 => tryby!("encrypt-rgsw", SecretKey::try_encrypt(&self.sk, pt, &mut r), |c: RGSWCiphertext| c.to_bytes()),
            23 | 24 => {
                let sk = if k == 23 { &self.sk } else { &self.sk2 };
                tryby!("decrypt", sk.try_decrypt(&a), |p: Plaintext| bbig(&Vec::<BigUint>::try_decode(&p, Encoding::poly_at_level(l)).unwrap_or_default()))
            }
            25 => tryby!("noise", unsafe { self.sk.measure_noise(&a) }, |x: usize| x.to_le_bytes().to_vec()),
            26 => {
                let e = if f.simd { Encoding::simd_at_level(lv) } else { Encoding::poly_at_level(lv) };
                let m = f.rand_msg(cx);
                let enc = match f.ts {
                    Some(_) => {
                        let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
                        if cx.coin(1, 2) {
                            Plaintext::try_encode_vt(v.as_slice(), e.clone(), par, VariableTime::new(PublicData::assert_public()))
                        } else {
                            Plaintext::try_encode(v.as_slice(), e.clone(), par)
                        }
                    }
                    None => Plaintext::try_encode(m.as_slice(), e.clone(), par),
                };
                let enc = enc.lib("encode")?;
                let d = Vec::<BigUint>::try_decode(&enc, e).lib("decode")?;
                by!("encode", [bbig(&f.coeffs(&enc)?), bbig(&d)].concat())
            }
            27 => {
                // serialization and reading back
                let o: Vec<u8> = match cx.u(7) {
                    0 => self.sk.to_bytes(),
                    1 => self.pk.to_bytes(),
                    2 => self.ek[cx.u(self.ek.len())].1.to_bytes(),
                    3 => par.to_bytes(),
                    4 if !self.rgsw.is_empty() => self.rgsw[cx.u(self.rgsw.len())].1.to_bytes(),
                    5 if !self.rk.is_empty() => self.rk[cx.u(self.rk.len())].1.to_bytes(),
                    _ => Ciphertext::from_bytes(&a.to_bytes(), par).lib("Ciphertext::from_bytes")?.to_bytes(),
                };
                by!("serialize", o)
            }
            28 => {
                let b = &self.ek[cx.u(self.ek.len())].1;
                let e = EvaluationKey::from_bytes(&b.to_bytes(), par).lib("EvaluationKey::from_bytes")?;
                let mut v = e.to_bytes();
                v.push((e == *b) as u8);
                if let Some((_, rk)) = self.rk.first() {
                    let k = RelinearizationKey::from_bytes(&rk.to_bytes(), par).lib("RelinearizationKey::from_bytes")?;
                    v.push((k == *rk) as u8);
                }
                by!("deserialize", v)
            }
            29 => {
                let sk = SecretKey::random(par, &mut r);
                let pk = PublicKey::new(&sk, &mut r);
                by!("keys", [sk.to_bytes(), pk.to_bytes()].concat())
            }
            30 => {
                let level = lv;
                let mut v = vec![];
                if f.q.len() - level > 1 {
                    v.extend(RelinearizationKey::new_leveled(&self.sk, level, level, &mut r).lib("RelinearizationKey::new_leveled")?.to_bytes());
                }
                let mut b = EvaluationKeyBuilder::new_leveled(&self.sk, level, level).lib("EvaluationKeyBuilder::new_leveled")?;
                b.enable_row_rotation().lib("enable_row_rotation")?;
                b.enable_column_rotation(cx.range(1, f.n / 2 - 1)).lib("enable_column_rotation")?;
                v.extend(b.build(&mut r).lib("EvaluationKeyBuilder::build")?.to_bytes());
                by!("evaluation-keys", v)
            }
            31 => {
                let crp = CommonRandomPoly::new(par, &mut r).lib("CommonRandomPoly::new")?;
                let s = [&self.sk, &self.sk2].iter().map(|s| PublicKeyShare::new(s, crp.clone(), &mut r)).collect::<Result<Vec<_>, _>>().lib("PublicKeyShare::new")?;
                by!("joint-public-key", PublicKey::from_shares(s).lib("PublicKey::from_shares")?.to_bytes())
            }
            32 => {
                if a.len() != 2 {
                    return fail("key-switch-shares", "length".into());
                }
                let s = SecretKeySwitchShare::new(&self.sk, &self.sk2, a.clone(), &mut r).and_then(|x| Ciphertext::from_shares([x])).lib("SecretKeySwitchShare")?;
                let d = DecryptionShare::new(&self.sk, &a, &mut r).and_then(|x| Plaintext::from_shares([x])).lib("DecryptionShare")?;
                let q = PublicKeySwitchShare::new(&self.sk, &self.pk, &a, &mut r).and_then(|x| Ciphertext::from_shares([x])).lib("PublicKeySwitchShare")?;
                by!("key-switch-shares", [bct(&s), bbig(&f.coeffs(&d)?), bct(&q)].concat())
            }
            33 => {
                if f.q.len() < 2 {
                    return fail("joint-relinearization-key", "one modulus".into());
                }
                let crp = CommonRandomPoly::new_vec(par, &mut r).lib("CommonRandomPoly::new_vec")?;
                let gens = [&self.sk, &self.sk2].iter().map(|s| RelinKeyGenerator::new(s, &crp, &mut r)).collect::<Result<Vec<_>, _>>().lib("RelinKeyGenerator::new")?;
                let r1 = gens.iter().map(|x| x.round_1(&mut r)).collect::<Result<Vec<_>, _>>().lib("round_1")?;
                let r1 = Arc::new(RelinKeyShare::<round::R1Aggregated>::from_shares(r1).lib("R1 aggregation")?);
                let r2 = gens.iter().map(|x| x.round_2(&r1, &mut r)).collect::<Result<Vec<_>, _>>().lib("round_2")?;
                by!("joint-relinearization-key", RelinearizationKey::from_shares(r2).lib("R2 aggregation")?.to_bytes())
            }
            34 => {
                // polynomials: representations, products, substitutions
                let n = p.clone().into_ntt();
                let sh = p.clone().into_ntt_shoup();
                let q = self.poly.iter().find(|x| x.0 == *pl).unwrap().1.clone().into_ntt();
                let prod = &n * &q;
                let prod2 = &q * &sh;
                let e = 2 * cx.u(f.n) + 1;
                let ex = SubstitutionExponent::new(&pctx, e).lib("SubstitutionExponent::new")?;
                let s1 = n.substitute(&ex).lib("substitute")?;
                let s2 = p.substitute(&ex).lib("substitute")?;
                let s3 = sh.substitute(&ex).lib("substitute")?;
                let back = prod.clone().into_power_basis();
                by!("polynomial", [bntt(&n), bsh(&sh), bntt(&prod), bntt(&prod2), bntt(&s1), bpb(&s2), bsh(&s3), bpb(&back), prod.to_bytes(), p.to_bytes()].concat())
            }
            35 => {
                let up = f.ctx(0)?;
                let sw = Switcher::new(&pctx, &up).lib("Switcher::new")?;
                let sc = Scaler::new(&pctx, &up, ScalingFactor::new(&BigUint::from(cx.range(1, 1000)), &BigUint::from(cx.range(1, 1000)))).lib("Scaler::new")?;
                let mut v = bpb(&p.switch(&sw).lib("switch")?);
                v.extend(bpb(&p.scale(&sc).lib("scale")?));
                v.extend(bntt(&p.clone().into_ntt().scale(&sc).lib("scale")?));
                let mut d = p.clone();
                let e = d.switch_down();
                v.extend(format!("{e:?}").bytes());
                v.extend(bpb(&d));
                by!("scaling", v)
            }
            36 => {
                let mut s = [0u8; 32];
                rand::Rng::fill_bytes(&mut r, &mut s);
                let a = Poly::<Ntt>::random_from_seed(&pctx, s);
                let b = Poly::<NttShoup>::small(&pctx, f.v, &mut r).lib("small")?;
                let c = Poly::<PowerBasis>::small(&pctx, f.v, &mut r).lib("small")?;
                by!("sampling", [bntt(&a), bsh(&b), bpb(&c)].concat())
            }
            37 => {
                let q = *cx.pick(&f.q);
                let m = Modulus::new(q).lib("Modulus::new")?;
                let mut v = m.random_vec(f.n, &mut r);
                let w = m.random_vec(f.n, &mut r);
                m.mul_vec(&mut v, &w);
                let op = fhe_math::ntt::NttOperator::new(&m, f.n).ok_or(()).lib("NttOperator::new")?;
                op.forward(&mut v);
                let mut x = v.clone();
                op.backward(&mut x);
                let rns = RnsContext::new(&f.q).lib("RnsContext::new")?;
                let y: Vec<u64> = f.q.iter().map(|q| cx.u64() % q).collect();
                let z = rns.lift(ndarray::ArrayView1::from(&y));
                by!("words", [b64(&v), b64(&x), bbig(&[z.clone()]), b64(&rns.project(&z))].concat())
            }
            38 => {
                let mut b = BfvParametersBuilder::new();
                b.set_degree(f.n).set_moduli(&f.q).set_variance(f.v);
                match f.ts {
                    Some(t) => b.set_plaintext_modulus(t),
                    None => b.set_plaintext_modulus_biguint(f.t.clone()),
                };
                let p = b.build_arc().lib("build_arc")?;
                let back = BfvParameters::try_deserialize(&par.to_bytes()).lib("try_deserialize")?;
                let bits = cx.range(20, 62);
                let x = fhe_math::zq::primes::generate_prime(bits, 2 * f.n as u64, (1 << bits) - (cx.u64() >> (70 - bits)));
                by!("parameters", [p.to_bytes(), vec![(back == **par) as u8, (p == *par) as u8], format!("{x:?}").into_bytes()].concat())
            }
            39 => {
                let mut c = (*a).clone();
                c += &**b;
                c -= &*a;
                c *= pt;
                c += pt;
                c -= &**b;
                ct!("assign", c)
            }
            _ => {
                let z = Ciphertext::zero(par);
                let s = &z + &*a;
                let t = &*a - &z;
                let u = &z - &*a;
                by!("zero", [bct(&s), bct(&t), bct(&u), vec![z.is_empty() as u8]].concat())
            }
        }
    }
    /// Let the result of an operation join the world.
    pub fn absorb(&mut self, o: Out, cx: &mut Cx) {
        if let Some((l, c)) = o.ct {
            if self.ct.len() < 24 {
                self.ct.push((l, Arc::new(c)));
            } else {
                let i = cx.range(4, self.ct.len() - 1);
                // levels must not die out
                if self.ct[i].0 == l || self.ct.iter().filter(|x| x.0 == self.ct[i].0).count() > 2 {
                    self.ct[i] = (l, Arc::new(c));
                }
            }
        }
    }
}

//! C22: shared objects under concurrent use give what they give alone, and stay
//! as they are.
use crate::fixt::*;
use crate::model::*;
use crate::mon::*;
use crate::session::*;
use fhe::bfv::*;
use fhe_traits::*;
use num_bigint::BigUint;
use rand::SeedableRng;
use rand::seq::SliceRandom;
use rand_chacha::ChaCha8Rng;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

pub fn property() -> Property {
    Property {
        id: "C22",
        rule: "a case is a world of shared objects (parameters, keys of every kind, ciphertexts, plaintexts, polynomials) built twice from the same generator state: operations run one by one on the first copy, and from 2 to 8 threads at once, each in an order of its own and with injected delays, on the second, whose first use this is; or the same few operations over and over, with no delay, in all threads; or chains of operations whose ciphertexts move from thread to thread; or parameter sets that threads build, use and drop at the same time. Every result is compared with the one obtained alone, and every shared object with its earlier state. Distinct = distinct (parameters, operations, order in which they completed).",
        workloads: vec![
            Workload { name: "shared", weight: 5, max: 0, f: |cx| shared(cx, false) },
            Workload { name: "same", weight: 2, max: 0, f: |cx| shared(cx, true) },
            Workload { name: "burst", weight: 3, max: 0, f: burst },
            Workload { name: "chains", weight: 2, max: 0, f: chains },
            Workload { name: "churn", weight: 3, max: 0, f: churn },
        ],
        required: vec![
            "concurrent-results", "overlapping-operations", "chain-steps", "chain-moves", "parameters-built", "add", "mul", "relinearize", "multiply", "rotate-rows", "rotate-columns", "inner-sum", "expand",
            "external-product", "dot-product", "switch", "encrypt", "encrypt-pk", "decrypt", "encode", "serialize", "deserialize", "keys", "evaluation-keys", "joint-public-key", "key-switch-shares", "polynomial",
            "scaling", "parameters", "assign", "burst-results", "burst-big-t",
        ],
        finish: None,
    }
}
fn want(cx: &Cx) -> Want {
    Want { budget: 40, max_k: 4, max_logn: if cx.thorough { 7 } else { 5 }, pool: 120, ..ANY }
}
fn again(f: &Fix) -> R<Arc<Fix>> {
    Ok(Arc::new(build(f.id, f.n, &f.q, &f.t, f.v)?))
}
fn hash(v: &[u8]) -> u64 {
    v.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}
/// A delay that perturbs the schedule.
fn delay(r: &mut ChaCha8Rng) {
    use rand::RngExt;
    match r.random_range(0..8u32) {
        0 => std::thread::yield_now(),
        1 => (0..r.random_range(1..2000u32)).for_each(|_| std::hint::spin_loop()),
        2 => std::thread::sleep(std::time::Duration::from_micros(r.random_range(1..80))),
        _ => {}
    }
}
struct Ran {
    op: usize,
    thread: usize,
    from: u64,
    to: u64,
    name: &'static str,
    ok: bool,
    hash: u64,
    bytes: Vec<u8>,
}
fn shared(cx: &mut Cx, same: bool) -> R {
    let w = want(cx);
    let f = fix(cx, w)?;
    if f.deepest(2).is_none() {
        return Err(Fail::Skip("no level with enough room"));
    }
    let s = cx.u64();
    let first = World::new(&again(&f)?, &mut cx_of(s, 0))?;
    let second = World::new(&again(&f)?, &mut cx_of(s, 0))?;
    let before = first.snapshot();
    cx.out("world", &before);
    let one = cx.u(KINDS);
    let ops: Vec<(u64, usize)> = (0..if same { 4 } else { cx.range(8, 20) }).map(|_| (cx.u64(), if same { one } else { cx.u(KINDS) })).collect();
    let mut alone = vec![];
    for (s, k) in &ops {
        let o = first.run(*k, &mut cx_of(*s, 0))?;
        cx.out(o.name, &o.bytes);
        cx.ev(if o.ok { o.name } else { "refused" }, 1);
        alone.push((o.name, o.bytes));
    }
    check!(first.snapshot() == before, "shared-object-changed", "{}: operations run alone changed an object: {:?}", f.desc, alone.iter().map(|x| x.0).collect::<Vec<_>>());
    let nt = cx.range(2, 8);
    let clock = AtomicU64::new(0);
    let gate = Barrier::new(nt);
    let forks: Vec<ChaCha8Rng> = (0..nt).map(|_| cx.fork()).collect();
    let second = Arc::new(second);
    let mut ran: Vec<Ran> = vec![];
    let mut err = None;
    std::thread::scope(|sc| {
        let hs: Vec<_> = forks
            .into_iter()
            .enumerate()
            .map(|(thread, mut r)| {
                let (w, ops, gate, clock) = (second.clone(), &ops, &gate, &clock);
                sc.spawn(move || -> R<Vec<Ran>> {
                    let mut mine: Vec<usize> = (0..ops.len()).collect();
                    mine.shuffle(&mut r);
                    // Two thirds of the threads run everything.
                    if thread % 3 == 2 {
                        mine.truncate(ops.len() / 2);
                    }
                    let mut v = vec![];
                    gate.wait();
                    for op in mine {
                        delay(&mut r);
                        let (s, k) = ops[op];
                        // No ordering: the monitor must not synchronize what it observes.
                        let from = clock.fetch_add(1, Relaxed);
                        let o = w.run(k, &mut cx_of(s, 0))?;
                        let to = clock.fetch_add(1, Relaxed);
                        v.push(Ran { op, thread, from, to, name: o.name, ok: o.ok, hash: hash(&o.bytes), bytes: o.bytes });
                    }
                    Ok(v)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(Ok(v)) => ran.extend(v),
                Ok(Err(e)) => err = Some(e),
                Err(_) => err = Some(Fail::Harness("a thread of the workload panicked".into())),
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    for r in &ran {
        let (name, bytes) = &alone[r.op];
        let during: Vec<&str> = ran.iter().filter(|x| x.thread != r.thread && x.from < r.to && r.from < x.to).map(|x| x.name).collect();
        check!(r.name == *name && r.bytes == *bytes, format!("concurrent-result:{name}"), "{}: {name} gave {} {:016x} in a thread of {nt}, while others ran {during:?}, and {:016x} alone ({} / {} bytes)", f.desc, r.name, r.hash, hash(bytes), r.bytes.len(), bytes.len());
        cx.ev("overlapping-operations", during.len() as u64);
        cx.ev("concurrent-results", 1);
        cx.ev("concurrent-refusals", !r.ok as u64);
    }
    let after = second.snapshot();
    check!(after == before, "shared-object-changed", "{}: objects shared between {nt} threads were changed by {:?}", f.desc, alone.iter().map(|x| x.0).collect::<Vec<_>>());
    ran.sort_by_key(|x| x.to);
    let order: Vec<(usize, usize)> = ran.iter().map(|x| (x.thread, x.op)).collect();
    cx.sample(|| format!("{}: {nt} threads, completion order {}", f.desc, ran.iter().take(12).map(|x| format!("{}:{}", x.thread, x.name)).collect::<Vec<_>>().join(" ")));
    cx.seen((f.id, ops, order));
    Ok(())
}
/// Short operations of one kind at full speed in every thread: windows of a few
/// instructions are met by repetition.
fn burst(cx: &mut Cx) -> R {
    let w = Want { max_logn: 4, ..want(cx) };
    let wide = cx.coin(1, 2);
    let mut f = fix(cx, w)?;
    for _ in 0..40 {
        if f.deepest(2).is_some() && (f.t.bits() > 62) == wide {
            break;
        }
        f = fix(cx, w)?;
    }
    if f.deepest(2).is_none() {
        return Err(Fail::Skip("no level with enough room"));
    }
    let s = cx.u64();
    let world = Arc::new(World::new(&again(&f)?, &mut cx_of(s, 0))?);
    let before = world.snapshot();
    let nt = cx.range(3, 8);
    let mut kinds = vec![];
    for _ in 0..if cx.thorough { 20 } else { 10 } {
        let k = cx.u(KINDS);
        kinds.push(k);
        let ops: Vec<u64> = (0..5).map(|_| cx.u64()).collect();
        let mut alone = vec![];
        for s in &ops {
            let o = world.run(k, &mut cx_of(*s, 0))?;
            alone.push((o.name, o.bytes));
        }
        let gate = Barrier::new(nt);
        let forks: Vec<ChaCha8Rng> = (0..nt).map(|_| cx.fork()).collect();
        let mut done = 0;
        let mut err = None;
        std::thread::scope(|sc| {
            let hs: Vec<_> = forks
                .into_iter()
                .map(|mut r| {
                    let (world, ops, gate, alone, f) = (&world, &ops, &gate, &alone, &f);
                    sc.spawn(move || -> R<u64> {
                        use rand::RngExt;
                        gate.wait();
                        let end = std::time::Instant::now() + std::time::Duration::from_millis(4);
                        let mut n = 0;
                        while n < 400 && std::time::Instant::now() < end {
                            let i = r.random_range(0..ops.len());
                            let o = world.run(k, &mut cx_of(ops[i], 0))?;
                            let (name, bytes) = &alone[i];
                            check!(o.name == *name && o.bytes == *bytes, format!("concurrent-result:{name}"), "{}: {name} gave {} {:016x} in one of {nt} threads that all repeat such operations, and {:016x} alone", f.desc, o.name, hash(&o.bytes), hash(bytes));
                            n += 1;
                        }
                        Ok(n)
                    })
                })
                .collect();
            for h in hs {
                match h.join() {
                    Ok(Ok(n)) => done += n,
                    Ok(Err(e)) => err = Some(e),
                    Err(_) => err = Some(Fail::Harness("a thread of the workload panicked".into())),
                }
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
        cx.ev("burst-results", done);
        if f.t.bits() > 62 {
            cx.ev("burst-big-t", done);
        }
    }
    check!(world.snapshot() == before, "shared-object-changed", "{}: objects shared between {nt} threads were changed by kinds {kinds:?}", f.desc);
    cx.seen((f.id, s, kinds, nt));
    Ok(())
}
/// One step of a chain: the ciphertext and the level it has reached.
fn step(w: &World, c: Ciphertext, r: &mut ChaCha8Rng, k: usize) -> R<Ciphertext> {
    use rand::RngExt;
    let f = &w.f;
    let l = lvl(f, &c);
    let pick = |r: &mut ChaCha8Rng, n: usize| r.random_range(0..n);
    let peers: Vec<&Arc<Ciphertext>> = w.ct.iter().filter(|x| x.0 == l && x.1.len() == c.len()).map(|x| &x.1).collect();
    let pts: Vec<&Plaintext> = w.pt.iter().filter(|x| x.0 == l).map(|x| &x.1).collect();
    Ok(match k {
        0 if !peers.is_empty() => &c + &**peers[pick(r, peers.len())],
        1 if !pts.is_empty() => &c * pts[pick(r, pts.len())],
        2 if !peers.is_empty() && c.len() == 2 => {
            let mut d = &c * &**peers[pick(r, peers.len())];
            if let Some((_, rk)) = w.rk.iter().find(|x| x.0 == l) {
                rk.relinearizes(&mut d).lib("relinearizes")?;
            }
            d
        }
        3 if c.len() == 2 => match w.ek.iter().find(|x| x.0 == l) {
            Some((_, ek)) if ek.supports_row_rotation() => ek.rotates_rows(&c).lib("rotates_rows")?,
            _ => -&c,
        },
        4 => Ciphertext::from_bytes(&c.to_bytes(), &f.par).lib("Ciphertext::from_bytes")?,
        5 if l < f.max_level() => {
            let mut d = c;
            d.switch_down().lib("switch_down")?;
            d
        }
        6 if !pts.is_empty() => {
            let e: Ciphertext = w.pk.try_encrypt(pts[pick(r, pts.len())], r).lib("encrypt")?;
            if c.len() == 2 { &c - &e } else { e }
        }
        _ => -&c,
    })
}
struct Chain {
    id: usize,
    at: usize,
    last: usize,
    ct: Ciphertext,
    rng: ChaCha8Rng,
}
fn chains(cx: &mut Cx) -> R {
    let w = want(cx);
    let f = fix(cx, w)?;
    if f.deepest(2).is_none() {
        return Err(Fail::Skip("no level with enough room"));
    }
    let s = cx.u64();
    let w = Arc::new(World::new(&again(&f)?, &mut cx_of(s, 0))?);
    let before = w.snapshot();
    let n = cx.range(3, 8);
    let plans: Vec<(u64, Vec<usize>)> = (0..n).map(|_| (cx.u64(), (0..cx.range(4, 9)).map(|_| cx.u(8)).collect())).collect();
    let fresh = |i: usize| Chain { id: i, at: 0, last: usize::MAX, ct: (*w.ct[i % w.ct.len()].1).clone(), rng: ChaCha8Rng::seed_from_u64(plans[i].0) };
    let dec = |c: &Ciphertext| -> Vec<u8> { [bct(c), format!("{:?}", w.sk.try_decrypt(c).map(|p| f.coeffs(&p).ok())).into_bytes()].concat() };
    let mut alone = vec![];
    for i in 0..n {
        let mut c = fresh(i);
        for k in &plans[i].1 {
            c.ct = step(&w, c.ct, &mut c.rng, *k)?;
        }
        alone.push(dec(&c.ct));
        cx.out("chain", &alone[i]);
    }
    let nt = cx.range(2, 6);
    let queue: Mutex<VecDeque<Chain>> = Mutex::new((0..n).map(fresh).collect());
    let done: Mutex<Vec<(usize, Vec<u8>)>> = Mutex::default();
    let left = AtomicU64::new(n as u64);
    let moves = AtomicU64::new(0);
    let order: Mutex<Vec<(usize, usize)>> = Mutex::default();
    let err: Mutex<Option<Fail>> = Mutex::default();
    let forks: Vec<ChaCha8Rng> = (0..nt).map(|_| cx.fork()).collect();
    std::thread::scope(|sc| {
        for (t, mut r) in forks.into_iter().enumerate() {
            let (w, queue, done, left, moves, order, err, plans, dec) = (w.clone(), &queue, &done, &left, &moves, &order, &err, &plans, &dec);
            sc.spawn(move || {
                while left.load(Relaxed) > 0 && err.lock().unwrap().is_none() {
                    let Some(mut c) = queue.lock().unwrap().pop_front() else {
                        std::thread::yield_now();
                        continue;
                    };
                    delay(&mut r);
                    if c.last != usize::MAX && c.last != t {
                        moves.fetch_add(1, Relaxed);
                    }
                    c.last = t;
                    let k = plans[c.id].1[c.at];
                    let (ct, rng) = (c.ct.clone(), &mut c.rng);
                    match catching(|| step(&w, ct, rng, k)) {
                        Ok(Ok(x)) => c.ct = x,
                        Ok(Err(e)) => *err.lock().unwrap() = Some(e),
                        Err(p) => *err.lock().unwrap() = Some(Fail::Violation { sig: format!("concurrent-panic:{}", panic_sig(&p)), msg: p.msg }),
                    }
                    c.at += 1;
                    order.lock().unwrap().push((t, c.id));
                    if c.at == plans[c.id].1.len() {
                        let b = dec(&c.ct);
                        done.lock().unwrap().push((c.id, b));
                        left.fetch_sub(1, Relaxed);
                    } else {
                        queue.lock().unwrap().push_back(c);
                    }
                }
            });
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        return Err(e);
    }
    let done = done.into_inner().unwrap();
    for (i, b) in &done {
        check!(*b == alone[*i], "concurrent-chain", "{}: chain {:?} ended differently when {n} chains moved between {nt} threads", f.desc, plans[*i].1);
    }
    check!(done.len() == n, "lost-chain", "{} of {n} chains ended", done.len());
    check!(w.snapshot() == before, "shared-object-changed", "{}: chains changed shared objects", f.desc);
    cx.ev("chain-steps", plans.iter().map(|p| p.1.len() as u64).sum());
    cx.ev("chain-moves", moves.load(Relaxed));
    cx.seen((f.id, plans, order.into_inner().unwrap()));
    Ok(())
}
/// Everything a short-lived parameter set is good for, as bytes.
fn life(f: &Fix, s: u64) -> R<Vec<u8>> {
    let f = again(f)?;
    let mut r = ChaCha8Rng::seed_from_u64(s);
    let sk = SecretKey::random(&f.par, &mut r);
    let pk = PublicKey::new(&sk, &mut r);
    let m: Vec<BigUint> = (0..f.n).map(|i| big(s.rotate_left(i as u32)) % &f.t).collect();
    let pt = f.encode(&m, 0)?;
    let a: Ciphertext = sk.try_encrypt(&pt, &mut r).lib("encrypt")?;
    let b: Ciphertext = pk.try_encrypt(&pt, &mut r).lib("encrypt")?;
    let mut c = &a * &b;
    let mut v = bct(&c);
    if f.q.len() > 1 {
        let rk = RelinearizationKey::new(&sk, &mut r).lib("RelinearizationKey::new")?;
        rk.relinearizes(&mut c).lib("relinearizes")?;
        c.switch_down().lib("switch_down")?;
        v.extend(rk.to_bytes());
    }
    v.extend(bct(&c));
    for x in f.coeffs(&sk.try_decrypt(&a).lib("decrypt")?)? {
        v.extend(x.to_bytes_le());
    }
    let back = BfvParameters::try_deserialize(&f.par.to_bytes()).lib("try_deserialize")?;
    v.push((back == *f.par) as u8);
    v.extend(pk.to_bytes());
    Ok(v)
}
fn churn(cx: &mut Cx) -> R {
    // sets with the same degree and different moduli, most of the time
    let w = Want { budget: 30, max_k: 3, max_logn: 5, pool: 150, ..ANY };
    let lead = fix(cx, w)?;
    let mut sets = vec![lead.clone()];
    for _ in 0..200 {
        let f = fix(cx, w)?;
        if f.deepest(2).is_some() && (f.n == lead.n || cx.coin(1, 12)) {
            sets.push(f);
        }
        if sets.len() == 5 {
            break;
        }
    }
    sets.retain(|f| f.deepest(2) == Some(f.max_level()));
    if sets.len() < 2 {
        return Err(Fail::Skip("no level with enough room"));
    }
    let lives: Vec<(usize, u64)> = (0..6).map(|_| (cx.u(sets.len()), cx.u64())).collect();
    let mut alone = vec![];
    for (i, s) in &lives {
        alone.push(life(&sets[*i], *s)?);
        cx.out("life", alone.last().unwrap());
    }
    let nt = cx.range(2, 6);
    let gate = Barrier::new(nt);
    let clock = AtomicU64::new(0);
    let forks: Vec<ChaCha8Rng> = (0..nt).map(|_| cx.fork()).collect();
    let mut all: Vec<(u64, usize, usize)> = vec![];
    let mut err = None;
    std::thread::scope(|sc| {
        let hs: Vec<_> = forks
            .into_iter()
            .enumerate()
            .map(|(t, mut r)| {
                let (sets, lives, alone, gate, clock) = (&sets, &lives, &alone, &gate, &clock);
                sc.spawn(move || -> R<Vec<(u64, usize, usize)>> {
                    let mut mine: Vec<usize> = (0..lives.len()).collect();
                    mine.shuffle(&mut r);
                    gate.wait();
                    let mut v = vec![];
                    for i in mine {
                        delay(&mut r);
                        let (set, s) = lives[i];
                        let b = match catching(|| life(&sets[set], s)) {
                            Ok(b) => b?,
                            Err(p) => viol!(format!("concurrent-panic:{}", panic_sig(&p)), "{}: {}", sets[set].desc, p.msg),
                        };
                        check!(b == alone[i], "concurrent-parameters", "{}: building and using the parameters in one of {nt} threads gave {:016x}, and {:016x} alone", sets[set].desc, hash(&b), hash(&alone[i]));
                        v.push((clock.fetch_add(1, Relaxed), t, i));
                    }
                    Ok(v)
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(Ok(v)) => all.extend(v),
                Ok(Err(e)) => err = Some(e),
                Err(_) => err = Some(Fail::Harness("a thread of the workload panicked".into())),
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    cx.ev("parameters-built", all.len() as u64);
    all.sort();
    cx.seen((lead.id, lives, all.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>()));
    Ok(())
}

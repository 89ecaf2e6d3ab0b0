//! Independent reference model: plain arithmetic the oracles compare against.
#![allow(dead_code)]
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Signed, ToPrimitive, Zero};

pub fn mulmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn addmod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + b as u128) % p as u128) as u64
}
pub fn submod(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + p as u128 - (b % p) as u128) % p as u128) as u64
}
pub fn negmod(a: u64, p: u64) -> u64 {
    submod(0, a, p)
}
pub fn powmod(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, p);
        }
        a = mulmod(a, a, p);
        e >>= 1;
    }
    r
}
pub fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}
/// Inverse by the extended Euclidean algorithm.
pub fn invmod(a: u64, p: u64) -> Option<u64> {
    let (mut r0, mut r1) = (p as i128, (a % p) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 != 1 {
        return None;
    }
    Some(t0.rem_euclid(p as i128) as u64)
}
/// Deterministic Miller-Rabin for 64-bit integers.
pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let s = (n - 1).trailing_zeros();
    let d = (n - 1) >> s;
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

pub fn big(x: u64) -> BigUint {
    BigUint::from(x)
}
pub fn int(x: &BigUint) -> BigInt {
    BigInt::from_biguint(Sign::Plus, x.clone())
}
pub fn prod(m: &[u64]) -> BigUint {
    m.iter().map(|x| big(*x)).product()
}
/// x mod q in [0, q)
pub fn modp(x: &BigInt, q: &BigUint) -> BigUint {
    let q = int(q);
    let mut r = x % &q;
    if r.is_negative() {
        r += &q;
    }
    r.to_biguint().unwrap()
}
pub fn modu(x: &BigInt, q: u64) -> u64 {
    modp(x, &big(q)).to_u64().unwrap()
}
/// Representative of x mod q in (-q/2, q/2].
pub fn center(x: &BigUint, q: &BigUint) -> BigInt {
    let x = x % q;
    if (&x << 1usize) > *q { int(&x) - int(q) } else { int(&x) }
}
pub fn center_u64(x: u64, q: u64) -> i128 {
    if 2 * (x as u128) > q as u128 { x as i128 - q as i128 } else { x as i128 }
}
/// floor(a / b) for b > 0
pub fn div_floor(a: &BigInt, b: &BigInt) -> BigInt {
    let (q, r) = (a / b, a % b);
    if r.is_negative() { q - 1 } else { q }
}
/// Nearest integers to a/b; two of them on an exact tie.
pub fn round_div(a: &BigInt, b: &BigInt) -> (BigInt, Option<BigInt>) {
    let two_a_b: BigInt = a * 2 + b;
    let two_b: BigInt = b * 2;
    let up = div_floor(&two_a_b, &two_b); // rounds half up
    let tie = (&two_a_b % &two_b).is_zero();
    let other = if tie { Some(&up - 1) } else { None };
    (up, other)
}

/// The integers that scaling x (a residue modulo q, taken centred) by num/den
/// may round to: the nearest one; both neighbours within the documented
/// fixed-point precision of a tie; both signs at the half-way point of q.
/// `k` is the number of moduli of the source basis.
pub fn scale_candidates(x: &BigUint, q: &BigUint, k: usize, num: &BigInt, den: &BigInt) -> Vec<BigInt> {
    use num_integer::Integer;
    let eps_bits = 60usize;
    let twice: BigInt = int(x) * 2 - int(q);
    let half_dist = BigInt::from(twice.magnitude().clone());
    let near_half = (&half_dist << eps_bits) <= int(q) * (k as u64 + 2) || half_dist <= BigInt::one();
    let mut cands = vec![center(x, q)];
    if near_half {
        cands.push(int(x));
        cands.push(int(x) - int(q));
    }
    let mut results: Vec<BigInt> = vec![];
    for c in &cands {
        let v: BigInt = c * num;
        let (r, other) = round_div(&v, den);
        results.push(r);
        results.extend(other);
        let two_v: BigInt = &v * 2;
        let rem = two_v.mod_floor(&(den * 2)); // 2*frac*den in [0, 2 den)
        let off: BigInt = &rem - den;
        let dist = BigInt::from(off.magnitude().clone()); // 2*|frac - 1/2|*den
        if (&dist << eps_bits) <= den * (k as u64 + 2) {
            let fl = div_floor(&v, den);
            results.push(fl.clone());
            results.push(fl + 1);
        }
    }
    results
}

/// Chinese remaindering written independently from the library.
pub struct Crt {
    pub moduli: Vec<u64>,
    pub q: BigUint,
    pub coef: Vec<BigUint>,
}
impl Crt {
    pub fn new(moduli: &[u64]) -> Self {
        let q = prod(moduli);
        let coef = moduli
            .iter()
            .map(|m| {
                let qi = &q / big(*m);
                let r = (&qi % big(*m)).to_u64().unwrap();
                let inv = if *m == 1 { 0 } else { invmod(r, *m).unwrap() };
                qi * big(inv)
            })
            .collect();
        Crt { moduli: moduli.to_vec(), q, coef }
    }
    pub fn lift(&self, r: &[u64]) -> BigUint {
        let mut x = BigUint::zero();
        for (c, ri) in self.coef.iter().zip(r) {
            x += c * big(*ri);
        }
        x % &self.q
    }
    pub fn project(&self, x: &BigInt) -> Vec<u64> {
        self.moduli.iter().map(|m| modu(x, *m)).collect()
    }
}

/// a * b in Z[x]/(x^n + 1)
pub fn negacyclic_big(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    let mut r = vec![BigInt::zero(); n];
    for (i, ai) in a.iter().enumerate() {
        if ai.is_zero() {
            continue;
        }
        for (j, bj) in b.iter().enumerate() {
            let t = ai * bj;
            if i + j < n {
                r[i + j] += t;
            } else {
                r[i + j - n] -= t;
            }
        }
    }
    r
}
/// a * b in Z_p[x]/(x^n + 1)
pub fn negacyclic(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    for (i, &ai) in a.iter().enumerate() {
        if ai == 0 {
            continue;
        }
        for (j, &bj) in b.iter().enumerate() {
            if bj == 0 {
                continue;
            }
            let t = mulmod(ai, bj, p);
            if i + j < n {
                r[i + j] = addmod(r[i + j], t, p);
            } else {
                r[i + j - n] = submod(r[i + j - n], t, p);
            }
        }
    }
    r
}
/// a(x^e) in Z_p[x]/(x^n + 1)
pub fn substitute(a: &[u64], e: usize, p: u64) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    for (i, &ai) in a.iter().enumerate() {
        let k = (i as u128 * e as u128 % (2 * n) as u128) as usize;
        if k < n {
            r[k] = addmod(r[k], ai, p);
        } else {
            r[k - n] = submod(r[k - n], ai, p);
        }
    }
    r
}
pub fn substitute_big(a: &[BigInt], e: usize) -> Vec<BigInt> {
    let n = a.len();
    let mut r = vec![BigInt::zero(); n];
    for (i, ai) in a.iter().enumerate() {
        let k = (i as u128 * e as u128 % (2 * n) as u128) as usize;
        if k < n {
            r[k] += ai;
        } else {
            r[k - n] -= ai;
        }
    }
    r
}
pub fn one() -> BigUint {
    BigUint::one()
}
pub fn bits(x: &BigInt) -> u64 {
    x.magnitude().bits()
}
pub fn inf_norm(v: &[BigInt]) -> BigUint {
    v.iter().map(|x| x.magnitude().clone()).max().unwrap_or_default()
}

/// Largest primes below 2^bits (or walking down from `start`) congruent to 1
/// mod `modulo`.
pub fn ntt_primes(bits: u32, modulo: u64, count: usize, skip: usize) -> Vec<u64> {
    let mut out = vec![];
    let hi = (1u128 << bits) - 1;
    let lo = 1u128 << (bits - 1);
    let mut c = hi - ((hi - 1) % modulo as u128);
    let mut skipped = 0;
    while c > lo && out.len() < count {
        if is_prime(c as u64) {
            if skipped < skip {
                skipped += 1;
            } else {
                out.push(c as u64);
            }
        }
        if c < modulo as u128 {
            break;
        }
        c -= modulo as u128;
    }
    out
}

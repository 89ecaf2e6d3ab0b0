"""A copy of the big-integer crate the library tests primality with, whose test
is quick to interpret for machine words (the original takes minutes under the
undefined-behaviour interpreter). Used by the interpreted build alone."""
import glob, os, shutil, sys, tarfile

FAST = '''
/// Deterministic Miller-Rabin for machine words.
fn fast(p: u64) -> bool {
    if p < 4 {
        return p >= 2;
    }
    if p % 2 == 0 {
        return false;
    }
    let mul = |a: u64, b: u64| ((a as u128 * b as u128) % p as u128) as u64;
    let s = (p - 1).trailing_zeros();
    let d = (p - 1) >> s;
    'base: for a in [2u64, 325, 9375, 28178, 450775, 9780504, 1795265022] {
        let a = a % p;
        if a == 0 {
            continue;
        }
        let (mut x, mut e, mut b) = (1u64, d, a);
        while e > 0 {
            if e & 1 == 1 {
                x = mul(x, b);
            }
            b = mul(b, b);
            e >>= 1;
        }
        if x == 1 || x == p - 1 {
            continue;
        }
        for _ in 1..s {
            x = mul(x, x);
            if x == p - 1 {
                continue 'base;
            }
        }
        return false;
    }
    true
}
'''


def make(dst):
    if os.path.exists(os.path.join(dst, ".made")):
        return
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    crate = glob.glob(os.path.join(home, "registry/cache/*/num-bigint-dig-0.9.1.crate"))[0]
    shutil.rmtree(dst, ignore_errors=True)
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    with tarfile.open(crate) as t:
        t.extractall(tmp, filter="data")
    os.rename(os.path.join(tmp, "num-bigint-dig-0.9.1"), dst)
    os.rmdir(tmp)
    p = os.path.join(dst, "src", "prime.rs")
    s = open(p).read()
    head = "pub fn probably_prime(x: &BigUint, n: usize) -> bool {\n"
    assert s.count(head) == 1
    s = s.replace(head, head + "    if let Some(v) = x.to_u64() {\n        return fast(v);\n    }\n") + FAST
    os.chmod(p, 0o644)
    open(p, "w").write(s)
    open(os.path.join(dst, ".made"), "w").write("")


if __name__ == "__main__":
    make(sys.argv[1])

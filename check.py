#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current working tree.

  check.py <id> [quick|thorough]     exit 0 held / 1 violated / 2 no verdict
  check.py replay <file>             run one recorded violation again
  check.py setup                     build the monitor binaries
"""
import hashlib, json, os, shutil, struct, subprocess, sys, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TGT = os.path.join(V, "target")
OUT = os.path.join(V, "out")
KNOWN = os.path.join(V, "KNOWN_FINDINGS.txt")
ENV = dict(os.environ)
ENV.update(HOME="/root", LANG="C.UTF-8", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTDOCFLAGS"):
    ENV.pop(k, None)
T0 = time.time()
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, BUILDS  # noqa: E402


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in ("crates", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def build(name):
    """Build one variant of the monitor binary from /repo's working tree."""
    b = BUILDS[name]
    tdir = os.path.join(TGT, b["dir"])
    os.makedirs(tdir, exist_ok=True)
    th = tree_hash()
    # cargo trusts modification times; the content decides here.
    stamp = os.path.join(tdir, f"tree-{name}.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != th:
        for d, ds, _ in os.walk(tdir):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if x.startswith("fhe"):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
    env = dict(ENV, CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN=b.get("toolchain", "stable-x86_64-unknown-linux-gnu"))
    env.update(b.get("env", {}))
    cmd = b["cmd"] + b.get("build_args", [])
    if b.get("prepare"):
        import importlib
        importlib.import_module(b["prepare"]).make(os.path.join(TGT, b["prepare"]))
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.join(V, b.get("crate", "harness")), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"building {name} timed out")
    if r.returncode != 0:
        raise NoVerdict(f"building {name} failed:\n" + r.stdout[-6000:])
    open(stamp, "w").write(th)
    return time.time() - t


def build_all(names):
    names = list(dict.fromkeys(names))
    # Builds with a target directory in common run one after the other.
    groups = {}
    for n in names:
        groups.setdefault(BUILDS[n]["dir"], []).append(n)
    with cf.ThreadPoolExecutor(max(1, len(groups))) as ex:
        list(ex.map(lambda ns: [build(n) for n in ns], groups.values()))


def binary(name):
    b = BUILDS[name]
    return os.path.join(TGT, b["dir"], b["bin"])


def known():
    k = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" :: ")[0].split(" ", 1))
                k[(f["property"], f["sig"])] = l.split(" :: ", 1)[1]
    return k


def run_part(pid, part, seed, tier, tag):
    """One run of the monitor binary; returns its JSON verdict."""
    os.makedirs(OUT, exist_ok=True)
    base = os.path.join(OUT, f"{pid}-{tag}")
    for e in (".json", ".hashes", ".inflight"):
        if os.path.exists(base + e):
            os.remove(base + e)
    secs = part["secs"][0 if tier == "quick" else 1]
    args = ["--prop", part.get("prop", pid), "--seed", str(seed), "--tier", tier]
    args += part.get("args", [])
    cmd = [binary(part["build"])] + args + ["--secs", str(secs), "--threads", str(part.get("threads", 8)),
           "--out", base + ".json", "--hashes", base + ".hashes", "--inflight", base + ".inflight"]
    env = dict(ENV)
    env.update(BUILDS[part["build"]].get("run_env", {}))
    log = open(base + ".log", "w")
    died = None
    try:
        r = subprocess.run(cmd, env=env, stdout=log, stderr=subprocess.STDOUT,
                           timeout=part.get("watchdog", secs * 2 + 240))
        if r.returncode < 0 or r.returncode in (66, 67) or not os.path.exists(base + ".json"):
            died = r.returncode
    except subprocess.TimeoutExpired:
        died = "hang"
    log.close()
    if died is None:
        o = json.load(open(base + ".json"))
        b = open(base + ".hashes", "rb").read()
        o["hashes"] = set(struct.unpack(f"<{len(b)//8}Q", b)) if b else set()
        o["cmdbase"] = (part["build"], args)
        return o
    if died == -9:
        raise NoVerdict(f"{tag}: the monitor was killed (out of memory?)")
    # Abnormal end: run the cases that were in flight alone.
    fl = [l.split() for l in open(base + ".inflight").read().split("\n") if l.strip(" -")] if os.path.exists(base + ".inflight") else []
    tail = open(base + ".log", errors="replace").read()[-3000:]
    viols = []
    for f in fl:
        if len(f) != 2:
            continue
        c = [binary(part["build"])] + args + ["--only", f[0], "--case", f[1]]
        try:
            r = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=100)
            if r.returncode < 0 and r.returncode != -9:
                viols.append(dict(workload=f[0], idx=int(f[1]), sig=f"process-died:signal{-r.returncode}",
                                  msg=f"the process running the library ended with signal {-r.returncode}: " + r.stdout[-1500:], trace=[]))
            elif r.returncode in (66, 67):
                viols.append(dict(workload=f[0], idx=int(f[1]), sig="sanitizer-report",
                                  msg=r.stdout[-6000:], trace=[]))
        except subprocess.TimeoutExpired:
            if part.get("hang_is_violation"):
                viols.append(dict(workload=f[0], idx=int(f[1]), sig="does-not-terminate",
                                  msg="the case alone did not finish within 100 s", trace=[]))
    if not viols and died in (66, 67) and part.get("report_is_violation"):
        viols.append(dict(workload=f"{part.get('args',[])}", idx=0, sig="sanitizer-report", msg=tail, trace=[]))
    if not viols and died == "hang" and part.get("hang_is_violation") == "process":
        viols.append(dict(workload="all", idx=0, sig="does-not-terminate", msg=f"no progress; in flight: {fl}", trace=[]))
    if not viols:
        raise NoVerdict(f"{tag}: the monitor ended abnormally ({died}), not reproduced by {fl}\n{tail}")
    return dict(prop=pid, seed=seed, cases=0, wall=0, rule="", distinct=0, counters={}, samples=[], missing=[],
                harness=[], violations=viols, hashes=set(), cmdbase=(part["build"], args))


def check(pid, tier):
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    parts = [p for p in c["parts"] if tier == "thorough" or not p.get("thorough_only")]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = os.path.join(V, "evidence", f"{pid}.json")
    if os.path.exists(ev):
        os.remove(ev)
    names = [n for p in parts for n in p.get("pair", [p["build"]])]
    build_all(names)
    say(f"[{pid}] built {list(dict.fromkeys(names))} in {time.time()-T0:.1f} s")
    outs = []
    for i, p in enumerate(parts):
        tag = p.get("tag", p["build"])
        # Another seed per variant, so that variants add cases; property 23
        # compares variants and asks for the same one.
        seed = seed0 if p.get("same_seed") else seed0 * 1000 + i
        if "runner" in p:
            import importlib
            mod, fn = p["runner"].split(":")
            o = getattr(importlib.import_module(mod), fn)(pid, p, seed, tier, sys.modules[__name__])
        else:
            o = run_part(pid, p, seed, tier, tag)
        o["tag"] = tag
        if p.get("only_reports"):
            # Another property's workload, run for what the instrumentation says.
            o["violations"] = [v for v in o["violations"] if v["sig"].startswith(("sanitizer-report", "process-died"))]
            o["missing"], o["harness"] = [], []
        outs.append(o)
        say(f"[{pid}] {tag}: {o['cases']} cases, {len(o['violations'])} violations, {o['wall']:.1f} s")
    kn = known()
    viol, kf, errs = [], {}, []
    for o in outs:
        errs += [f"{o['tag']}: harness error: {h}" for h in o["harness"]]
        for v in o["violations"]:
            if (pid, v["sig"]) in kn:
                kf[v["sig"]] = kn[(pid, v["sig"])]
            else:
                viol.append((o, v))
        if not o["violations"]:
            errs += [f"{o['tag']}: monitored event never observed: {m}" for m in o["missing"]]
    cnt = {}
    for o in outs:
        for k, n in o["counters"].items():
            cnt.setdefault(o["tag"], {})[k] = n
    allh = set().union(*[o["hashes"] for o in outs])
    cov = dict(evaluations=sum(o["cases"] for o in outs), distinct_nontrivial=len(allh),
               rule=next((o["rule"] for o in outs if o["rule"]), ""),
               samples=[f"{o['tag']}: {s}" for o in outs for s in o["samples"][:4]] or ["none"],
               events=cnt, exhaustive=False)
    json.dump(dict(property=pid, tier=tier, seed=seed0, level=c.get("level", "exploration"), coverage=cov,
                   assumptions=c.get("assumptions", []), wall_s=round(time.time() - T0, 2),
                   violations=len(viol)), open(ev, "w"), indent=1)
    for s, what in sorted(kf.items()):
        say(f"KNOWN-FINDING: property={pid} {what}")
    if viol:
        rd = os.path.join(OUT, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (o, v) in enumerate(viol[:20]):
            rp = os.path.join(rd, f"{pid}-{n}.json")
            b, args = o["cmdbase"]
            json.dump(dict(property=pid, build=b, pair=o.get("pair"), variant=o["tag"], args=args, workload=v["workload"], case=v["idx"],
                           signature=v["sig"], message=v["msg"], trace=v["trace"],
                           replay=f"python3 {V}/check.py replay {rp}"), open(rp, "w"), indent=1)
            say(f"  [{o['tag']}] {v['workload']}#{v['idx']} {v['sig']}: {v['msg'][:600]}")
            say(f"VIOLATION property={pid} replay={rp}")
        return 1
    if errs:
        for e in errs[:20]:
            say("NO VERDICT:", e[:3000])
        return 2
    say(f"[{pid}] held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct), {time.time()-T0:.1f} s")
    return 0


def replay(path):
    r = json.load(open(path))
    if r.get("pair"):
        build_all(r["pair"])
        got = []
        for b in r["pair"]:
            cmd = [binary(b)] + r["args"] + ["--only", r["workload"], "--case", str(r["case"])]
            say(" ".join(cmd))
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            got.append([l for l in p.stdout.split("\n") if l.startswith("out ")])
        for i, (x, y) in enumerate(zip(*got)):
            if x != y:
                say(f"result {i}: {x} | {y}")
                return 1
        return int(got[0] != got[1])
    build_all([r["build"]])
    b = BUILDS[r["build"]]
    env = dict(ENV)
    env.update(b.get("run_env", {}))
    cmd = [binary(r["build"])] if "bin" in b else b["cmd"]
    if "bin" not in b:
        env.update(b.get("env", {}), CARGO_TARGET_DIR=os.path.join(TGT, b["dir"]), RUSTUP_TOOLCHAIN=b["toolchain"])
    cmd = cmd + r["args"] + ["--only", r["workload"], "--case", str(r["case"])]
    say(" ".join(cmd))
    return subprocess.run(cmd, env=env, cwd=os.path.join(V, b.get("crate", "harness"))).returncode


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "setup":
            build_all([n for c in CHECKS.values() for p in c["parts"] if not p.get("thorough_only") for n in p.get("pair", [p["build"]])])
            say("built")
            sys.exit(0)
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except NoVerdict as e:
        # The monitors share every kind of object between threads: where the
        # compiler refuses that, property 22 is already lost.
        if sys.argv[1] == "C22" and any(x in str(e) for x in ("cannot be shared between threads safely", "cannot be sent between threads safely")):
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            rp = os.path.join(OUT, "replay", "C22-build.txt")
            open(rp, "w").write(str(e))
            say(str(e)[:3000])
            say(f"VIOLATION property=C22 replay={rp}")
            sys.exit(1)
        say("NO VERDICT:", e)
        sys.exit(2)

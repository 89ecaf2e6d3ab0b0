"""Compares the transcripts of the same cases in two builds."""
import os, time


def read(path):
    t = {}
    for l in open(path):
        f = l.split()
        if len(f) >= 2:
            t[(f[0], int(f[1]))] = f[2:]
    return t


def run(pid, part, seed, tier, m):
    t0 = time.time()
    a, b = part["pair"]
    outs, ts = [], []
    for n in (a, b):
        tr = os.path.join(m.OUT, f"{pid}-{n}.transcript")
        if os.path.exists(tr):
            os.remove(tr)
        p = dict(part, build=n, args=part.get("args", []) + ["--transcript", tr])
        o = m.run_part(pid, p, seed, tier, n)
        outs.append(o)
        ts.append(read(tr) if os.path.exists(tr) else {})
        if o["violations"] and not ts[-1]:
            return dict(o, wall=time.time() - t0)
    both = sorted(set(ts[0]) & set(ts[1]))
    viols, compared = [], 0
    for k in both:
        x, y = ts[0][k], ts[1][k]
        compared += len(x)
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            at = [(z[i] if i < len(z) else "nothing") for z in (x, y)]
            what = at[0].split(":")[0]
            if sum(v["sig"] == f"differs:{what}" for v in viols) < 3:
                viols.append(dict(workload=k[0], idx=k[1], sig=f"differs:{what}",
                                  msg=f"result {i} of the case is {at[0]} in the {a} build and {at[1]} in the {b} build (after {' '.join(z.split(':')[0] for z in x[:i])[-300:]})", trace=[]))
    o = outs[0]
    # Violations of other properties do not concern this comparison.
    missing = [] if len(both) >= part.get("min_cases", 50) else [f"cases run by both builds ({len(both)})"]
    cnt = dict(o["counters"], compared_cases=len(both), compared_results=compared)
    return dict(prop=pid, seed=seed, cases=len(both), wall=time.time() - t0, rule=o["rule"], distinct=o["distinct"], counters=cnt,
                samples=o["samples"], missing=sorted(set(outs[0]["missing"]) | set(outs[1]["missing"])) + missing,
                harness=outs[0]["harness"] + outs[1]["harness"], violations=viols, hashes=o["hashes"], pair=[a, b], cmdbase=(a, ["--prop", pid, "--seed", str(seed), "--tier", tier]))

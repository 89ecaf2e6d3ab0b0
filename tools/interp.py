"""Runs cases one by one under the undefined-behaviour interpreter (Miri)."""
import concurrent.futures as cf, os, subprocess, time


def run(pid, part, seed, tier, m):
    t0 = time.time()
    quick = tier == "quick"
    secs = part["secs"][0 if quick else 1]
    b = m.BUILDS[part["build"]]
    tdir = os.path.join(m.TGT, b["dir"])
    env = dict(m.ENV, CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN=b["toolchain"])
    env.update(b.get("env", {}))
    cwd = os.path.join(m.V, b["crate"])
    # round robin over the workloads; some cases always run
    plan = []
    for i in range(max(part["cases"].values()) * (1 if quick else 40)):
        for w, n in part["cases"].items():
            if i < n * (1 if quick else 40):
                plan.append((w, i))
    # the short ones first: a quick run then has seen every kind
    size = 40
    plan = [k for j in range(0, len(plan), size) for k in sorted(plan[j:j + size], key=lambda k: list(part["cases"]).index(k[0]))]
    out = dict(prop=pid, seed=seed, cases=0, wall=0, rule="", distinct=0, counters={}, samples=[], missing=[], harness=[], violations=[], hashes=set(),
               cmdbase=(part["build"], ["--prop", pid, "--seed", str(seed), "--tier", tier]))
    cnt = out["counters"]

    def one(k):
        if time.time() - t0 > secs:
            return k, "late", ""
        try:
            p = subprocess.run(b["cmd"] + ["--prop", pid, "--seed", str(seed), "--tier", tier, "--only", k[0], "--case", str(k[1]), "--events"], cwd=cwd, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=max(120, secs))
            return k, p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return k, "timeout", ""

    with cf.ThreadPoolExecutor(part.get("procs", 8)) as ex:
        for k, rc, text in ex.map(one, plan):
            if rc in ("late", "timeout"):
                cnt[f"cases-{rc}"] = cnt.get(f"cases-{rc}", 0) + 1
                continue
            cnt[f"cases:{k[0]}"] = cnt.get(f"cases:{k[0]}", 0) + 1
            out["cases"] += 1
            for l in text.split("\n"):
                f = l.split(" ", 1)
                if f[0] == "event" and len(f) == 2:
                    n, v = f[1].rsplit(" ", 1)
                    cnt[n] = cnt.get(n, 0) + int(v)
                elif f[0] == "distinct":
                    out["hashes"].add(int(f[1]))
                elif f[0] == "sample" and len(out["samples"]) < 6:
                    out["samples"].append(f"{k[0]}#{k[1]}: {f[1]}")
            if "error: Undefined Behavior" in text:
                at = text.index("error: ")
                head = text[at:].split("\n")[0]
                out["violations"].append(dict(workload=k[0], idx=k[1], sig="undefined-behaviour:" + head[:60].split(":")[-1].strip()[:40], msg=text[at:at + 3500], trace=[]))
            elif "unsupported operation" in text:
                cnt["cases-unsupported"] = cnt.get("cases-unsupported", 0) + 1
            elif rc == 1 and "violated [" in text:
                at = text.index("violated [")
                out["violations"].append(dict(workload=k[0], idx=k[1], sig=text[at + 10:].split("]")[0], msg=text[at:at + 2000], trace=[]))
            elif rc != 0:
                out["harness"].append(f"{k} under the interpreter: exit {rc}: {text[-1500:]}")
    if out["cases"] < part.get("min_cases", 5):
        out["missing"].append(f"cases interpreted to their end ({out['cases']})")
    out["distinct"] = len(out["hashes"])
    out["wall"] = time.time() - t0
    return out

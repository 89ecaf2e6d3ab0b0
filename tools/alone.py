"""Runs cases of a session again, each alone in a process of its own, and
compares what they produced: no result may depend on what ran before or at the
same time in the process."""
import concurrent.futures as cf, os, subprocess, time
from pair import read


def outs(cmd, env):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=100)
    return p.returncode, [":".join(l.split()[1:]) for l in p.stdout.split("\n") if l.startswith("out ")], p.stdout


def run(pid, part, seed, tier, m):
    t0 = time.time()
    tr = os.path.join(m.OUT, f"{pid}-alone.transcript")
    if os.path.exists(tr):
        os.remove(tr)
    o = m.run_part(pid, dict(part, args=part.get("args", []) + ["--transcript", tr]), seed, tier, part["build"])
    if o["violations"] or o["harness"]:
        return o
    t = read(tr)
    # the last cases: those with the longest history before them
    want = part["alone"][0 if tier == "quick" else 1]
    by = {}
    for k in t:
        if t[k]:
            by.setdefault(k[0], []).append(k)
    pick = []
    for w, ks in sorted(by.items()):
        ks.sort(key=lambda k: k[1])
        n = max(1, want // len(by))
        pick += ks[-(n // 2 + 1):] + ks[: len(ks) - n // 2 - 1 : max(1, len(ks) // max(1, n // 2))]
    pick = list(dict.fromkeys(pick))
    env = dict(m.ENV)
    env.update(m.BUILDS[part["build"]].get("run_env", {}))
    base = [m.binary(part["build"]), "--prop", pid, "--seed", str(seed), "--tier", tier]

    def one(k):
        try:
            return k, outs(base + ["--only", k[0], "--case", str(k[1])], env)
        except subprocess.TimeoutExpired:
            return k, (None, [], "timeout")

    done = 0
    with cf.ThreadPoolExecutor(6) as ex:
        for k, (rc, got, text) in ex.map(one, pick):
            if rc == 0 and got == t[k]:
                done += 1
            elif rc in (0, 1):
                i = next((i for i in range(min(len(got), len(t[k]))) if got[i] != t[k][i]), min(len(got), len(t[k])))
                at = [(z[i] if i < len(z) else "nothing") for z in (t[k], got)]
                if sum(v["sig"].startswith("history-dependent") for v in o["violations"]) < 3:
                    o["violations"].append(dict(workload=k[0], idx=k[1], sig=f"history-dependent:{at[0].split(':')[0]}", trace=[],
                                                msg=f"result {i} of the case is {at[0]} after other cases in one process, and {at[1]} in a process of its own (exit {rc}) {text[-800:] if rc else ''}"))
            else:
                o["harness"].append(f"{k} alone: exit {rc}: {text[-500:]}")
    o["counters"]["cases-run-alone"] = done
    o["wall"] = time.time() - t0
    return o

"""the coverage-guided search of the thorough tier: harness/core/src/guide.rs, one process per core

The harness is built a second time with LLVM's edge counters in the library, its dependencies and
the reference; the counters only steer the search, the oracle is the suite's own."""
import json, os, subprocess
from vlib import Broken, ENV, HARNESS, VERIF, Violation, WORK, cargo, limit_cpu, repo_hash, save_replay

TARGET = os.path.join(VERIF, "target-cov")
TRIPLE = "x86_64-unknown-linux-gnu"
FLAGS = ("--cfg vp_cov -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
         "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters")
SLOTS = 8
# per search; the time bound only ever reduces the number of cases
CASES = 100_000
MAX_SECONDS = 600


def build(pkg):
    env = {"CARGO_TARGET_DIR": TARGET, "RUSTFLAGS": FLAGS}
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        if old is not None:
            cargo(["clean", "--offline", "-p", "teleparse", "-p", "teleparse-macros"], HARNESS, env=env)
        with open(stamp, "w") as f:
            f.write(h)
    p = cargo(["build", "--offline", "--locked", "-p", pkg, "--target", TRIPLE, "--message-format=short"], HARNESS, env=env)
    if p.returncode != 0:
        raise Broken(f"the instrumented {pkg} does not build\n" + p.stderr[-4000:])
    return os.path.join(TARGET, TRIPLE, "debug", pkg)


def read_last(path):
    b = open(path, "rb").read()
    n = int.from_bytes(b[:8], "little")
    fresh = int.from_bytes(b[8:16], "little")
    seed = int.from_bytes(b[16:24], "little")
    ch = [int.from_bytes(b[24 + 4 * i:28 + 4 * i], "little") for i in range(n)]
    return dict({"choices": ch}, **({"tail_seed": str(seed)} if fresh else {}))


def run(pkg, suite, prop, seed, plain, cases=CASES, max_seconds=MAX_SECONDS):
    """`plain` is the uninstrumented binary, which confirms whatever is found"""
    binary = build(pkg)
    os.makedirs(WORK, exist_ok=True)
    ps = []
    for k in range(SLOTS):
        f = os.path.join(WORK, f"{prop}-{suite}-guided{k}")
        for p in (f + ".json", f + ".last"):
            if os.path.exists(p):
                os.remove(p)
        cmd = [binary, "guide", "--suite", suite, "--seed", str(seed), "--slot", str(k), "--cases", str(cases),
               "--max-seconds", str(max_seconds), "--out", f + ".json", "--last", f + ".last"]
        ps.append((f, subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")))
    ends = []
    for f, p in ps:
        _, err = p.communicate()
        ends.append((f, p.returncode, err))
    total = None
    for f, rc, err in ends:
        if rc == 1 and os.path.exists(f + ".json"):
            v = json.load(open(f + ".json"))["violation"]
            v["package"] = pkg
            v["how_to_replay"] = f"{plain} replay --file THIS_FILE  (after tools/check.py {prop} has built it)"
            r = save_replay(prop, suite + "-guided", v)
            q = subprocess.run([plain, "replay", "--file", r], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if q.returncode == 0:
                raise Broken(f"the instrumented {suite} fails where the plain one does not: {v['message'][:2000]}")
            raise Violation(v["message"] + ((" | " + v["description"]) if v["description"] else ""), r)
        if rc != 0:
            r = save_replay(prop, suite + "-guided", dict({"suite": suite, "package": pkg}, **read_last(f + ".last")))
            try:
                q = subprocess.run([plain, "replay", "--file", r], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", preexec_fn=limit_cpu(40), timeout=400)
                if q.returncode != 0:
                    raise Violation(f"a case of suite {suite} ends with {q.returncode}: {q.stdout[-500:]} {q.stderr[-500:]}", r)
            except subprocess.TimeoutExpired:
                pass
            raise Broken(f"guided {suite} ended with {rc}: {err[-1000:]}")
        j = json.load(open(f + ".json"))
        if total is None:
            total = j
        else:
            for k in ("cases", "evaluations", "distinct_nontrivial"):
                total[k] += j[k]
            for k, v in j["labels"].items():
                if k.startswith("guided: edge"):
                    total["labels"][k] = max(total["labels"].get(k, 0), v)
                else:
                    total["labels"][k] = total["labels"].get(k, 0) + v
            total["samples"] += j["samples"]
    total["suite"] = suite + " (guided)"
    total["labels"]["guided: cases"] = total["cases"]
    total["rule"] = "guided: " + total["rule"] + "; distinct within each of the 8 searches"
    total["violation"] = None
    return total

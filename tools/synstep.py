"""generated syntax definitions: build a batch and run the suites on it"""
import os, re, subprocess
import lexstep
from vlib import ENV, HARNESS, VERIF, WORK, Broken, Violation, build, cargo, generated, run_binary, save_replay

PKG = "vp-syngen"
COUNT = {"quick": 60, "thorough": 90}
ROUNDS = {"quick": 1, "thorough": 8}


def emit(what, seed, count):
    return subprocess.run([build("vp-dyn"), what, str(seed), str(count)], env=ENV, stdout=subprocess.PIPE, text=True, check=True).stdout


def prepare(seed, k=0, tier="quick"):
    sd = (seed * 1000003 + k) % (1 << 62)
    path = generated(f"syngen-{seed}-{k}.rs", emit("emit", sd, COUNT[tier]))
    return path, build(PKG, {"VP_SYNGEN": path}), sd


def c25(prop, seed, tier):
    return c20(prop, seed, tier, "c25_static")


def c20(prop, seed, tier, suite="c20_static"):
    r = None
    for k in range(ROUNDS[tier]):
        try:
            path, binary, sd = prepare(seed, k, tier)
        except Broken as b:
            src = os.path.join(WORK, "gen", f"syngen-{seed}-{k}.rs")
            if getattr(b, "errors", "") and "syngen-" in b.errors:
                raise Violation("a well formed syntax definition does not compile: " + first_error(b.errors, src),
                                save_replay(prop, "definitions", {"definitions": open(src).read(), "compiler": b.errors[-20000:]}))
            raise
        q = run_binary(binary, PKG, suite, prop, seed, tier, save={"definitions": path})
        r = lexstep.merge(r, q)
    return r


def first_error(errors, src):
    lines = open(src).read().split("\n")
    for l in errors.split("\n"):
        m = re.match(r".*syngen-[^:]*\.rs:(\d+):\d+: (error.*)", l)
        if m:
            n = int(m.group(1))
            a = max((i for i in range(n) if lines[i].startswith("pub mod ")), default=0)
            b = next((i for i in range(n, len(lines)) if lines[i] == "}"), n)
            return m.group(2) + " in\n" + "\n".join(lines[a:b])[:2500]
    return errors[:500]


def tests(prop, seed, tier):
    """the test that comes with a root exists exactly where it should and passes exactly for LL(1) grammars"""
    path, _, sd = prepare(seed, 0, tier)
    want = dict(l.split("\t") for l in emit("emit-tests", sd, COUNT[tier]).splitlines())
    p = cargo(["test", "--offline", "--locked", "-p", PKG, "--", "--test-threads=8"], HARNESS, env={"VP_SYNGEN": path})
    got = dict(re.findall(r"^test generated::(\S+) \.\.\. (ok|FAILED)", p.stdout, re.M))
    if not re.search(r"^test result:", p.stdout, re.M):
        raise Broken("the generated tests did not run: " + p.stderr[-3000:])
    v = []
    for name in sorted(set(want) | set(got)):
        if want.get(name) != got.get(name):
            v.append((f"the test {name} of generated definitions gives {got.get(name)}, expected {want.get(name)} (None: no such test)",
                      save_replay(prop, "tests", {"definitions": open(path).read(), "test": name, "got": got.get(name), "want": want.get(name)})))
            break
    return {"suite": "root_tests", "evaluations": len(want), "distinct_nontrivial": len(want), "rule": "every generated root test; distinct by test",
            "samples": sorted(want)[:3], "labels": {x: list(want.values()).count(x) for x in set(want.values())}, "violations": v, "known": []}


def races(prop, seed, tier):
    path, binary, sd = prepare(seed, 0, "quick")
    n = 25 if tier == "quick" else 1500
    evals = total = 0
    samples = []
    out = os.path.join(WORK, f"{prop}-race.txt")
    for k in range(n):
        try:
            p = subprocess.run([binary, "race", str(seed * 100000 + k), out], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=240)
        except subprocess.TimeoutExpired:
            raise Broken("a race round did not end")
        if p.returncode not in (0, 1):
            raise Violation(f"first use of a grammar by many threads crashes the process ({p.returncode}): {p.stderr[-500:]}",
                            save_replay(prop, "race", {"definitions": open(path).read(), "round": seed * 100000 + k, "how_to_replay": f"{binary} race {seed * 100000 + k} OUT"}))
        body, sample = open(out).read().split("\n\x01\n")
        e, t, fail = body.split("\n", 2)
        evals += int(e)
        total += int(t)
        if len(samples) < 2:
            samples.append(sample[:900])
        if p.returncode == 1:
            raise Violation("first use by many threads: " + fail, save_replay(prop, "race", {"definitions": open(path).read(), "round": seed * 100000 + k, "message": fail,
                            "how_to_replay": f"{binary} race {seed * 100000 + k} OUT (timing dependent)"}))
    return {"suite": "first_use_races", "evaluations": evals, "distinct_nontrivial": total, "rule": "every first use of a grammar in a fresh process by 2 to 9 threads; counted by grammar and process",
            "samples": samples, "labels": {"first uses": total, "processes": n}, "violations": [], "known": []}

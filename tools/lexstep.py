"""generated lexicons: build a batch of well formed definitions and run the suites on them"""
import os, re, subprocess
import lexgen
from vlib import KNOWN, Broken, Violation, build, generated, run_binary, save_replay

PKG = "vp-lexgen"
SIZES = [128, 64, 33, 17, 65, 16, 32, 127, 8, 9]


def source(seed, k):
    if k == 0:
        return lexgen.source(seed, 60, SIZES[:5])
    return lexgen.source(f"{seed}-{k}", 90, SIZES)


def prepare(seed, k=0):
    path = generated(f"lexgen-{seed}-{k}.rs", source(seed, k))
    return path, build(PKG, {"VP_LEXGEN": path})


def run(prop, seed, tier, suites):
    r = None
    for k in range(1 if tier == "quick" else 8):
        try:
            path, binary = prepare(seed, k)
        except Broken as b:
            if prop in ("C10", "C11", "C15") and getattr(b, "errors", ""):
                src = os.path.join(os.path.dirname(generated("x", "")), f"lexgen-{seed}-{k}.rs")
                raise Violation("a well formed lexicon definition does not compile: " + first_error(b.errors, src),
                                save_replay(prop, "definitions", {"definitions": open(src).read(), "compiler": b.errors[-20000:]}))
            raise
        for suite in suites:
            q = run_binary(binary, PKG, suite, prop, seed, tier, save={"definitions": path})
            r = merge(r, q)
    return r


def merge(r, q):
    if r is None:
        return dict(q)
    for x in ("evaluations", "distinct_nontrivial"):
        r[x] += q[x]
    for x, n in (q.get("labels") or {}).items():
        r["labels"][x] = r["labels"].get(x, 0) + n
    return r


def first_error(errors, src):
    lines = open(src).read().split("\n")
    for l in errors.split("\n"):
        m = re.match(r".*lexgen-[^:]*\.rs:(\d+):\d+: (error.*)", l)
        if m:
            n = int(m.group(1))
            a = max((i for i in range(n) if lines[i].startswith("pub mod ")), default=0)
            b = next((i for i in range(n, len(lines)) if lines[i].startswith("pub fn spec")), n)
            return m.group(2) + " in\n" + "\n".join(lines[a + 4:b])[:2500]
    return errors[:500]


def c10(prop, seed, tier):
    r = run(prop, seed, tier, ["c10_lex"])
    known = {}
    for l in open(KNOWN):
        m = re.match(r"known: property=C10 key=(\S+) wrong=<(.*?)> (.*)", l)
        if m:
            known[m.group(1)] = (m.group(2), m.group(3))
    _, binary = prepare(seed, 0)
    out = subprocess.run([binary, "known"], stdout=subprocess.PIPE, text=True, timeout=60).stdout
    r["known"], r["violations"] = [], []
    for l in out.splitlines():
        key, got, want = l.split("\t")
        if got == want:
            continue
        if key in known and known[key][0] == got:
            r["known"].append(f"{key}: {known[key][1]}")
        else:
            r["violations"].append((f"{key}: tokens {got} instead of {want}", save_replay(prop, key, {"package": PKG, "key": key, "got": got, "want": want})))
    return r


def c15(prop, seed, tier):
    return run(prop, seed, tier, ["c15_terms"])


def c11(prop, seed, tier):
    return run(prop, seed, tier, ["c11_laws"])


def c09(prop, seed, tier):
    return run(prop, seed, tier, ["c09_stream"])

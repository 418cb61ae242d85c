"""generated types that derive ToSpan and Node: build a batch and run its checks; shapes that must be rejected"""
import random, re
import lexstep, wrapgen
from vlib import Broken, Violation, build, generated, run_binary, save_replay

PKG = "vp-wrapgen"
COUNT = {"quick": 60, "thorough": 120}
ROUNDS = {"quick": 1, "thorough": 8}


def prepare(seed, k=0, tier="quick"):
    path = generated(f"wrapgen-{seed}-{k}.rs", wrapgen.emit(seed * 1000 + k, COUNT[tier]))
    return path, build(PKG, {"VP_WRAPGEN": path})


def c24(prop, seed, tier):
    r = None
    for k in range(ROUNDS[tier]):
        try:
            path, binary = prepare(seed, k, tier)
        except Broken as b:
            e = getattr(b, "errors", "")
            if "wrapgen-" in e:
                src = f"wrapgen-{seed}-{k}.rs"
                text = wrapgen.emit(seed * 1000 + k, COUNT[tier])
                m = re.search(r"wrapgen-[^:\n]*:(\d+):\d+: (error.*)", e)
                lines, n = text.split("\n"), int(m.group(1)) if m else 1
                raise Violation(f"types that derive ToSpan and Node do not compile: {m.group(2) if m else e[:500]} at\n" + "\n".join(lines[max(0, n - 4):n + 2])[:2500],
                                save_replay(prop, "definitions", {"definitions": text, "file": src, "compiler": e[-20000:]}))
            raise
        q = run_binary(binary, PKG, "c24_derived", prop, seed, tier, save={"definitions": path})
        r = lexstep.merge(r, q)
    return r


def nodes(prop, seed, tier):
    try:
        path, binary = prepare(seed, 0, tier)
    except Broken as b:
        raise
    return run_binary(binary, PKG, "c24_nodes", prop, seed, tier)

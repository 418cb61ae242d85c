#!/usr/bin/env python3
"""check.py PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)

Builds the harness against /repo's working tree, runs the suites of the property, writes
evidence/<property>.json and reports. Exit 0: held; 1: violation; 2: the check could not run.
"""
import json, os, sys, time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS  # noqa: E402
from vlib import VERIF, Broken, Violation, build, run_binary, save_replay  # noqa: E402


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    start = time.time()
    spec = CHECKS[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []},
          "assumptions": spec.get("assumptions", []), "wall_s": 0, "violations": 0}
    cov = ev["coverage"]
    rules, classes, viol, known = [], {}, [], []

    def merge(r):
        cov["evaluations"] += r["evaluations"]
        cov["distinct_nontrivial"] += r["distinct_nontrivial"]
        if r["rule"] not in rules:
            rules.append(r["rule"])
        cov["samples"] += r["samples"][:4]
        if r.get("labels"):
            classes[r["suite"]] = r["labels"]
        for v in r.get("violations", []):
            viol.append(v)
        known.extend(r.get("known", []))

    code = 0
    try:
        for step in spec["steps"]:
            if step[0] == "suite":
                _, pkg, suite = step
                try:
                    binary = build(pkg)
                except Broken as b:
                    marker = spec.get("build_is_part")
                    if marker and getattr(b, "errors", "") and any(m in b.errors for m in marker):
                        raise Violation("definitions that are well formed do not compile",
                                        save_replay(prop, "build", {"package": pkg, "compiler": b.errors[-20000:]}))
                    raise
                merge(run_binary(binary, pkg, suite, prop, seed, tier))
                if tier == "thorough":
                    import guided
                    merge(guided.run(pkg, suite, prop, seed, binary))
            else:
                mod = __import__(step[1])
                merge(getattr(mod, step[2])(prop=prop, seed=seed, tier=tier))
    except Violation as v:
        viol.append((v.message, v.replay))
    except Broken as b:
        print(f"ERROR: {b}", file=sys.stderr)
        code = 2
    cov["rule"] = " || ".join(rules) or "no case was evaluated"
    cov["samples"] = cov["samples"][:12]
    cov["classes"] = classes
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - start, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for m, r in viol:
        print(m[:4000])
        print(f"VIOLATION property={prop} replay={os.path.relpath(r, VERIF)}")
    if viol:
        sys.exit(1)
    if code == 0:
        print(f"{prop}: held on {cov['evaluations']} evaluations ({cov['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    sys.exit(code)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""setup_cmd: build every harness package once"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
from vlib import build
pk = []
for c in CHECKS.values():
    for s in c["steps"]:
        if s[0] == "suite" and s[1] not in pk:
            pk.append(s[1])
for p in pk:
    print("building", p, flush=True)
    build(p)
if any(s[1] == "lexstep" for c in CHECKS.values() for s in c["steps"]):
    print("building vp-lexgen", flush=True)
    import lexstep
    lexstep.prepare(int(os.environ.get("VERIF_SEED", "1") or "1"))
if any(s[1] == "synstep" for c in CHECKS.values() for s in c["steps"]):
    print("building vp-syngen", flush=True)
    import synstep
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    synstep.prepare(seed)
    synstep.tests("C20", seed, "quick")
if any(s[1] == "baddefs" for c in CHECKS.values() for s in c["steps"]):
    print("checking vp-baddefs", flush=True)
    import baddefs
    baddefs.compile_modules("setup", [(0, "pub struct A;\n")], "")
    baddefs.compile_modules("setup", [(0, "pub struct A;\n")], "", "vp-renamed", "parselib")
if any(s[1] == "wrapstep" for c in CHECKS.values() for s in c["steps"]):
    print("building vp-wrapgen", flush=True)
    import wrapstep
    wrapstep.prepare(int(os.environ.get("VERIF_SEED", "1") or "1"))

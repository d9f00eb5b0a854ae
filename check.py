#!/usr/bin/env python3
"""check.py <property id>: decides one property (tier from VERIF_TIER)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib

LEVEL = {}


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        vlib.TIER = sys.argv[2]
    mod = importlib.import_module("p_" + pid.lower())
    ck = vlib.Check(pid, getattr(mod, "LEVEL", "model_checking"))
    mod.run(ck, vlib.TIER)
    if os.environ.get("ALLBAD"):
        for s, d in ck.violations:
            print("#####", s)
    return ck.finish()


vlib.main(main)

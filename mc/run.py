#!/usr/bin/env python3
"""run.py CNN [--replay FILE] [--only GROUP,...]: decide property CNN on the code in /repo/src"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"  # no stale bytecode of /repo is read
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ["/repo/src", HERE]
sys.setrecursionlimit(1500)

import envrandom  # noqa: E402  (owns the randomness; has to come before openspace)

envrandom.install()

import openspace  # noqa: E402
import engine  # noqa: E402


def main(argv):
    prop = argv[1]
    assert openspace.__file__.startswith("/repo/src/"), openspace.__file__
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    if "--replay" in argv:
        return engine.replay(mod.GROUPS, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1].split(",") if "--only" in argv else None
    return engine.run_check(prop, mod.GROUPS, tier, seed, {"assumptions": getattr(mod, "ASSUMPTIONS", [])}, only)


if __name__ == "__main__":
    sys.exit(main(sys.argv))

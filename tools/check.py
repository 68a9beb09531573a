#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--no-build]: decides one property."""
import argparse, importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_DIR", "/verif") + "/checks")
import vlib
a = argparse.ArgumentParser()
a.add_argument("id")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a.add_argument("--no-build", action="store_true")
o = a.parse_args()
if not o.no_build:
    vlib.build()
c = vlib.Check(o.id, o.tier, o.seed)
importlib.import_module(o.id.lower()).run(c)

#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import mbv
from registry import CHECKS
if __name__ == "__main__":
    pid = sys.argv[1]
    mod, fn = CHECKS[pid]
    mbv.main(getattr(importlib.import_module(mod), fn), pid)

#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's current working tree (VERIF_SEED, VERIF_TIER)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import check_table

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ["VERIF_TIER"] = sys.argv[2]
    mod, fn = check_table.TABLE[prop]
    rep = getattr(importlib.import_module(mod), fn)(prop)
    sys.exit(rep.finish())

if __name__ == "__main__":
    main()

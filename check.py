#!/usr/bin/env python3
"""check.py ID [--count N] [--replay FILE]: decides one property on /repo's working tree."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def factory(cid):
    mod = importlib.import_module("lv.checks." + cid.lower())
    return mod.CHECK


def main():
    from lv import harness
    cid = sys.argv[1]
    a = sys.argv[2:]
    if "--replay" in a:
        sys.exit(harness.replay(factory(cid), a[a.index("--replay") + 1]))
    count = int(a[a.index("--count") + 1]) if "--count" in a else None
    start = int(a[a.index("--start") + 1]) if "--start" in a else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(harness.main(factory(cid), tier, seed, count, start=start))


if __name__ == "__main__":
    main()

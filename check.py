#!/usr/bin/env python3
"""Decide one property.

    check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Programs are generated from the specification (spec/Gen.tla), run on the library in /repo, and the recorded
traces are judged against the specification (spec/Trace.tla).  Exit 0: the property held on everything
explored.  Exit 1: it did not (a VIOLATION line names a replay file).  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import checks  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        c = checks.Check(a.property, "thorough" if a.tier == "thorough" else "quick", seed, work, ROOT)
        if a.replay:
            sys.exit(c.replay(a.replay))
        rc = c.run(t0)
    except checks.tla.Failure as e:
        print(f"CHECK-FAILED property={a.property}: {e}", file=sys.stderr)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()

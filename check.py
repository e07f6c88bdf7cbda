#!/usr/bin/env python3
"""Usage: check.py <property id> [--repo DIR] [--out DIR]
Decides one property of the gdspy sources by static analysis."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from gdsa.model import Program  # noqa: E402
from gdsa.report import run_check  # noqa: E402
from gdsa.registry import REGISTRY  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    ids = sorted(REGISTRY) if a.property == "all" else [a.property]
    rc = 0
    for pid in ids:
        c = REGISTRY[pid]
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        r = run_check(pid, c["rules"], lambda: Program(a.repo), c.get("level", "other"), c["explanation"], tier, seed, a.out)
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())

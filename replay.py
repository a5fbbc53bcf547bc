#!/usr/bin/env python3
"""replay.py <file>: run the requests of a replay file through the current tree again,
each in a process of its own, and print what was recorded and what TLC says about it."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf


def main():
    reqs, notes = [], []
    for l in open(sys.argv[1]).read().splitlines():
        if not l or l.startswith("# "):
            notes.append(l)
        elif not l.startswith("#"):
            reqs.append(l)
    bad = 0
    for r in reqs[:40]:
        t = vf.conform([r], exe=vf.build_driver("asan", inflate=r.split(" ")[0] in ("Z", "z")))
        bad += t.no
        print("%s\n   %s" % (r[:400], "UNEXPLAINED" if t.no else "explained (%d by the standard, %d by named deviations)" % (t.std, t.built + t.mixed)))
        for e, _ in t.rejected:
            print("   " + vf.describe(e))
        for cr in t.crashes:
            print("   %s: %s" % (cr[2], cr[3]))
    for l in notes:
        print(l)
    return 1 if bad else 0


try:
    rc = main()
finally:
    vf.cleanup()
sys.exit(rc)

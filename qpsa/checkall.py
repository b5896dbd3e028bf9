"""Runs every property on one tree in one process (for development): python3 -m qpsa.checkall DIR"""
import os
import sys

from . import cones, check
from .conform import World


def findings(repo, thorough=False):
    w = World(os.path.join(repo, "src", "qp"), os.path.join(check.HERE, "ref", "qp"))
    w.fast = not thorough
    res = w.run()
    out = {}
    for p in cones.CONES:
        found, undecided, _, _ = check.decide(p, w, res, thorough)
        known = [c for q, c, t in check.load_known() if q == p]
        out[p] = ([f for f in found if f"{f['rule']}@{f['construct']}" not in known], undecided)
    return out


def show(repo, prop=None):
    out = findings(repo)
    hit = [p for p in out if out[p][0]]
    print("CAUGHT" if prop in hit else "MISSED" if prop else "", "alarms:", ",".join(hit))
    seen = set()
    for p in out:
        for f in out[p][0]:
            k = (f["rule"], f["construct"])
            if k not in seen:
                seen.add(k)
                print("      !", f["rule"], f["construct"], f["text"][:300])
    if prop is None or prop not in hit:
        seen = set()
        for p in out:
            for f in out[p][1]:
                if f["construct"] not in seen:
                    seen.add(f["construct"])
                    print("      ?", f["construct"], f["status"], f["why"][:400])


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    show(sys.argv[1])

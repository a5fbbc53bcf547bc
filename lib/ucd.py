"""Code points by class, from the specification's own data, for generating inputs."""
import json, os, random
from functools import lru_cache

D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "data")


@lru_cache(None)
def load():
    return json.load(open(os.path.join(D, "ucd.json")))


@lru_cache(None)
def cls_of():
    u = load()
    out = []
    for b in u["clsIdx"]:
        out.extend(u["clsBlk"][b - 1])
    return out  # 0x110000 entries, 1-based class ids


@lru_cache(None)
def by_class():
    r = {}
    for c, k in enumerate(cls_of()):
        r.setdefault(k, []).append(c)
    return r


def attr(c):
    return load()["cls"][cls_of()[c] - 1]


@lru_cache(None)
def valid():
    return [c for k, v in by_class().items() if load()["cls"][k - 1][0] == 1 for c in v]


@lru_cache(None)
def valid_classes():
    return [v for k, v in sorted(by_class().items()) if load()["cls"][k - 1][0] == 1]


@lru_cache(None)
def mapped():
    return sorted(c for k, v in by_class().items() if load()["cls"][k - 1][0] == 2 for c in v)


@lru_cache(None)
def disallowed():
    return sorted(c for k, v in by_class().items() if load()["cls"][k - 1][0] == 0 for c in v)


def mapping(c):
    u = load()
    return u["maps"][u["mapBlk"][u["mapIdx"][c >> 8] - 1][c & 255] - 1]


def decomp(c):
    u = load()
    k = u["decBlk"][u["decIdx"][c >> 8] - 1][c & 255]
    return u["decs"][k - 1]["d"] if k else None


@lru_cache(None)
def decomposable():
    return [c for c in range(0x110000) if decomp(c)]


@lru_cache(None)
def comp_pairs():
    u = load()
    r = []
    for a in range(0x110000):
        k = u["compBlk"][u["compIdx"][a >> 8] - 1][a & 255]
        if k:
            for b, c, stale in u["comps"][k - 1]:
                r.append((a, b, c, stale))
    return r


@lru_cache(None)
def select(st=None, ccc=None, bidi=None, join=None, mark=None):
    """valid code points by standard attributes"""
    r = []
    for k, v in sorted(by_class().items()):
        a = load()["cls"][k - 1]
        if (st is None or a[0] == st) and (ccc is None or a[1] == ccc) and (bidi is None or a[2] == bidi) and \
           (join is None or a[3] == join) and (mark is None or a[4] == mark):
            r.extend(v)
    return r


@lru_cache(None)
def current():
    """valid code points none of whose attributes are stale"""
    bad = set()
    for runs in json.load(open(os.path.join(D, "stale.json"))).values():
        for lo, hi in runs:
            bad.update(range(lo, hi + 1))
    return bad


BL, BR, BEN, BES, BET, BAN, BCS, BON, BBN, BNSM, BAL = 0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13
JL, JD, JT, JR = 1, 2, 3, 4

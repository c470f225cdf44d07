"""Worlds of module Alts on which a wrong search for alternatives answers wrongly, built as timetables."""
import json
import random
import re

import dataset as D
import tlc

WIDE = [[[i + 1] for i in range(k)] for k in (49, 50, 51, 52)]


def explore(workers=3, timeout=600):
    """module Alts exhaustively: ({wrong search: worlds}, TLC statistics)"""
    out, st = tlc.run("Alts", workers=workers, timeout=timeout)
    told = {}
    for m in re.finditer(r'^"W (.*)"$', out, re.M):
        w = json.loads(m.group(1).replace('\\"', '"'))
        told.setdefault(w["bug"], []).append((w["world"], w["base"], w["lim"]))
    for v in told.values():
        v.sort(key=lambda x: (len(x[0]), json.dumps(x)))
    return told, st


def wrong_searches():
    cfg = open(tlc.os.path.join(tlc.SPEC, "Alts.cfg")).read()
    return set(re.findall(r'"(\w+)"', re.search(r"Bugs = \{(.*)\}", cfg).group(1))) - {"none"}


def build(world, base, lim, fwd, key):
    """a timetable whose admissible journeys are exactly those of the world, in its order of preference, with a request"""
    nl = max([x for j in world for x in j] + [3])
    T0 = 8 * 3600
    nodes = 2                                # 0: stop at the origin, 1: stop at the destination
    ds = {"g": 60, "base": T0, "span": 3000, "agencies": [{}], "services": [{}], "lines": [{"agency": 0, "mode": "bus"} for _ in range(nl)],
          "paths": [], "trips": [], "foot": []}
    for r, j in enumerate(world):
        late = r >= lim
        # departures: the better arrives earlier; arrivals: the better leaves later
        if fwd:
            t = T0 + 5 * r if not late else T0 + 1500 + 5 * r
        else:
            t = T0 + 3000 - 600 - 5 * r if not late else T0 - 5 * r
        at = 0
        for x, l in enumerate(j):
            to = 1 if x == len(j) - 1 else nodes
            if to == nodes:
                nodes += 1
            dur = 90
            end = t + dur
            if to == 1:
                end = T0 + 700 + 5 * r + (1500 if late else 0) if fwd else max(t + dur, T0 + 3000 - 5 * r)
            ds["paths"].append({"line": l - 1, "nodes": [at, to], "dist": [500 + 10 * r + x]})
            ds["trips"].append({"line": l - 1, "path": len(ds["paths"]) - 1, "service": 0, "arr": [t, end], "dep": [t, end], "cb": [1, 1], "cu": [1, 1]})
            at, t = to, end + 60
    ds["nodes"] = [{} for _ in range(nodes)]
    ds["foot"] = [[a, a, 0, 0] for a in range(nodes)]
    ds["scenarios"] = [{"services": [0], "exceptLines": [l - 1 for l in base]}]
    ds["places"] = [{}, {}]
    far = [900000, 900000]
    ds["walk"] = [[[30, 40] if n == 0 else far for n in range(nodes)], [[45, 50] if n == 1 else far for n in range(nodes)]]
    rng = random.Random(key)
    D.finish(ds, rng)
    q = {"o": 0, "d": 1, "s": 0, "T": T0 - 120 if fwd else T0 + 3100, "fwd": fwd, "p": {"mw": 60, "fw": 0}}
    return ds, q


def directed(told, prop, seed, per=4, sample=6):
    """datasets and requests: the smallest and some other worlds of every wrong search, and the wide ones"""
    rng = random.Random(f"alts/{seed}")
    worlds = [(w, [], len(w)) for w in WIDE]
    for b in sorted(told):
        worlds += told[b][:per] + rng.sample(told[b], min(sample, len(told[b])))
    res, seen = [], set()
    for w in worlds:
        k = json.dumps(w)
        if k in seen:
            continue
        seen.add(k)
        for fwd in (True, False):
            ds, q = build(*w, fwd, k)
            res.append((ds, [dict(q, ep="summary" if prop == "C19" else "route", alt=True), dict(q, ep="summary" if prop == "C19" else "route", alt=False)]))
    return res

"""Networks of module Tiny (numbered) on which module Csa's wrong scans answer wrongly, turned into cache files and
questions for the real server.  corpus/scan.json lists them as [wrong scan, network number, question kind]."""
import json
import os
import random
import re
import shutil

import dataset as D
import server as S
import tlc

CORPUS = os.path.join(tlc.VERIF, "corpus", "scan.json")


def corpus():
    with open(CORPUS) as f:
        return [tuple(x) for x in json.load(f)]


def show(triples, workers=4, timeout=600):
    """runs the listed scans: ({number: (network, question)}, told triples, TLC statistics)"""
    d = S.scratch("scan")
    try:
        f = os.path.join(d, "list.json")
        with open(f, "w") as fh:
            fh.write(json.dumps(sorted(triples)) + "\n")
        out, st = tlc.run("Csa", cfg="CsaList", env={"LIST": f}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    nets = {}
    for m in re.finditer(r'^"NET (.*)"$', out, re.M):
        x = json.loads(m.group(1).replace('\\"', '"'))
        nets[x["id"]] = (x["D"], x["q"])
    return nets, told(out), st


def told(out):
    return {(m.group(1), int(m.group(2)), m.group(3)) for m in re.finditer(r'<<"N", "(\w+)", (\d+), "(\w+)">>', out)}


def explore(first, upto, bugs=("none",), workers=4, timeout=600):
    """all scans in bugs over a range of networks: (told triples, TLC statistics)"""
    d = S.scratch("scancfg")
    try:
        cfg = os.path.join(d, "Range")
        with open(cfg + ".cfg", "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS First = %d Upto = %d Bugs = {%s}\nVIEW View\nINVARIANTS Correct Told\n"
                    "CHECK_DEADLOCK FALSE\n" % (first, upto, ", ".join(f'"{b}"' for b in bugs)))
        out, st = tlc.run("Csa", cfg=cfg, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return told(out), st


def travellers(first, upto, workers=4, timeout=600):
    """module TravellerMachine over a range of networks: TLC statistics"""
    d = S.scratch("scancfg")
    try:
        cfg = os.path.join(d, "Range")
        with open(cfg + ".cfg", "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS First = %d Upto = %d\nVIEW View\nINVARIANTS ForwardSame BackwardSame\n"
                    "CHECK_DEADLOCK FALSE\n" % (first, upto))
        return tlc.run("TravellerMachine", cfg=cfg, workers=workers, timeout=timeout)[1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def wrong_scans():
    src = open(os.path.join(tlc.SPEC, "Csa.tla")).read()
    return sorted(set(re.findall(r'\b(?:B|in|out)\("(\w+)"\)', src)) | {"scenario"})


BASE = 36000
HOURS = (10, 1, 24, 8, 11, 0.99, 23.995, 28)


def to_dataset(x, n):
    """network of the specification -> abstract dataset; the clock is moved and the second may become a minute"""
    scale = 60 if n // 3 % 2 else 1
    off = int(HOURS[n // 7 % len(HOURS)] * 3600)
    t = lambda v: off + (v - BASE) * scale
    off = max(off, 600)
    far = 900000
    ds = {"g": scale, "base": off, "span": 30 * scale,
          "nodes": [{} for _ in range(x["nn"])], "agencies": [{}], "services": [{}],
          "foot": [[a, f[0] - 1, f[1] * scale, f[2]] for a, fs in enumerate(x["foot"]) for f in fs],
          "lines": [{"agency": 0, "mode": l["mode"]} for l in x["lines"]],
          "paths": [{"line": tr["line"] - 1, "nodes": [s - 1 for s in tr["nodes"]], "dist": list(tr["dist"])} for tr in x["trips"]],
          "trips": [{"line": tr["line"] - 1, "path": i, "service": 0, "arr": [t(v) for v in tr["arr"]], "dep": [t(v) for v in tr["dep"]],
                     "cb": list(tr["cb"]), "cu": list(tr["cu"])} for i, tr in enumerate(x["trips"])],
          "scenarios": [{"services": [0], "onlyLines": [l - 1 for l in s["onlyLines"]], "exceptLines": [l - 1 for l in s["exceptLines"]]}
                        for s in x["scenarios"]],
          "places": [{}, {}],
          "walk": [[[w[0] * scale, w[1]] if w[0] >= 0 else [far, far] for w in row] for row in x["walk"]]}
    return D.finish(ds, random.Random(n)), scale, t


def questions(prop, q0, scale, t):
    """the question of the specification and its neighbours, as the property needs them"""
    base = {k: (v[0] * scale if v else None) for k, v in q0["p"].items()}
    free = dict(base, mt=0, ma=0, me=0, fw=0)
    out = []

    def add(ep, fwd, T, p, alt=False):
        q = {"ep": ep, "o": 0, "d": 1, "s": 0, "T": max(0, min(T, 115199)), "fwd": fwd, "alt": alt, "p": p}
        if q not in out:
            out.append(q)

    def around(ep, fwd, alt=False):
        T = q0["T"] if q0["fwd"] == fwd else (BASE - 2 if fwd else BASE + 24)
        for p in (base, dict(base, fw=0), free):
            for dT in ((0, -2, 3) if p is base else (0, 3)):
                add(ep, fwd, t(T + dT), p, alt)

    dirs = {"C03": (True,), "C05": (True,), "C08": (True,), "C04": (False,), "C09": (False,)}.get(prop, (True, False))
    for fwd in dirs:
        if prop in ("C08", "C09"):
            around("access", fwd)
        elif prop == "C19":
            around("summary", fwd, True)
            add("summary", fwd, t(q0["T"]), base)
        elif prop == "C10":
            around("route", fwd, True)
        else:
            around("route", fwd)
            if prop in ("C07", "C16"):
                around("access", fwd)
            if prop in ("C01", "C02", "C06", "C16"):
                add("route", fwd, t(q0["T"]), base, True)
    return out


def directed(prop, nets):
    res = []
    for n, (x, q0) in sorted(nets.items()):
        ds, scale, t = to_dataset(x, n)
        res.append((ds, questions(prop, q0, scale, t)))
    return res

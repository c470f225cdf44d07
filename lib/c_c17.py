"""C17: faulty cache directories, at start-up and on /updateCache (module Loader)."""
import concurrent.futures
import copy
import json
import multiprocessing
import os
import random
import re
import shutil
import threading
import time
import urllib.parse

import build
import c_c14
import c_c18
import c_c20
import campaign as C
import dataset as D
import history as H
import server as S
import tlc
from capnpw import pack

MUTANTS = {"uncaught", "dangling", "nocheck", "stopline", "loseall", "append", "misname", "stale", "somereq", "nocascade", "keepold", "enoent"}
SIZE = {"quick": dict(worlds=2, sweep=2400, starts=240, subsets=140, hist=110), "thorough": dict(worlds=6, sweep=10 ** 9, starts=12000, subsets=600, hist=2400)}
NAME = {"dataSources": "data_sources", "odTrips": "od_trips"}
COLLECTIONS = ("nodes", "dataSources", "agencies", "services", "lines", "paths", "scenarios")


# ---------------------------------------------------------------- a network in which every trip can be asked for
def world(rng):
    """trips half an hour apart; the places of a line are next to its first and last stop only"""
    nl = rng.choice((2, 3, 3))
    hops = [rng.randint(1, 3) for _ in range(nl)]
    nn = sum(hops) + 1
    ds = {"g": 60, "nodes": [{} for _ in range(nn)], "agencies": [{} for _ in range(2)], "services": [{} for _ in range(2)], "lines": [], "paths": [], "trips": [],
          "places": [], "walk": [], "foot": [], "scenarios": []}
    modes = rng.sample(["bus", "rail", "metro", "tram", "transferable", "other"], nl)
    first = 0
    slot = list(range(3 * nl))
    rng.shuffle(slot)
    probes = []
    for l in range(nl):
        ds["lines"].append({"agency": l % 2, "mode": modes[l], "same": rng.choice((0, 1, -1))})
        nodes = list(range(first, first + hops[l] + 1))
        first += hops[l]
        ds["paths"].append({"line": l, "nodes": nodes, "dist": [500] * hops[l]})
        w = [None] * nn
        w[nodes[0]] = [60, 70]
        v = [None] * nn
        v[nodes[-1]] = [90, 100]
        ds["places"] += [{}, {}]
        ds["walk"] += [w, v]
        for j in range(rng.randint(1, 3)):
            t0 = 18000 + 1800 * slot.pop() + 60 * rng.randrange(5)
            dep, arr = [], []
            t = t0
            for n in nodes:
                arr.append(t)
                t += rng.choice((0, 30))
                dep.append(t)
                t += rng.choice((120, 240, 300))
            ds["trips"].append({"line": l, "path": l, "service": rng.randrange(2), "arr": arr, "dep": dep, "cb": [1] * len(nodes), "cu": [1] * len(nodes)})
            total = 60 + 240 + (arr[-1] - dep[0]) + 90
            if rng.random() < .6:
                probes.append((l, dict(time_of_trip=dep[0] - 300, time_type=0, max_travel_time=total)))
            else:
                probes.append((l, dict(time_of_trip=arr[-1] + 90, time_type=1, max_travel_time=total)))
    for i in range(nn):
        ds["foot"].append([i, i, 0, 0])
        for k in range(nn):
            if k != i and rng.random() < .3:
                ds["foot"].append([i, k, rng.choice((60, 120, 300)), 100])
    # two more places, in reach of everything
    ds["places"] += [{}, {}]
    ds["walk"] += [[[rng.choice((60, 300, 900)), 100] if rng.random() < .6 else None for _ in range(nn)] for _ in range(2)]
    both = [0, 1]
    ds["scenarios"] = [{"services": both}] + [{"services": both, "onlyLines": [l]} for l in range(nl)] + \
                      [{"services": [rng.randrange(2)], "exceptLines": [rng.randrange(nl)]}, {"services": both, "exceptAgencies": [1], "onlyModes": modes[:1]}]
    if rng.random() < .85:
        ds["dataSources"] = [{"uuid": D.mkuuid(rng), "type": rng.randrange(1, 12), "persons": [{"uuid": D.mkuuid(rng)} for _ in range(2)], "odTrips": [
            {"uuid": D.mkuuid(rng), "person": rng.randrange(2), "onodes": [0, 1], "dnodes": [1, nn - 1]} for _ in range(2)]} for _ in range(rng.choice((1, 1, 2)))]
    D.finish(ds, rng)
    at = lambda p: D.coord(ds["places"][p])
    q = lambda path, **kw: path + "?" + urllib.parse.urlencode(kw)
    sc = [s["uuid"] for s in ds["scenarios"]]
    out = []
    for t, (l, kw) in enumerate(probes):
        out.append((t + 1, q("/v2/route", origin=at(2 * l), destination=at(2 * l + 1), scenario_id=sc[1 + l], **kw)))
    a, b = at(2 * nl), at(2 * nl + 1)
    ts = sorted(x["dep"][0] for x in ds["trips"])
    mid = ts[len(ts) // 2]
    out += [(0, q("/v2/route", origin=at(0), destination=at(2 * nl - 1), scenario_id=sc[0], time_of_trip=ts[0] - 600, max_first_waiting_time=0, max_transfer_travel_time=3600)),
            (0, q("/v2/route", origin=a, destination=b, scenario_id=sc[0], time_of_trip=mid - 1200, alternatives="true", min_waiting_time=0)),
            (0, q("/v2/route", origin=a, destination=b, scenario_id=sc[-1], time_of_trip=ts[-1] + 4000, time_type=1, max_first_waiting_time=0)),
            (0, q("/v2/summary", origin=b, destination=a, scenario_id=sc[0], time_of_trip=mid, time_type=1)),
            (0, q("/v2/accessibility", place=a, scenario_id=sc[-2], time_of_trip=ts[0] - 900, max_first_waiting_time=0, max_travel_time=30000)),
            (0, q("/v2/accessibility", place=b, scenario_id=sc[0], time_of_trip=ts[-1] + 3000, time_type=1, max_travel_time=30000)),
            (0, q("/v2/accessibility", place=at(0), scenario_id=sc[1], time_of_trip=5, max_first_waiting_time=0, max_travel_time=0))]
    return ds, out


def directory(ds, rng):
    """full file names -> bytes, and what each of them is: (file, idx)"""
    fs = {k + ".capnpbin": v for k, v in D.files(ds).items()}
    what = {}
    ix = {k: {o["uuid"]: i + 1 for i, o in enumerate(ds.get(k, ()))} for k in ("nodes", "lines", "dataSources")}
    for d in ds.get("dataSources", ())[:1]:
        if rng.random() < .5:
            # one data source has its persons in numbered files
            n = f"dataSources/{d['uuid']}/persons.capnpbin"
            fs[n + ".0"] = fs.pop(n)
            fs[n + ".1"] = D.message("personCollection.PersonCollection", {"persons": []})
            fs[n + ".count"] = b"2"
    for n in fs:
        p = n.split("/")
        if len(p) == 1:
            what[n] = (n.split(".")[0], 0)
        elif p[0] == "lines":
            what[n] = ("line", ix["lines"][p[1].split(".")[0][5:]])
        elif p[0] == "nodes":
            what[n] = ("stop", ix["nodes"][p[1].split(".")[0][5:]])
        else:
            what[n] = ("person" if p[2].startswith("persons") else "odtrip", ix["dataSources"][p[1]])
    return fs, what


# ---------------------------------------------------------------- faults: (name of the file, bytes or None, abstract fault, description)
def fault(what, n, w, hit=(), gone=()):
    return {"file": what[n][0], "idx": what[n][1], "what": w, "hit": sorted(hit), "gone": sorted(gone)}


def unpack(b):
    out = bytearray()
    i = 0
    while i < len(b):
        tag = b[i]
        i += 1
        for k in range(8):
            if tag >> k & 1:
                out.append(b[i])
                i += 1
            else:
                out.append(0)
        if tag == 0:
            out += bytes(8 * b[i])
            i += 1
        elif tag == 0xFF:
            n = 8 * b[i]
            out += b[i + 1:i + 1 + n]
            i += 1 + n
    return bytes(out)


def sweep(fs, what):
    """every single-file byte fault: truncations, single-bit flips, zeroed ranges; and single-bit flips of the unpacked message"""
    for n, b in fs.items():
        yield n, "missing", ()
        for c in range(len(b)):
            yield n, "cut", (c,)
        for o in range(len(b)):
            for k in range(8):
                yield n, "flip", (o, k)
            for ln in (1, 2, 4, 8, 16, 64, len(b)):
                if ln <= 2 or o % 4 == 0:
                    yield n, "zero", (o, ln)
        if not n.endswith("count"):
            for o in range(len(unpack(b))):
                for k in range(8):
                    yield n, "mflip", (o, k)


def apply(b, how, a):
    if how == "missing":
        return None
    if how == "cut":
        return b[:a[0]]
    b = bytearray(unpack(b) if how == "mflip" else b)
    if how == "zero":
        o, ln = a
        b[o:o + ln] = bytes(len(b[o:o + ln]))
        return bytes(b)
    o, k = a
    b[o] ^= 1 << k
    return pack(bytes(b)) if how == "mflip" else bytes(b)


def some_bad(rng, fs, what, n):
    b = fs[n]
    x = rng.random()
    if x < .1:
        return b"", "empty"
    if x < .25:
        c = rng.randrange(len(b))
        return b[:c], f"cut at {c}"
    if x < .35:
        o, ln = rng.randrange(len(b)), rng.choice((1, 4, 16, 64))
        return apply(b, "zero", (o, ln)), f"zeroed {o}+{ln}"
    if x < .45:
        m = bytearray(b)
        for _ in range(rng.choice((2, 8, 40))):
            m[rng.randrange(len(m))] = rng.randrange(256)
        return bytes(m), "random bytes"
    if x < .5:
        return rng.randbytes(rng.choice((1, 8, 100, 1000))), "noise"
    if x < .55:
        o = rng.choice([x for x in fs if x != n])
        return fs[o], f"the content of {o}"
    if x < .7 or n.endswith("count"):
        o, k = rng.randrange(len(b)), rng.randrange(8)
        return apply(b, "flip", (o, k)), f"bit {k} of byte {o}"
    u = len(unpack(b))
    m = bytearray(unpack(b))
    if x < .85:
        o, k = rng.randrange(u), rng.randrange(8)
        m[o] ^= 1 << k
        return pack(bytes(m)), f"bit {k} of byte {o} of the message"
    # a word of the message becomes an extreme value
    for _ in range(rng.choice((1, 1, 3))):
        o = 4 * rng.randrange(2, max(3, u // 4))
        m[o:o + 4] = rng.choice((b"\xff" * 4, b"\xff\xff\xff\x7f", b"\0\0\0\x80", b"\1\0\0\0", b"\0\0\0\0", b"\xfe\xff\xff\xff", b"\x40\x42\x0f\0"))
    return pack(bytes(m)), f"words changed near {o}"


def dangling(rng, ds, what, fs, file):
    """(name, bytes, abstract fault, description) of an inconsistency seated in a file of this sort, or None"""
    d = copy.deepcopy(ds)
    u = D.mkuuid(rng)
    u = rng.choice((u, u, u, u, "00000000-0000-0000-0000-000000000000", "", "zz"))
    hit, gone = (), ()
    pick = lambda l: rng.randrange(len(l))
    if file == "lines":
        i = pick(d["lines"])
        if rng.random() < .5:
            d["lines"][i]["agencyUuid"], n = u, "unknown agency"
        else:
            d["lines"][i]["mode"], n = rng.choice(("hovercraft", "", "Bus")), "unknown mode"
        f = "lines.capnpbin"
    elif file == "paths":
        i = pick(d["paths"])
        x = rng.random()
        if x < .4:
            p = d["paths"][i]
            p["nodesUuids"] = [d["nodes"][k]["uuid"] for k in p["nodes"]]
            p["nodesUuids"][pick(p["nodesUuids"])] = u
            n = "unknown stop"
        elif x < .6:
            d["paths"][i]["lineUuid"], n = u, "unknown line"
        elif x < .75:
            p = d["paths"][i]
            p["nodesUuids"] = [d["nodes"][k]["uuid"] for k in p["nodes"]][:rng.choice((0, 1))]
            n = "path with fewer stops than its trips"
        else:
            d["paths"][i]["data"] = rng.choice(("", "{", "null", "[]", "{}", "5", '"x"', '{"segments":5}', '{"segments":[]}', '{"segments":[{}]}', '{"segments":{}}', '{"segments":"x"}',
                                                '{"segments":[{"distanceMeters":"x"}]}', '{"segments":[{"distanceMeters":1e300,"travelTimeSeconds":-1e300}]}',
                                                '{"segments":[null,null]}', '{"segments":[{"distanceMeters":99999999999999}]}', '{"segments":[{"distanceMeters":[1]}]}', "\xff"))
            n = f"path data {d['paths'][i]['data']!r}"
        f = "paths.capnpbin"
    elif file == "scenarios":
        s = d["scenarios"][pick(d["scenarios"])]
        k = rng.choice(("moreServices", "moreOnlyLines", "moreExceptLines", "moreExceptAgencies", "onlyNodesUuids", "exceptNodesUuids", "mode", "only"))
        if k == "mode":
            s["exceptModes"] = s["exceptModes"] + ["hovercraft"]
        elif k == "only":
            s["services"], s["moreServices"] = [], [u]
        else:
            s[k] = [u] * rng.choice((1, 2))
        f, n = "scenarios.capnpbin", f"unknown id in {k}"
    elif file == "line":
        j = pick(d["trips"])
        t = d["trips"][j]
        hit = [j + 1]
        k = rng.choice(("path", "service", "none", "more", "dep", "cb", "cu", "one", "dup", "self", "times"))
        n = f"trip: {k}"
        if k == "path":
            t["pathUuid"], gone = u, hit
        elif k == "service":
            t["serviceUuid"], gone = u, hit
        elif k == "none":
            t["arr"], t["dep"], t["cb"], t["cu"], gone = [], [], [], [], hit
        elif k == "one":
            t["arr"], t["dep"], t["cb"], t["cu"], gone = t["arr"][:1], t["dep"][:1], [1], [1], hit
        elif k == "more":
            for _ in range(rng.choice((1, 2, 50))):
                t["arr"].append(t["arr"][-1] + 60)
                t["dep"].append(t["arr"][-1])
                t["cb"].append(1)
                t["cu"].append(1)
        elif k == "dep":
            t["dep"] = t["dep"][:rng.choice((0, len(t["dep"]) - 2 if len(t["dep"]) > 2 else 0))]
        elif k == "times":
            i = pick(t["arr"])
            v = rng.choice((-1, -99999, 2 ** 31 - 1, -2 ** 31, 0, 115200, 200000, 86400))
            for key in rng.choice((("arr",), ("dep",), ("arr", "dep"))):
                t[key][i] = v
        elif k in ("cb", "cu"):
            t[k] = t[k][:rng.choice((0, 1))]
        elif k == "self":
            t["uuid"], gone = rng.choice(("", "zz", t["uuid"][:-1])), ()
        else:
            o = d["trips"][pick(d["trips"])]
            if o is t or o["line"] != t["line"]:
                return None
            t["uuid"] = o["uuid"]
            hit = [j + 1, d["trips"].index(o) + 1]
        f = "lines/line_" + d["lines"][t["line"]]["uuid"] + ".capnpbin"
    elif file == "stop":
        i = pick(d["nodes"])
        k = rng.choice(("unknown", "unknown", "times", "distances", "twice", "negative", "huge"))
        x = d["nodes"][i]
        if k == "unknown":
            x["extra"] = [(u, 60, 60)] * rng.choice((1, 3))
        elif k == "times":
            x["keepTimes"] = rng.choice((0, 1))
        elif k == "distances":
            x["keepDistances"] = 0
        elif k == "twice":
            x["extra"] = [(d["nodes"][pick(d["nodes"])]["uuid"], 0, 0)] * 3
        else:
            x["extra"] = [(d["nodes"][pick(d["nodes"])]["uuid"], {"negative": -500, "huge": 32767}[k], -5)]
        n = f"stop: {k}"
        f = "nodes/node_" + x["uuid"] + ".capnpbin"
    elif file in ("person", "odtrip") and "dataSources" in d:
        s = d["dataSources"][pick(d["dataSources"])]
        if file == "person":
            s["persons"][pick(s["persons"])]["dataSourceUuid"], n, f = u, "person: unknown data source", f"dataSources/{s['uuid']}/persons.capnpbin"
            if f not in fs:
                f += ".0"
        else:
            o = s["odTrips"][pick(s["odTrips"])]
            k = rng.choice(("dataSourceUuid", "personUuid", "moreNodes", "times", "dtimes"))
            o[k] = [u] if k == "moreNodes" else 0 if "imes" in k else u
            n, f = f"odTrip: {k}", f"dataSources/{s['uuid']}/odTrips.capnpbin"
    else:
        return None
    g = {k + ".capnpbin": v for k, v in D.files(d).items()}
    b = g.get(f, g.get(f[:-2]))
    if b == fs[f]:
        return None
    a = fault(what, f, "dangling", hit, gone)
    if file == "stop" or n.startswith("path with") or u in ("", "zz"):
        a["what"] = "bad" if file != "line" else "dangling"
        if file == "line":
            a["hit"] = sorted(j + 1 for j, t in enumerate(d["trips"]) if "lines/line_" + d["lines"][t["line"]]["uuid"] + ".capnpbin" == f)
    return f, b, a, n


def concrete(rng, ds, fs, what, abstract):
    """a fault of the model as a change of one file (None when this network has no such file)"""
    ns = [n for n in fs if what[n][0] == abstract["file"]]
    if abstract["what"] == "dangling":
        for _ in range(20):
            r = dangling(rng, ds, what, fs, abstract["file"])
            if r:
                return r
        return None
    if not ns:
        return None
    n = rng.choice(sorted(ns))
    if abstract["what"] == "missing":
        return n, None, fault(what, n, "missing"), "missing"
    b, note = some_bad(rng, fs, what, n)
    return (n, b, fault(what, n, "bad"), note) if b != fs[n] else None


# ---------------------------------------------------------------- driving
class Dir:
    """a directory of links to intact files, some replaced"""

    def __init__(self, path, fs, good):
        self.path, self.fs, self.good, self.odd = path, fs, good, set()
        for n in fs:
            os.makedirs(os.path.dirname(os.path.join(path, n)), exist_ok=True)
            os.symlink(os.path.join(good, n), os.path.join(path, n))

    def set(self, faults):
        for n in self.odd:
            p = os.path.join(self.path, n)
            if os.path.lexists(p):
                os.unlink(p)
            os.symlink(os.path.join(self.good, n), p)
        self.odd = set()
        for n, b in faults:
            p = os.path.join(self.path, n)
            os.unlink(p)
            if b is not None:
                with open(p, "wb") as f:
                    f.write(b)
            self.odd.add(n)


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=1:max_allocation_size_mb=4000:hard_rss_limit_mb=3000"}


class Session:
    def __init__(self, seed, w):
        rng = random.Random(f"C17/{seed}/{w}")
        self.ds, self.probes = world(rng)
        self.fs, self.what = directory(self.ds, rng)
        self.tmp = S.scratch()
        self.good = os.path.join(self.tmp, "good")
        for n, b in self.fs.items():
            p = os.path.join(self.good, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
        self.router = S.Router()
        self.router.set_dataset(self.ds)
        self.base = None
        self.runs, self.run, self.sv, self.cl = [], None, None, None
        self.n = 0
        self.reports = []

    def close(self):
        self.stop()
        self.router.close()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def stop(self):
        if self.cl:
            self.cl.close()
        if self.sv:
            self.sv.kill()
            self.reports += c_c14.san_reports(self.log)
        self.sv = self.cl = None
        if self.run and self.run["ev"]:
            self.runs.append(self.run)
        self.run = None

    def start(self, faults, build_name="api"):
        """faults: [(name, bytes, abstract, note)]"""
        self.stop()
        self.n += 1
        root = os.path.join(self.tmp, f"r{self.n}")
        Dir(root, self.fs, self.good).set([f[:2] for f in faults])
        os.symlink(self.good, os.path.join(root, "intact"))
        self.x = Dir(os.path.join(root, "x"), self.fs, self.good)
        self.root, self.log = root, os.path.join(self.tmp, f"log{self.n}")
        self.run = {"ev": [], "note": build_name}
        try:
            self.sv = S.Server(C._W["bins"][build_name], root, self.router, all_sets=self.n % 2 == 0, threads=1, memory=None, log=self.log, env=ASAN)
            self.cl = c_c20.Client(self.sv.port)
        except S.Crash as e:
            return self.event(True, [], faults, str(e))
        return self.event(True, [], faults)

    def refresh(self, names, faults, times=1):
        self.x.set([f[:2] for f in faults])
        path = "x" if faults else "intact"
        try:
            for _ in range(times):
                st, hs, b = self.cl.get("/updateCache?names=" + ",".join(NAME.get(n, n) for n in names) + "&path=" + path, timeout=120)
            if st != 200 or json.loads(b).get("status") != "success":
                return self.event(False, names, faults, bad=f"/updateCache: {st} {b[:200]!r}")
        except (S.Crash, ValueError) as e:
            return self.event(False, names, faults, str(e))
        return self.event(False, names, faults)

    def event(self, start, names, faults, crash=None, bad=None):
        e = {"start": start, "names": list(names), "dir": [f[2] for f in faults], "notes": [f"{f[0]}: {f[3]}" for f in faults], "up": crash is None, "as": []}
        if bad:
            e["as"].append({"t": 0, "ok": False, "kind": "", "code": "", "vis": "no", "note": bad})
        texts = []
        if crash is None:
            try:
                for t, tg in self.probes:
                    try:
                        st, hs, b = self.cl.get(tg, timeout=60)
                        ok, kind, code, echo, h = c_c18.answer(st, hs, b)
                        ok = ok and st == (400 if kind == "query_error" else 200)
                        text = H.canon(st, b) if ok else b[:300].decode("latin-1")
                    except ValueError as x:
                        ok, kind, code, text = False, "", "", str(x)
                    texts.append(text)
                    vis = "odd"
                    if self.base is None or text == self.base[len(texts) - 1]:
                        vis = "yes"
                    elif kind != "success":
                        vis = "no"
                    a = {"t": t, "ok": ok, "kind": kind, "code": code, "vis": vis}
                    if not ok:
                        a["note"] = f"{tg} -> {text}"
                    e["as"].append(a)
            except S.Crash as x:
                crash = str(x)
                e["up"] = False
        if crash is None and not self.sv.alive():
            crash, e["up"] = "the server is gone", False
        if self.base is None:
            if not e["up"] or faults or not start:
                raise RuntimeError(f"no reference answers: {crash}")
            self.base = texts
            for (t, tg), x in zip(self.probes, texts):
                if t and self.ds["trips"][t - 1]["uuid"] not in x:
                    raise RuntimeError(f"the network does not show trip {t}: {tg} {x}")
        if not e["up"]:
            r = c_c14.san_reports(self.log)
            try:
                tail = open(self.log, errors="replace").read()[-700:]
            except OSError:
                tail = ""
            e["crash"] = f"{crash}; {'; '.join(r) or tail}"
            self.run["ev"].append(e)
            self.stop()
            return False
        self.run["ev"].append(e)
        return True

    def result(self):
        tl = [{"line": t["line"] + 1, "stops": sorted({n + 1 for n in self.ds["paths"][t["path"]]["nodes"]})} for t in self.ds["trips"]]
        out = []
        for r in self.runs:
            out.append({"nlines": len(self.ds["lines"]), "tl": tl, "ev": r["ev"]})
        self.runs = []
        return out


def _task(a):
    seed, w, what, items = a
    s = Session(seed, w)
    try:
        if not s.start([], "api"):
            return {"world": w, "seed": seed, "runs": s.result(), "reports": [], "what": what, "n": 0}
        rng = random.Random(f"C17/{seed}/{w}/{what}/{items[0] if items else ''}")
        n = 0
        if what == "sweep":
            for j, (name, how, arg) in enumerate(items):
                b = apply(s.fs[name], how, arg)
                if b == s.fs[name]:
                    continue
                n += 1
                k = s.what[name][0]
                names = ["all"]
                if rng.random() < .25:
                    names = [{"line": "schedules", "stop": "nodes", "person": "persons", "odtrip": "odTrips"}.get(k, k)]
                f = [(name, b, fault(s.what, name, "missing" if b is None else "bad"), f"{how} {arg}")]
                if s.sv is None and not s.start([]):
                    break
                if s.refresh(names, f) and j % 6 == 0 or names != ["all"] and s.sv:
                    s.refresh(["all"], [])
        elif what == "start":
            for name, how, arg in items:
                b = apply(s.fs[name], how, arg)
                if b == s.fs[name]:
                    continue
                n += 1
                f = [(name, b, fault(s.what, name, "missing" if b is None else "bad"), f"{how} {arg}")]
                if s.start(f) and rng.random() < .3:
                    s.refresh(["all"], [])
        elif what == "subsets":
            for mode, names in items:
                # collections (and "lines": all the files of the lines) that are not there
                f = []
                for k in names:
                    for fn in s.fs:
                        if s.what[fn][0] == k:
                            f.append((fn, None, fault(s.what, fn, "missing"), "missing"))
                n += 1
                if mode == "start":
                    if s.start(f) and rng.random() < .5:
                        s.refresh(["all"], [])
                else:
                    if s.sv is None and not s.start([]):
                        break
                    s.refresh(["all"], f)
                    if s.sv and rng.random() < .3:
                        s.refresh(["all"], [])
        elif what == "endure":
            # the same fault again and again, then intact files: what each refresh loses adds up
            for name, how, arg in items:
                b = apply(s.fs[name], how, arg)
                if b == s.fs[name]:
                    continue
                n += 1
                f = [(name, b, fault(s.what, name, "missing" if b is None else "bad"), f"{how} {arg}, many times")]
                if s.sv is None and not s.start([]):
                    break
                if s.refresh(["all"], f, 36):
                    s.refresh(["all"], [])
        else:                                             # histories of the model
            for h in items:
                ok = True
                for j, e in enumerate(h):
                    fs = {}
                    for a in e["dir"]:
                        c = concrete(rng, s.ds, s.fs, s.what, a)
                        if c:
                            fs[c[0]] = c
                    n += len(fs)
                    ok = s.start(list(fs.values())) if j == 0 else s.refresh(e["names"], list(fs.values()))
                    if not ok:
                        break
                if ok and rng.random() < .5:
                    s.refresh(["all"], [])
        s.stop()
        return {"world": w, "seed": seed, "runs": s.result(), "reports": s.reports, "what": what, "n": n}
    finally:
        s.close()


# ---------------------------------------------------------------- model and verdicts
def model(tier):
    _, a = tlc.run("Loader", cfg="LoaderDeep" if tier == "thorough" else "Loader", workers=2)
    o, b = tlc.run("Loader", cfg="LoaderMutants", workers=3)
    caught = set(re.findall(r'<<"M", "(\w+)"', o))
    if caught != MUTANTS:
        raise tlc.TlcError(f"wrong loaders not told apart by the model: {MUTANTS - caught}")
    return a["distinct"] + b["distinct"], a["states"] + b["states"]


def histories(seed, n):
    o, _ = tlc.run("LoaderHist", workers=4, args=("-simulate", f"num={n}", "-depth", "100", "-seed", str(seed)))
    return [json.loads(json.loads(f'"{h}"')) for h in sorted(set(re.findall(r'<<"S", "(.*)">>', o)))]


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        n = 0
        with open(f, "w") as fh:
            for j, r in enumerate(runs):
                ev = [{k: (v if k != "as" else [{x: y for x, y in a.items() if x != "note"} for a in v]) for k, v in e.items() if k not in ("notes", "crash")}
                      for e in r["ev"]]
                fh.write(json.dumps({"id": j + 1, "nlines": r["nlines"], "tl": r["tl"], "ev": ev}) + "\n")
                n += len(ev) + 1
        out, st = tlc.run("LoaderTrace", env={"TRACE": f}, workers=1, heap="2g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != n:
        raise tlc.TlcError(f"trace not consumed: {st} {n}\n" + out[-3000:])
    return [(int(a) - 1, int(b) - 1, set(re.findall(r'"([^"]*)"', c))) for a, b, c in re.findall(r'<<"F", (\d+), (\d+), \{([^}]*)\}>>', out)], st


def _init(bins):
    C._init(bins["plain"])
    C._W["bins"] = bins


def run(ctx):
    z = SIZE[ctx.tier]
    bins = {v: build.build(v) for v in ("plain", "api")}
    res = {}

    def bg():
        try:
            res["model"] = model(ctx.tier)
        except Exception as e:
            res["err"] = e
    th = threading.Thread(target=bg)
    th.start()
    hs = []

    def bh():
        try:
            hs.extend(histories(ctx.seed, z["hist"]))
        except Exception as e:
            res["err"] = e
    th2 = threading.Thread(target=bh)
    th2.start()
    rng = random.Random(f"C17/{ctx.seed}")
    tasks = []
    space = 0
    for w in range(z["worlds"]):
        r = random.Random(f"C17/{ctx.seed}/{w}")
        ds, _ = world(r)
        fs, what = directory(ds, r)
        allf = list(sweep(fs, what))
        space += len(allf)
        # files of all sorts alike
        by = {}
        for x in allf:
            by.setdefault(what[x[0]][0], []).append(x)
        for l in by.values():
            rng.shuffle(l)
        want = z["sweep"] // z["worlds"]
        some = []
        if want >= len(allf):
            some = allf
            rng.shuffle(some)
        else:
            weight = {"line": 3, "paths": 2, "stop": 2}
            tot = sum(weight.get(k, 1) for k in by)
            for k, l in by.items():
                some += l[:want * weight.get(k, 1) // tot + 1]
            rng.shuffle(some)
        for j in range(0, len(some), 100):
            tasks.append((ctx.seed, w, "sweep", some[j:j + 100]))
        st = [l[i % len(l)] for k, l in by.items() for i in range(-1, -1 - min(len(l), z["starts"] // z["worlds"] // len(by)), -1)]
        rng.shuffle(st)
        for j in range(0, len(st), 15):
            tasks.append((ctx.seed, w, "start", st[j:j + 15]))
        # some faults of a file of each kind, of which one ends in the middle
        some = []
        for k, l in sorted(by.items()):
            fn = rng.choice(sorted(x for x in fs if what[x][0] == k))
            some.append((fn, "cut", (len(fs[fn]) * 2 // 3,)))
            some += [x for x in l if x[1] == "mflip"][:0 if ctx.quick and w else 1 if ctx.quick else 8]
        for j in range(0, len(some), 4):
            tasks.append((ctx.seed, w, "endure", some[j:j + 4]))
        sub = []
        keys = COLLECTIONS + ("line",)
        for m in range(1, 1 << len(keys)):
            names = [k for i, k in enumerate(keys) if m >> i & 1]
            sub.append(("start" if len(names) == 1 or rng.random() < .25 else "refresh", names))
        rng.shuffle(sub)
        sub.sort(key=lambda x: len(x[1]) > 1)
        sub = sub[:z["subsets"] // z["worlds"]]
        for j in range(0, len(sub), 18):
            tasks.append((ctx.seed, w, "subsets", sub[j:j + 18]))
    th2.join()
    hs = hs[:z["hist"] * 2]
    for j in range(0, len(hs), 6):
        tasks.append((ctx.seed, j // 6 % z["worlds"], "histories", hs[j:j + 6]))
    rng.shuffle(tasks)
    tasks.sort(key=lambda t: t[2] != "endure")
    if ctx.tier == "thorough":
        tasks.sort(key=lambda t: t[2] == "sweep")         # the sweep takes what time is left
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "byte_faults_of_the_networks": space,
           "faults_tried": {}, "histories_of_the_model": len(hs), "answers": {}, "error_codes": {}, "model_mutants_told_apart": len(MUTANTS), "samples": [],
           "rule": "byte faults (every truncation, every single-bit flip packed and unpacked, zeroed ranges) of every file of small networks, sampled; missing "
                   "subsets of collections; inconsistencies and histories of start and refreshes from the model; after each load every trip is asked for. "
                   "non-trivial: answers after a fault"}
    pend = []
    jobs = []
    jp = concurrent.futures.ThreadPoolExecutor(4)

    def flush():
        if pend:
            jobs.append((list(pend), jp.submit(judge, [x[1] for x in pend])))
            pend.clear()

    def collect(wait):
        for j in list(jobs):
            if not wait and not j[1].done():
                continue
            jobs.remove(j)
            bad, st = j[1].result()
            cov["states"] += st["distinct"]
            cov["transitions"] += st["states"]
            for i, pos, cl in bad:
                r, run_ = j[0][i]
                e = run_["ev"][pos]
                prev = run_["ev"][max(0, pos - 4):pos]
                first = next((a for a in e["as"] if not a["ok"]), None)
                note = e.get("crash") or (first or {}).get("note") or " ".join(sorted({f"{a['t']}:{a['kind']}:{a['code']}:{a['vis']}" for a in e["as"]}))
                how = "start" if e["start"] else f"refresh of {','.join(e['names'])}"
                if len(ctx.violations) < 14:
                    ctx.violate(f"{', '.join(sorted(cl))}: {how} with {e['notes']}"[:500] + f" -> {note}"[:900],
                                {"seed": r["seed"], "world": r["world"], "event": e, "before": prev, "history": [(x["start"], x["names"], x["notes"]) for x in run_["ev"][:pos + 1]][-60:]})

    with multiprocessing.get_context("fork").Pool(C.NPROC, _init, (bins,)) as pool:
        for r in pool.imap_unordered(_task, tasks):
            for x in dict.fromkeys(r["reports"]):
                if len(ctx.violations) < 14:
                    ctx.violate(f"C17.memory: {x}", {"seed": r["seed"], "world": r["world"], "report": x,
                                                     "history": [(e["start"], e["names"], e["notes"]) for y in r["runs"] for e in y["ev"]][-120:]})
            cov["faults_tried"][r["what"]] = cov["faults_tried"].get(r["what"], 0) + r["n"]
            for x in r["runs"]:
                pend.append((r, x))
                cov["traces_validated_against_impl"] += 1
                for e in x["ev"]:
                    for a in e["as"]:
                        cov["evaluations"] += 1
                        cov["distinct_nontrivial"] += bool(e["dir"])
                        cov["answers"][a["kind"]] = cov["answers"].get(a["kind"], 0) + 1
                        if a["code"]:
                            cov["error_codes"][a["code"]] = cov["error_codes"].get(a["code"], 0) + 1
                    if len(cov["samples"]) < 4 and e["dir"] and len(e["dir"]) > 1:
                        cov["samples"].append({k: e[k] for k in ("start", "names", "notes", "as")})
            if sum(len(x[1]["ev"]) for x in pend) > 900:
                flush()
                collect(False)
            if time.time() > ctx.deadline or len(ctx.violations) > 10:
                break
        pool.terminate()
    flush()
    collect(True)
    th.join()
    if "err" in res:
        raise res["err"]
    cov["states"] += res["model"][0]
    cov["transitions"] += res["model"][1]
    return "model_checking", cov, ["what a corrupted (not missing) file still yields is open: any part of its kind and of the kinds loaded after it may be served "
                                   "or be named as missing; files of lines not touched by a fault must be served",
                                   "the memory a server may take is not limited"]

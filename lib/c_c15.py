"""C15: histories of requests and cache refreshes (from module Refresh), every answer compared with a fresh server's."""
import copy
import itertools
import json
import multiprocessing
import os
import random
import re
import shutil
import time

import build
import campaign as C
import c_c14
import dataset as D
import gen
import history as H
import server as S
import tlc

NS = NV = 3
MUTANTS = {"keep", "keepall", "keepone", "onlyscen", "noscen", "append", "order", "status"}
SIZE = {"quick": (400, 5), "thorough": (9000, 6)}     # histories, concrete requests per scenario
NAMES = {"each": "data_sources,persons,od_trips,agencies,services,nodes,lines,paths,scenarios,schedules"}


def histories(seed, n):
    _, a = tlc.run("Refresh")
    o, b = tlc.run("Refresh", cfg="RefreshMutants")
    caught = set(re.findall(r'<<"M", "(\w+)"', o))
    if caught != MUTANTS:
        raise tlc.TlcError(f"wrong refresh variants not told apart by the model: {MUTANTS - caught}")
    o, _ = tlc.run("Refresh", cfg="RefreshHist", workers=1, args=("-simulate", f"num={n}", "-depth", "20", "-seed", str(seed)))
    out = {}
    for m, h in re.findall(r'<<"S", "(\w+)", "(.*)">>', o):
        ev = json.loads(h.replace('\\"', '"').replace("<<", "[").replace(">>", "]"))
        out[json.dumps([m, ev[:-1]])] = (m, ev)          # one of the possible last steps
    return list(out.values()), a["distinct"] + b["distinct"], a["states"] + b["states"]


class World:
    """three versions of base, scenarios and schedules and their combinations"""

    def __init__(self, rng):
        self.rng = rng
        self.scen = [D.mkuuid(rng) for _ in range(NS)]
        self.bases = []
        pool = {k: [D.mkuuid(rng) for _ in range(24)] for k in ("nodes", "agencies", "services", "lines", "paths")}
        share = rng.choice((0, .5, 1, 1))                 # identifiers the versions have in common
        places = None
        for b in range(NV):
            ds = gen.dataset(rng, special=rng.choice((0, .1)), nodes=rng.randint(4, 6), hours=self.hours(b))
            for k, us in pool.items():
                for i, o in enumerate(ds[k]):
                    if rng.random() < share:
                        o["uuid"] = us[i]
            for i, n in enumerate(ds["nodes"]):
                n["lat"] = D.BASE_LAT + 100 * (b + 1) + i // 4
                n["name"] = f"Node {b}-{i}"
            for i, l in enumerate(ds["lines"]):
                l["long"] = f"Line {b}-{i}"
            for i, a in enumerate(ds["agencies"]):
                a["name"] = f"Agency {b}-{i}"
            if places is None:
                places = ds["places"]
            else:
                ds["places"] = copy.deepcopy(places)
            if rng.random() < .6:
                du, pu = D.mkuuid(rng), D.mkuuid(rng)
                ds["dataSources"] = [{"uuid": du, "persons": [{"uuid": pu}], "odTrips": [
                    {"uuid": D.mkuuid(rng), "person": 0, "onodes": [0, 1], "dnodes": [1, 2]}]}]
            self.bases.append(ds)
        self.cache = {}

    def hours(self, b):
        if not hasattr(self, "h"):
            self.h = self.rng.choice((0, 5, 8, 23))
        return self.h

    def ds(self, b, c, d):
        if (b, c, d) in self.cache:
            return self.cache[b, c, d]
        ds = copy.deepcopy(self.bases[b - 1])
        r = random.Random(f"{self.scen[0]}/{b}/{c}")
        sub = lambda k: [x for x in range(len(ds[k])) if r.random() < .5]
        ds["scenarios"] = []
        for i, u in enumerate(self.scen):
            if c == 2 and i == NS - 1:
                continue
            s = {"uuid": u, "name": f"S{i} v{c}", "services": list(range(len(ds["services"]))) if r.random() < .6 else (sub("services") or [0])}
            if i or c > 1:
                x = r.random()
                if x < .5:
                    s["exceptLines"] = sub("lines")
                elif x < .7:
                    s["onlyLines"] = sub("lines")
                elif x < .8:
                    s["exceptAgencies"] = sub("agencies")[:len(ds["agencies"]) - 1]
            ds["scenarios"].append(s)
        r = random.Random(f"{self.scen[1]}/{b}/{d}")
        if d == NV:
            ds["trips"] = []
        elif d > 1:
            out = []
            for t in ds["trips"]:
                if r.random() < .8:
                    off = ds["g"] * r.randint(-6, 6)
                    off = max(off, -t["arr"][0], -t["dep"][0])
                    n = dict(t, arr=[x + off for x in t["arr"]], dep=[x + off for x in t["dep"]])
                    if r.random() < .5:
                        n["uuid"] = D.mkuuid(r)
                    out.append(n)
            ds["trips"] = out or ds["trips"]
        self.cache[b, c, d] = D.finish(ds, r)
        return ds


class UnionRouter:
    """the walking table of all base versions at once (their stops have different coordinates)"""

    def install(self, router, w):
        ds = copy.deepcopy(w.bases[0])
        for b in w.bases[1:]:
            ds["nodes"] = ds["nodes"] + b["nodes"]
            ds["walk"] = [x + y for x, y in zip(ds["walk"], b["walk"])]
        router.set_dataset(ds)


def put(d, ds, how="anew", when=None):
    """the files of a dataset, and no others: removed and made anew, written over or moved over the old ones, of any age"""
    fs = D.files(ds)
    for top, _, names in os.walk(d, topdown=False):
        for x in names:
            p = os.path.join(top, x)
            if x.endswith(".capnpbin") and (how == "anew" or os.path.relpath(p, d)[:-len(".capnpbin")] not in fs):
                os.unlink(p)
        if top != d and not os.listdir(top):
            os.rmdir(top)
    if how == "move":
        t = d + ".new"
        D.write(ds, t, fs)
        for name in fs:
            os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
            os.rename(os.path.join(t, name + ".capnpbin"), os.path.join(d, name + ".capnpbin"))
        shutil.rmtree(t)
    else:
        D.write(ds, d, fs)
    if when is not None:
        for name in fs:
            os.utime(os.path.join(d, name + ".capnpbin"), (when, when))


def target(w, b, q, s):
    """a request under scenario number s (1-based), whatever the current version says of it"""
    ds = dict(w.ds(b, 1, 1))
    return H.target(ds, dict(q, s=s - 1))


def _task(a):
    seed, i, hist, nreq = a
    rng = random.Random(f"C15/{seed}/{i}")
    w = World(rng)
    router = C._W["router"]
    UnionRouter().install(router, w)
    d = S.scratch()
    fd = S.scratch()
    log = os.path.join(d, "server.log")
    out = []
    cur = None
    try:
        first = [(1, 1, 1), (1, 1, NV)]
        combos = {x for x in first} | {tuple(e[1:]) for _, ev in hist for e in ev if e[0] == "W"}
        ready = [c for c in combos if c[2] != NV]
        cand = []
        for _ in range(16):
            b = rng.choice(sorted(ready))
            x = rng.random()
            cand.append(gen.query(rng, w.ds(*b), ep="access" if x < .3 else "summary" if x < .45 else "route",
                                  alt=x > .85, p=gen.params(rng, w.ds(*b), tight=.15, cap=rng.random() < .3)))
        fresh = {}
        for c in sorted(combos):
            put(fd, w.ds(*c))
            with S.Server(C._W["bin"], fd, router, all_sets=rng.random() < .5) as sv:
                for s in range(1, NS + 1):
                    for j, q in enumerate(cand):
                        st, h, b = sv.get_raw(target(w, 1, q, s))
                        fresh[c, s, j] = H.canon(st, b)
        # the requests whose answers tell most versions apart
        score = {j: sum(len({H.result_part(fresh[c, s, j]) for c in combos}) for s in range(1, NS + 1)) for j in range(len(cand))}
        best = sorted(score, key=lambda j: (-score[j], j))[:nreq]
        for m, ev in hist:
            # the first version of the schedules: the one the printed history continues
            f = start_version(ev)
            # how the files come and how old they are said to be: of now, of one moment, or older each time
            hows, age = rng.choice((("anew",), ("over",), ("move",), ("anew", "over", "move"))), rng.choice((None, 1.6e9, -1.6e9))
            whens = itertools.count(1600000000, 0 if age == 1.6e9 else -86400) if age else itertools.repeat(None)
            put(d, w.ds(1, 1, f), rng.choice(hows), next(whens))
            run = {"mode": m, "sched": f, "events": [], "alive": True, "targets": {}}
            with S.Server(C._W["asan"], d, router, all_sets=m == "all", threads=1, memory=None, log=log,
                          env={"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=64"}) as sv:
                try:
                    for e in ev:
                        if e[0] == "W":
                            put(d, w.ds(*e[1:]), rng.choice(hows), next(whens))
                            run["events"].append(e)
                        elif e[0] == "R":
                            cur = "/updateCache?names=" + NAMES.get(e[1], e[1])
                            # one refresh in a while comes many times: what each of them loses adds up
                            for _ in range(rng.choice((25, 40, 256)) if rng.random() < .05 else 1):
                                sv.get_raw(cur)
                                run["events"].append(e)
                        else:
                            for j in rng.sample(best, min(2, len(best))):
                                cur = target(w, 1, cand[j], e[1])
                                st, h, b = sv.get_raw(cur)
                                run["events"].append(["Q", e[1], best.index(j) + 1, H.canon(st, b)])
                except S.Crash as x:
                    run["alive"] = False
                    run["crash"] = str(x)
                run["alive"] = run["alive"] and sv.alive()
            run["reports"] = c_c14.san_reports(log)
            used = {(1, 1, f)} | {tuple(e[1:]) for e in run["events"] if e[0] == "W"}
            run["fresh"] = {".".join(map(str, [*c, s, k + 1])): fresh[c, s, j] for c in sorted(used) for s in range(1, NS + 1)
                            for k, j in enumerate(best)}
            run["targets"] = {f"{s}.{k + 1}": target(w, 1, cand[j], s) for s in range(1, NS + 1) for k, j in enumerate(best)}
            out.append(run)
        return {f"{b}.{c}.{e}": w.ds(b, c, e) for b, c, e in combos}, out, None
    except S.Crash as x:
        return None, out, f"{x} at {cur}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(fd, ignore_errors=True)


def start_version(ev):
    for e in ev:
        if e[0] == "W":
            return NV if e[3] == 1 else e[3] - 1
    return 1


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        n = 0
        with open(f, "w") as fh:
            for j, r in enumerate(runs):
                ids = {}
                num = lambda x: ids.setdefault(x, len(ids) + 1)
                rec = {"id": j + 1, "mode": r["mode"], "sched": r["sched"], "alive": r["alive"],
                       "events": [e[:3] + [num(e[3])] if e[0] == "Q" else e for e in r["events"]],
                       "fresh": {k: num(v) for k, v in r["fresh"].items()}}
                n += len(r["events"]) + 2
                fh.write(json.dumps(rec) + "\n")
        out, st = tlc.run("RefreshTrace", env={"TRACE": f})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != n:
        raise tlc.TlcError(f"trace not consumed: {st} {n}\n" + out[-3000:])
    first = {int(a) - 1: int(b) for a, b in re.findall(r'<<"F", (\d+), (\d+)>>', out)}
    return {k - 1: v for k, v in tlc.verdicts(out).items()}, first, st


def _init(bins):
    C._init(bins["plain"])
    C._W["asan"] = bins["asan"]


def run(ctx):
    n, nreq = SIZE[ctx.tier]
    bins = {v: build.build(v) for v in ("plain", "asan")}
    hist, ms, mt = histories(ctx.seed, n)
    random.Random(ctx.seed).shuffle(hist)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": ms, "transitions": mt, "traces_validated_against_impl": 0,
           "refreshes": 0, "model_mutants_told_apart": len(MUTANTS), "samples": [],
           "rule": "histories of questions, changes of the files and refreshes printed by the model, replayed on the address-sanitizer "
                   "build; non-trivial: histories whose answers change with the data"}
    per = 6
    tasks = [(ctx.seed, j, hist[j:j + per], nreq) for j in range(0, len(hist), per)]
    pend = []

    def flush():
        if not pend:
            return
        bad, first, st = judge([r for _, r in pend])
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        for k, v in sorted(bad.items()):
            dss, r = pend[k]
            pos = first.get(k, len(r["events"]))
            e = r["events"][pos - 1] if r["events"] else None
            ctx.violate(f"{', '.join(sorted(v))}: after a refresh a request is not answered like on a fresh server ({r.get('crash', e)})",
                        {"datasets": dss, "mode": r["mode"], "first_sched": r["sched"], "events": r["events"][:pos], "targets": r["targets"],
                         "fresh": r["fresh"], "crash": r.get("crash"), "reports": r["reports"]})
        pend.clear()

    with multiprocessing.get_context("fork").Pool(C.NPROC, _init, (bins,)) as pool:
        for dss, runs, err in pool.imap_unordered(_task, tasks):
            if err:
                ctx.violate(f"C15.alive: {err}", {"error": err})
            for r in runs:
                for x in dict.fromkeys(r["reports"]):
                    ctx.violate(f"C15.memory: {x}", {"datasets": dss, "events": r["events"], "targets": r["targets"], "report": x,
                                                     "mode": r["mode"]})
                pend.append((dss, r))
                cov["traces_validated_against_impl"] += 1
                cov["refreshes"] += sum(e[0] == "R" for e in r["events"])
                qs = [e for e in r["events"] if e[0] == "Q"]
                cov["evaluations"] += len(qs)
                seen = {}
                for e in qs:
                    seen.setdefault((e[1], e[2]), set()).add(H.result_part(e[3]))
                cov["distinct_nontrivial"] += any(len(x) > 1 for x in seen.values())
                if len(cov["samples"]) < 2:
                    cov["samples"].append({"mode": r["mode"], "events": [e[:3] if e[0] == "Q" else e for e in r["events"]]})
            if len(pend) > 400:
                flush()
            if time.time() > ctx.deadline or len(ctx.violations) > 6:
                break
        pool.terminate()
    flush()
    return "model_checking", cov, ["no request is in flight during a refresh", "the fresh server is the same binary started on the same files"]

"""Requests in flight while the data is refreshed (module Reload).  C14 and C15 exclude this by their quantifiers, so no check
runs it; `python3 lib/inflight.py [seed [runs [refreshes]]]` does (VERIF_REPO names another tree than /repo): clients that
never stop asking, a refresher that changes the files and asks for a refresh, on the thread-sanitizer build and on threads
that pause around locks.  The recorded runs are judged by ReloadTrace."""
import http.client
import json
import multiprocessing
import os
import random
import re
import shutil
import threading
import time

import build
import c_c14
import campaign as C
import gen
import history as H
import server as S
import tlc

MUTANTS = {"free", "barge", "leave", "early", "again"}
CLIENTS = 6


def model(deep=False):
    """the protocol holds and is live; every wrong one is told, and the one that starves refreshes is not live"""
    _, a = tlc.run("Reload", cfg="ReloadDeep" if deep else "Reload", workers=4)
    o, b = tlc.run("Reload", cfg="ReloadMutants", workers=4)
    caught = set(re.findall(r'<<"M", "(\w+)">>', o))
    if caught != MUTANTS:
        raise tlc.TlcError(f"wrong protocols not told apart by the model: {MUTANTS - caught}")
    o, c = tlc.run("Reload", cfg="ReloadStarve", workers=4, ok_codes=(0, 13))
    if c["rc"] != 13:
        raise tlc.TlcError("a refresh that starves is not told by the model")
    return a["distinct"] + b["distinct"] + c["distinct"], a["states"] + b["states"] + c["states"]


def _task(a):
    import c_c15
    tag, seed, i, nref = a
    rng = random.Random(f"{tag}/inflight/{seed}/{i}")
    w = c_c15.World(rng)
    router = C._W["router"]
    c_c15.UnionRouter().install(router, w)
    d, log = S.scratch(), None
    slow = i % 2 == 0
    run = {"events": [], "alive": True, "clients": CLIENTS, "refreshes": nref, "targets": []}
    try:
        combos = [(1, 1, 1)]
        while len(combos) < 4:
            c = (rng.choice((1, 1, 2, 3)), rng.choice((1, 2, 3)), rng.choice((1, 2, 2, 1, 3)))
            if c not in combos:
                combos.append(c)
        cand = []
        for _ in range(14):
            b = w.ds(*rng.choice([c for c in combos if c[2] != c_c15.NV]))
            x = rng.random()
            cand.append(gen.query(rng, b, ep="access" if x < .25 else "summary" if x < .35 else "route", alt=x > .9,
                                  p=gen.params(rng, b, tight=.1, cap=rng.random() < .2)))
        ts = [c_c15.target(w, 1, q, s) for q in cand for s in range(1, c_c15.NS + 1)]
        idle = []
        for c in combos:
            c_c15.put(d, w.ds(*c))
            with S.Server(C._W["bin"], d, router, all_sets=True) as sv:
                idle.append([H.canon(*(lambda r: (r[0], r[2]))(sv.get_raw(t))) for t in ts])
        # the requests that tell the versions apart
        best = sorted(range(len(ts)), key=lambda j: (-len({H.result_part(x[j]) for x in idle}), j))[:8]
        ts = [ts[j] for j in best]
        idle = [[x[j] for j in best] for x in idle]
        order = [0]
        while len(order) <= nref:
            order.append(rng.choice([v for v in range(len(combos)) if v != order[-1]]))
        names = []
        for u, v in zip(order, order[1:]):
            same = [x == y for x, y in zip(combos[u], combos[v])]
            names.append(rng.choice(("all", "schedules,scenarios" if same[0] else "all", "schedules" if same[0] and same[1] else "all")))
        c_c15.put(d, w.ds(*combos[0]))
        log = os.path.join(d, "server.log")
        events, stop = run["events"], threading.Event()
        lock = threading.Lock()

        def client(k, port):
            r = random.Random(f"{seed}/{i}/{k}")
            c = http.client.HTTPConnection("127.0.0.1", port, timeout=40)
            while not stop.is_set():
                j = r.randrange(len(ts))
                with lock:
                    events.append(["s", k, j + 1])
                try:
                    c.request("GET", ts[j])
                    x = c.getresponse()
                    got = H.canon(x.status, x.read())
                except (OSError, http.client.HTTPException) as e:
                    got = f"dead {e!r}"
                with lock:
                    events.append(["e", k, got])
                if got.startswith("dead"):
                    return
        with S.Server(C._W["bin"] if slow else C._W["tsan"], d, router, all_sets=rng.random() < .5, threads=8, memory=None, log=log,
                      env={"LD_PRELOAD": C._W["slow"]} if slow else
                      {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:history_size=4"}) as sv:
            th = [threading.Thread(target=client, args=(k, sv.port)) for k in range(1, CLIENTS + 1)]
            [t.start() for t in th]
            try:
                for v, nm in zip(order[1:], names):
                    time.sleep(rng.random() * .03)
                    c_c15.put(d, w.ds(*combos[v]))
                    with lock:
                        events.append(["b"])
                    st, h, b = sv.get_raw("/updateCache?names=" + nm, timeout=40)
                    with lock:
                        events.append(["d"])
                time.sleep(.02)
            except (S.Crash, OSError) as e:
                run["error"] = repr(e)
            stop.set()
            [t.join() for t in th]
            run["alive"] = sv.alive()
        run["fresh"] = [idle[v] for v in order]
        run["targets"], run["names"], run["order"] = ts, names, [list(combos[v]) for v in order]
        run["told"] = sum(len({H.result_part(x[j]) for x in idle}) > 1 for j in range(len(ts)))
        run["slow"] = slow
        run["reports"] = c_c14.san_reports(log)
        return {".".join(map(str, c)): w.ds(*c) for c in combos}, run, None
    except S.Crash as e:
        return None, run, str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        n = 0
        with open(f, "w") as fh:
            for j, r in enumerate(runs):
                ids = {}
                num = lambda x: ids.setdefault(x, len(ids) + 1)
                fh.write(json.dumps({"id": j + 1, "clients": r["clients"], "refreshes": r["refreshes"], "alive": r["alive"],
                                     "fresh": [[num(x) for x in v] for v in r["fresh"]],
                                     "events": [[e[0], e[1], num(e[2])] if e[0] == "e" else e for e in r["events"]]}) + "\n")
                n += len(r["events"]) + 2
        out, st = tlc.run("ReloadTrace", env={"TRACE": f}, workers=4)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != n:
        raise tlc.TlcError(f"trace not consumed: {st} {n}\n" + out[-2000:])
    first = {int(a) - 1: int(b) for a, b in re.findall(r'<<"F", (\d+), (\d+)>>', out)}
    return {k - 1: v for k, v in tlc.verdicts(out).items()}, first, st


def init(bins):
    C._init(bins["plain"])
    C._W["tsan"] = bins["tsan"]
    C._W["slow"] = bins["slow"]


def bins():
    return {**{v: build.build(v) for v in ("plain", "tsan")}, "slow": build.perturb()}


def run(ctx, cov, nruns, nref, deep=False):
    """adds to the violations and to the coverage of the check"""
    prop = ctx.prop
    ms, mt = model(deep)
    b = bins()
    runs = []
    with multiprocessing.get_context("fork").Pool(4, init, (b,)) as pool:
        for dss, r, err in pool.imap_unordered(_task, [(prop, ctx.seed, i, nref) for i in range(nruns)]):
            if err:
                ctx.violate(f"{prop}.alive: {err}", {"datasets": dss, "error": err})
                continue
            for x in dict.fromkeys(r["reports"]):
                ctx.violate(f"{prop}.sanitizer: {x}", {"datasets": dss, "report": x, "targets": r["targets"], "names": r["names"]})
            runs.append((dss, r))
            if time.time() > ctx.deadline or len(ctx.violations) > 6:
                break
        pool.terminate()
    bad, first, st = judge([r for _, r in runs]) if runs else ({}, {}, {"distinct": 0, "states": 0})
    for k, v in sorted(bad.items()):
        dss, r = runs[k]
        pos = first.get(k, len(r["events"]))
        what = {"old": "a request that came after a refresh is answered from the data before it", "mixed": "an answer of no version of the data",
                "alive": "the server ended", "unrefreshed": f"a refresh is not answered ({r.get('error')})"}
        ctx.violate(f"{prop}.inflight: requests in flight during refreshes: " + "; ".join(what[x] for x in sorted(v)),
                    {"datasets": dss, "targets": r["targets"], "versions": r["order"], "names": r["names"], "events": r["events"][max(0, pos - 60):pos]})
    cov["states"] += ms + st["distinct"]
    cov["transitions"] += mt + st["states"]
    cov["inflight_runs"] = len(runs)
    cov["inflight_refreshes"] = sum(e[0] == "d" for _, r in runs for e in r["events"])
    cov["inflight_requests"] = sum(e[0] == "e" for _, r in runs for e in r["events"])
    cov["inflight_telling_requests"] = sum(r["told"] for _, r in runs)
    cov["evaluations"] += cov["inflight_requests"]
    cov["traces_validated_against_impl"] += len(runs)


def main(seed=1, nruns=8, nref=20):
    import types
    told = []

    def violate(what, data):
        told.append(what)
        print("TOLD", what[:400])
    ctx = types.SimpleNamespace(prop="inflight", seed=int(seed), deadline=time.time() + 600, violations=told, violate=violate)
    cov = {"states": 0, "transitions": 0, "evaluations": 0, "traces_validated_against_impl": 0}
    run(ctx, cov, int(nruns), int(nref), deep=True)
    print(cov)
    return 1 if told else 0


if __name__ == "__main__":
    import sys
    sys.exit(main(*sys.argv[1:]))

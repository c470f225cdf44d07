"""C13: histories of requests on one server, every answer compared with that of a freshly started server."""
import json
import multiprocessing
import os
import random
import shutil
import time

import build
import campaign as C
import dataset as D
import gen
import history as H
import server as S
import tlc

SIZE = {"quick": (110, 12, 2, 350), "thorough": (1500, 14, 3, 1500)}

SOAK = 1500     # requests of a long history


def requests(rng, ds, sv, n):
    """concrete requests [(target, scenario (0: none))]: pairs of the same query under different scenarios, other endpoints,
    failing and invalid requests"""
    out = []
    for var in H.discriminating(rng, ds, sv, 4):
        for v in var[:3]:
            out.append((H.target(ds, v), v["s"] + 1))
    rng.shuffle(out)
    out = out[:n - 3]
    q = gen.query(rng, ds, ep="route")
    good = H.target(ds, q)
    bad = [good.replace("time_of_trip=", "time_of_trip=x"), good.replace("scenario_id=", "scenario_id=zz"), "/v2/route", "/v2/accessibility?place=1",
           good.replace(ds["scenarios"][q["s"]]["uuid"], "12345678-1234-4123-8123-123456789abc"), "/other", "/v2/summary?origin=1,1"]
    out += [(b, 0) for b in rng.sample(bad, 2)]
    q2 = dict(gen.query(rng, ds, ep="route"), T=115199, fwd=True)                           # no service that late
    out.append((H.target(ds, q2), q2["s"] + 1))
    return out


def histories(rng, n, order, extra):
    seq = H.de_bruijn(n, order)
    if len(seq) > 3000:
        k = rng.randrange(len(seq))
        seq = (seq + seq)[k:k + 3000]
    seq += [rng.randrange(n) for _ in range(extra)]
    # the same request many times in a row, between others
    for _ in range(3):
        seq += [rng.randrange(n)] + [rng.randrange(n)] * 12
    return seq


def wide(rng, ds, sv, n):
    """one query or two under each of very many scenarios"""
    vs = H.discriminating(rng, ds, sv, 3, tries=12, scen=n)
    out = [(H.target(ds, v), v["s"] + 1) for v in vs[0]] + [(H.target(ds, v), v["s"] + 1) for w in vs[1:] for v in rng.sample(w, min(6, len(w)))]
    rng.shuffle(out)
    return out


def wide_history(rng, n):
    """all of them, all of them the other way round or in another order, one between all the others"""
    o = list(range(n))
    seq = o + rng.choice((o, o[::-1])) + rng.sample(o, n)
    for a in rng.sample(o, 4):
        seq += [a] + rng.sample([x for x in o if x != a], rng.randint(2, n - 1)) + [a]
    return seq


def _task(a):
    seed, i, n, order, extra = a
    rng = random.Random(f"C13/{seed}/{i}")
    ds = gen.dataset(rng, special=rng.choice((0, .1)), nodes=rng.randint(4, 7))
    many = i % 12 in (5, 6)
    if rng.random() < .06:
        gen.enlarge(rng, ds)
    if rng.random() < .3:
        gen.decorate(rng, ds)
    H.many_scenarios(rng, ds, rng.choice((20, 40, 70)) if many else rng.choice((3, 5, 9)))
    router = C._W["router"]
    router.set_dataset(ds)
    d = S.scratch()
    runs = []
    try:
        D.write(ds, d)
        with S.Server(C._W["bin"], d, router) as sv:
            reqs = wide(rng, ds, sv, rng.choice((20, 40, 70))) if many else requests(rng, ds, sv, n)
        mode = i % 2 == 1
        # the fresh answer under the other cache setting must be the same, so it serves as the reference
        idle = [H.fresh_answer(C._W["bin"], d, router, not mode, t) for t, _ in reqs]
        seq = wide_history(rng, len(reqs)) if many else histories(rng, len(reqs), order, extra)
        if i % 16 == 3:
            seq += [rng.randrange(len(reqs)) for _ in range(40000 if order > 2 and i % 400 == 3 else SOAK)]
        ev, alive = play(C._W["bin"], d, router, mode, reqs, seq)
        runs.append({"mode": "all" if mode else "one", "reqs": [{"scen": s, "idle": a} for (_, s), a in zip(reqs, idle)], "events": ev,
                     "alive": alive})
        return i, ds, [t for t, _ in reqs], runs, None
    except S.Crash as e:
        return i, ds, [], [], str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def play(binary, d, router, mode, reqs, seq):
    ev = []
    with S.Server(binary, d, router, all_sets=mode) as sv:
        for r in seq:
            try:
                st, h, b = sv.get_raw(reqs[r][0])
                ev.append([r + 1, H.canon(st, b)])
            except S.Crash as e:
                ev.append([r + 1, "dead"])
                return ev, False
        return ev, sv.alive()


def compact(runs):
    """answers as numbers"""
    out = []
    for r in runs:
        ids = {}
        f = lambda a: ids.setdefault(a, len(ids) + 1)
        out.append({"id": len(out) + 1, "mode": r["mode"], "reqs": [{"scen": x["scen"], "idle": f(x["idle"])} for x in r["reqs"]],
                    "events": [[a, f(b)] for a, b in r["events"]], "alive": r["alive"]})
    return out


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        rs = compact(runs)
        with open(f, "w") as fh:
            for r in rs:
                fh.write(json.dumps(r) + "\n")
        out, st = tlc.run("History", env={"TRACE": f})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != sum(len(r["events"]) + 2 for r in rs):
        raise tlc.TlcError("trace not consumed\n" + out[-2000:])
    first = {int(a): int(b) for a, b in __import__("re").findall(r'<<"F", (\d+), (\d+)>>', out)}
    return [(k - 1, v, first.get(k)) for k, v in sorted(tlc.verdicts(out).items())], st


def run(ctx):
    nds, n, order, extra = SIZE[ctx.tier]
    binary = build.build("plain")
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "windows": 0,
           "rule": "every ordered pair (thorough: triple) of the requests of a dataset, then random ones, on one server; reference: the "
                   "same request as the first one of a fresh server with the other cache setting; non-trivial: requests answered with success", "samples": []}
    meta, runs = [], []

    def flush():
        if not runs:
            return
        bad, st = judge(runs)
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        for k, v, pos in bad:
            ds, targets, mode = meta[k]
            r = runs[k]
            pos = pos or len(r["events"])
            # again: the history up to the first wrong answer, on a fresh server
            C._init_local()
            router = C._W["router"]
            router.set_dataset(ds)
            d = S.scratch()
            try:
                D.write(ds, d)
                seq = [e[0] - 1 for e in r["events"][:pos]]
                ev, alive = play(binary, d, router, mode, [(t, 0) for t in targets], seq)
                want = r["reqs"][seq[-1]]["idle"]
                # a fresh server under the same setting, to tell what the two settings disagree on from what history changes
                try:
                    fresh = H.fresh_answer(binary, d, router, mode, targets[seq[-1]])
                except S.Crash as e:
                    fresh = "dead"
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if alive and ev[-1][1] == want:
                ctx.notes.append(f"did not repeat: {v}")
                continue
            ctx.violate(f"{', '.join(sorted(v))}: request {pos} of a history ({targets[seq[-1]]}) is not answered like on a fresh server",
                        {"dataset": ds, "cache_all": mode, "history": [targets[x] for x in seq], "expected": want, "got": ev[-1][1],
                         "fresh_server_same_setting": fresh})
        meta.clear()
        runs.clear()

    with multiprocessing.get_context("fork").Pool(C.NPROC, C._init, (binary,)) as pool:
        for i, ds, targets, rs, err in pool.imap_unordered(_task, [(ctx.seed, i, n, order, extra) for i in range(nds)]):
            if err:
                ctx.violate(f"C13.alive: {err}", {"dataset": ds, "error": err})
                continue
            for r in rs:
                runs.append(r)
                meta.append((ds, targets, r["mode"] == "all"))
                cov["evaluations"] += len(r["events"])
                cov["traces_validated_against_impl"] += 1
                cov["windows"] += len({tuple(e[0] for e in r["events"][j:j + order]) for j in range(len(r["events"]) - order + 1)})
                cov["distinct_nontrivial"] += sum('"status": "success"' in x["idle"] for x in r["reqs"])
                if len(cov["samples"]) < 2:
                    cov["samples"].append({"mode": r["mode"], "requests": targets, "history": [e[0] for e in r["events"][:60]]})
            if len(runs) >= 60:
                flush()
            if time.time() > ctx.deadline or len(ctx.violations) > 5:
                break
        flush()
    return "model_checking", cov, ["the reference answer is that of the same binary, freshly started",
                                   "answers are compared as JSON values; the order of the stops of a map and of the lines of a summary is free"]

"""Answer campaigns: generated dataset -> real server -> recorded answers -> module Answers."""
import concurrent.futures
import json
import multiprocessing
import os
import random
import re
import shutil
import time

import build
import dataset as D
import gen
import record as R
import server as S
import tlc

NPROC = min(8, os.cpu_count() or 4)


# ---------------------------------------------------------------- profiles
# name -> function(rng, i) -> (dataset, [queries])

def _q(rng, ds, n, **kw):
    return [gen.query(rng, ds, **{k: (v(rng) if callable(v) else v) for k, v in kw.items()}) for _ in range(n)]


def _cleanup(rng, n, **kw):
    ds = gen.cleanup_dataset(rng, special=rng.choice((0, .1, .3)), forbid=rng.choice((0, .1, .25)), positive=rng.random() < .8)
    return ds, [gen.cleanup_query(rng, ds, **{k: v(rng) for k, v in kw.items()}) for _ in range(n)]


def prof_c01(rng, n):
    if rng.random() < .5:
        return _cleanup(rng, n, alt=lambda r: r.random() < .15)
    ds = gen.dataset(rng, revisit=rng.choice((.1, .5, .9)), special=rng.choice((0, .1, .3)),
                     forbid=rng.choice((0, .1, .3)), positive=rng.random() < .7)
    return ds, _q(rng, ds, n, alt=lambda r: r.random() < .25)


def prof_c02(rng, n):
    ds = gen.dataset(rng, positive=rng.random() < .7)
    qs = []
    for _ in range(n):
        q = gen.query(rng, ds, alt=rng.random() < .2, p=gen.params(rng, ds, tight=.75, cap=rng.random() < .6))
        q["s"] = rng.randrange(len(ds["scenarios"]))
        qs.append(q)
    return ds, qs


def prof_c03(rng, n):
    ds = gen.dataset(rng)
    return ds, _q(rng, ds, n, fwd=True, cap=False)


def prof_c04(rng, n):
    ds = gen.dataset(rng, special=0)
    return ds, _q(rng, ds, n, fwd=False)


def prof_c05(rng, n):
    ds = gen.dataset(rng, special=0)
    return ds, _q(rng, ds, n, fwd=True, cap=False)


def prof_c06(rng, n):
    if rng.random() < .5:
        return _cleanup(rng, n, alt=lambda r: r.random() < .15)
    ds = gen.dataset(rng, revisit=rng.choice((.1, .5, .9)), special=rng.choice((0, 0, .1, .3)), positive=rng.random() < .7,
                     nodes=rng.randint(4, 8))
    return ds, _q(rng, ds, n, alt=lambda r: r.random() < .25)


def prof_c07(rng, n):
    ds = gen.dataset(rng, forbid=rng.choice((.1, .3, .6)), special=rng.choice((0, .15)), positive=rng.random() < .7)
    qs = []
    for _ in range(n):
        x = rng.random()
        q = gen.query(rng, ds, ep="access" if x < .3 else "route", alt=x > .85,
                      p=gen.params(rng, ds, tight=.6, cap=rng.random() < .4))
        if rng.random() < .5:
            # near the edge of the timetable: few departures left, or few arrivals yet
            ev = sorted(x for t in ds["trips"] for x in (t["dep"][:-1] if q["fwd"] else t["arr"][1:]))
            if ev:
                k = ev[-rng.randint(1, min(4, len(ev)))] if q["fwd"] else ev[rng.randrange(min(4, len(ev)))]
                q["T"] = min(max(k + ds["g"] * rng.randint(-8, 1) if q["fwd"] else k + ds["g"] * rng.randint(-1, 8), 0), 115199)
        qs.append(q)
    return ds, qs


def prof_c08(rng, n):
    ds = gen.dataset(rng)
    return ds, _q(rng, ds, n, ep="access", fwd=True, cap=False)


def prof_c09(rng, n):
    ds = gen.dataset(rng, special=0)
    return ds, _q(rng, ds, n, ep="access", fwd=False)


def prof_c10(rng, n):
    ds = gen.dataset(rng, special=rng.choice((0, 0, .1)), revisit=rng.choice((.1, .5)))
    return ds, _q(rng, ds, n, alt=True, cap=lambda r: r.random() < .35)


def prof_c16(rng, n):
    ds = gen.dataset(rng, revisit=.4)
    # distinct identifying data everywhere, so that any mix-up shows
    for i, l in enumerate(ds["lines"]):
        l["mode"] = rng.choice(R.MODES) if rng.random() < .6 else l["mode"]
    qs = []
    for _ in range(n):
        x = rng.random()
        qs.append(gen.query(rng, ds, ep="access" if x < .35 else "route", alt=x > .85, cap=rng.random() < .2))
    return ds, qs


def prof_c19(rng, n):
    ds = gen.dataset(rng, special=rng.choice((0, .1)))
    qs = _q(rng, ds, n, ep="summary", alt=lambda r: r.random() < .6)
    return ds, qs


PROFILES = {k[5:].upper(): v for k, v in globals().items() if k.startswith("prof_")}

# clauses each check answers for
CLAUSES = {"C10": ("C10.",), "C16": ("C16.", "C01.", "C03.", "C04.", "C05.", "C07.", "C08.", "C09.")}


# ---------------------------------------------------------------- execution

_W = {}
BIG = .06
CHAIN = .03
BULKY = 3


def _init(binary):
    _W["bin"] = binary
    _W["router"] = S.Router()


def _get(sv, path, pa):
    _, a = sv.get(path, pa)
    if not isinstance(a, dict):
        raise ValueError(f"not an object: {str(a)[:200]}")
    return a


def ask(sv, ds, ix, di, q, cid):
    path, pa = R.request(ds, q)
    try:
        a = _get(sv, path, pa)
        if q["ep"] == "access":
            c = R.case_access(cid, di, ds, ix, q, a)
        elif q["ep"] == "summary":
            c = R.case_summary(cid, di, ds, ix, q, a, _get(sv, "/v2/route", pa))
        else:
            plain = _get(sv, path, [x for x in pa if x[0] != "alternatives"]) if q.get("alt") else None
            c = R.case_route(cid, di, ds, ix, q, a, plain)
        R.check_types(c)
        return c
    except (KeyError, TypeError, ValueError, IndexError) as e:
        return {"id": cid, "noanswer": "malformed answer: " + repr(e)}


def execute(ds, qs, di=0, base=0, all_sets=False, binary=None, router=None, fresh=False):
    """recorded cases for the queries, each query answered by the same server (fresh: by a server of its own)"""
    router = router or _W["router"]
    router.set_dataset(ds)
    ix = R.Index(ds)
    d = S.scratch()
    out = []
    sv = None
    try:
        D.write(ds, d)
        for k, q in enumerate(qs):
            try:
                if sv is None or fresh:
                    if sv:
                        sv.kill()
                        sv = None
                    sv = S.Server(binary or _W["bin"], d, router, all_sets=all_sets, euclid=ds.get("euclid", False))
                out.append(ask(sv, ds, ix, di, q, base + k))
            except S.Crash as e:
                out.append({"id": base + k, "noanswer": str(e)})
                if sv:
                    sv.kill()
                    sv = None
    finally:
        if sv:
            sv.kill()
        shutil.rmtree(d, ignore_errors=True)
    return out


def _task(a):
    if len(a) == 3:                     # a given dataset with given questions
        i, ds, qs = a
        rng = random.Random(i)
        if rng.random() < .5 and all((q["p"].get(k) or 2) >= 2 for q in qs for k in ("ma", "me")):
            gen.spread(rng, ds)
        if rng.random() < .25:
            gen.decorate(rng, ds)
        return i, ds, qs, execute(ds, qs, 0, 0, all_sets=bool(i % 2))
    prof, seed, i, n = a
    rng = random.Random(f"{prof}/{seed}/{i}")
    ds, qs = gen.fit(rng, *PROFILES[prof](rng, n))
    x = rng.random()
    if rng.random() < CHAIN:
        gen.chain(rng, ds, qs)
    if rng.random() < BIG:
        gen.enlarge(rng, ds)
        qs = qs[:10]
    elif x < .07 and gen.euclid(rng, ds, qs):
        pass
    elif x < .6:
        gen.spread(rng, ds)
    if rng.random() < .25:
        gen.decorate(rng, ds)
    if prof == "C16" and i == BULKY:    # files larger than what the reader's default limit allows
        ds["bulk"] = 68 << 20
    return i, ds, qs, execute(ds, qs, 0, 0, all_sets=bool(i % 2))


def judge(batch, workers=8, timeout=800, depth=0):
    """batch: list of (ds, cases).  Returns ([(batch index, case index, clauses)], stats)"""
    dss, cases, where = [], [], []
    for bi, (ds, cs) in enumerate(batch):
        dss.append(R.spec_dataset(ds))
        for ci, c in enumerate(cs):
            if "noanswer" in c:
                continue
            c = dict(c)
            c["ds"] = len(dss)
            c["id"] = len(cases) + 1
            cases.append(c)
            where.append((bi, ci))
    if not cases:
        return [], {"states": 0, "distinct": 0}
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        with open(f, "w") as fh:
            fh.write(json.dumps(dss) + "\n" + json.dumps(cases) + "\n")
        out, st = tlc.run("Answers", env={"TRACE": f}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    want = sum(R.expected_states(c) for c in cases)
    if st["distinct"] != want:
        raise tlc.TlcError(f"trace not consumed: {st['distinct']} states instead of {want}\n{out[-3000:]}")
    return [where[k - 1] + (v,) for k, v in sorted(tlc.verdicts(out).items())], st


def relevant(prop, clauses):
    pre = CLAUSES.get(prop, (prop + ".",))
    return {c for c in clauses if c.startswith(pre) or c == "unjudged"}


def run(prop, seed, nds, nq, deadline, chunk=250, given=()):
    """Executes the given (dataset, queries) and nds random datasets x nq queries and judges them.  Returns (suspects, coverage)."""
    binary = build.build("plain")
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0,
           "traces_validated_against_impl": 0, "datasets": 0, "outcomes": {}, "itinerary_steps": 0, "clauses_broken": {}}
    suspects, samples = [], []
    seen = set()

    def absorb(batch, fut):
        bad, st = fut.result()
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        for bi, ci, cl in bad:
            for x in cl:
                cov["clauses_broken"][x] = cov["clauses_broken"].get(x, 0) + 1
            r = relevant(prop, cl)
            if r:
                i, ds, qs, cs = batch[bi]
                suspects.append({"prop": prop, "ds": ds, "q": qs[ci], "clauses": sorted(r), "answer": cs[ci], "all_sets": bool(i % 2),
                                 "history": qs[:ci]})

    ex = concurrent.futures.ThreadPoolExecutor(2)
    pend = []
    with multiprocessing.get_context("fork").Pool(NPROC, _init, (binary,)) as pool:
        batch = []

        def submit():
            b = list(batch)
            batch.clear()
            pend.append((b, ex.submit(judge, [(x[1], x[3]) for x in b], 4)))

        for res in pool.imap_unordered(_task, [(nds + k, ds, qs) for k, (ds, qs) in enumerate(given)]
                                       + [(prop, seed, i, nq) for i in range(nds)], chunksize=2):
            i, ds, qs, cs = res
            cov["datasets"] += 1
            for q, c in zip(qs, cs):
                cov["evaluations"] += 1
                if "noanswer" in c:
                    suspects.append({"prop": prop, "ds": ds, "q": q, "clauses": [prop + ".noanswer"], "answer": c,
                                     "all_sets": bool(i % 2), "history": qs[:c["id"]]})
                    continue
                cov["traces_validated_against_impl"] += 1
                cov["itinerary_steps"] += sum(len(r["steps"]) for r in c.get("routes", []))
                o = f"{q['ep']}{'+alt' if q.get('alt') else ''}/{'dep' if q['fwd'] else 'arr'}/{c['status']}/{c.get('reason')}"
                cov["outcomes"][o] = cov["outcomes"].get(o, 0) + 1
                nontriv = not str(c.get("reason", "")).startswith("NO_ACCESS")
                key = hash(json.dumps([ds["trips"][0]["uuid"], q], sort_keys=True))
                if nontriv and key not in seen:
                    seen.add(key)
                    cov["distinct_nontrivial"] += 1
                    if len(samples) < 3 and c["status"] == "success":
                        samples.append({"dataset": R.spec_dataset(ds), "request": q, "recorded": c})
            batch.append(res)
            if len(batch) >= chunk:
                submit()
                while len(pend) > 3:
                    b, f = pend.pop(0)
                    absorb(b, f)
            if time.time() > deadline or len(suspects) > 400:
                break
        if batch:
            submit()
        for b, f in pend:
            absorb(b, f)
    cov["samples"] = samples
    return suspects, cov


def confirm(s):
    """Re-executes a suspect on a fresh server (alone, then after the recorded history) and judges it again."""
    _init_local()
    for hist in ([], s.get("history", [])):
        if hist is not None:
            cs = execute(s["ds"], hist + [s["q"]], all_sets=s["all_sets"])
            c = cs[-1]
            if "noanswer" in c:
                if s["clauses"] == [s["prop"] + ".noanswer"]:
                    return c
                continue
            bad, _ = judge([(s["ds"], [c])])
            if bad and set(s["clauses"]) & relevant(s["prop"], bad[0][2]):
                return c
        if not s.get("history"):
            break
    return None


def _init_local():
    if "bin" not in _W:
        _init(build.build("plain"))

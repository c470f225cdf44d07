"""C11 and C12: two executions of the real server on related datasets, related by module Relate."""
import concurrent.futures
import copy
import json
import multiprocessing
import os
import random
import shutil
import time

import build
import campaign as C
import dataset as D
import gen
import record as R
import server as S
import tlc

SIZE = {"C11": {"quick": (600, 14), "thorough": (9000, 16)}, "C12": {"quick": (400, 12), "thorough": (7000, 16)}}
TOP = 32 * 3600


def restrict(ds, s):
    """the copy of the data without the trips scenario s excludes, plus an all-inclusive scenario (the last one)"""
    d = copy.deepcopy(ds)
    d["trips"] = [t for i, t in enumerate(d["trips"]) if D.admits(ds, s, i)]
    d["scenarios"].append({"services": list(range(len(d["services"])))})
    return D.finish(d, random.Random(5))


def queries(rng, ds, n, ep_mix=(.3, .15), alt_ok=True):
    out = []
    for _ in range(n):
        x = rng.random()
        out.append(gen.query(rng, ds, ep="access" if x < ep_mix[0] else "route", alt=alt_ok and x > 1 - ep_mix[1],
                             p=gen.params(rng, ds, tight=rng.choice((.1, .5)), cap=rng.random() < .4)))
    return out


def around(rng, ds):
    x = rng.random()
    if x < .04:
        gen.enlarge(rng, ds)
    elif x < .5:
        gen.spread(rng, ds)
    if rng.random() < .15:
        gen.decorate(rng, ds)
    return ds


def make_c11(rng, n):
    ds = around(rng, gen.dataset(rng, special=rng.choice((0, .15)), positive=rng.random() < .7, gaps=.3))
    out = []
    for s in range(1, min(len(ds["scenarios"]), 4)):
        b = restrict(ds, s)
        if not b["trips"]:
            continue                 # a server without any schedule answers data_error, as documented
        qs = queries(rng, ds, n, alt_ok=False)
        for q in qs:
            q["s"] = s
        out.append((ds, b, {"rel": "restrict", "off": 0, "s": s + 1, "s2": len(b["scenarios"])},
                    [(q, dict(q, s=len(b["scenarios"]) - 1)) for q in qs]))
    return out


def offsets(rng, ds, n):
    ev = [x for t in ds["trips"] for x in t["dep"] + t["arr"]] or [3600]
    lo, hi = -min(ev), TOP - 1 - max(ev)
    out = set()
    while len(out) < n:
        k = rng.random()
        if k < .15:
            o = lo + rng.choice((0, 0, 1, 60))
        elif k < .3:
            o = hi - rng.choice((0, 0, 1, 60, 1200))
        elif k < .5:
            o = -rng.choice(ev) + 3600 * rng.randint(0, 31) + rng.choice((-1, 0, 0, 1))      # an event on an hour boundary
        elif k < .65:
            o = -rng.choice(ev) + 86400 + rng.choice((-60, -1, 0, 1, 60))                     # an event at midnight
        elif k < .8:
            o = 3600 * rng.randint(-31, 31) + rng.choice((0, 0, -1, 1))
        else:
            o = rng.randint(lo, hi) if lo < hi else lo
        if lo <= o <= hi and o:
            out.add(o)
        elif lo >= hi:
            break
    return sorted(out)


def make_c12(rng, n):
    ds = gen.dataset(rng, special=rng.choice((0, .15)), positive=rng.random() < .75, gaps=.4)
    out = []
    exact = [q for q in queries(rng, ds, 4) if gen.align(rng, ds, q) is not None]
    around(rng, ds)
    offs = offsets(rng, ds, 3)
    ev = [x for t in ds["trips"] for x in t["dep"] + t["arr"]] or [0]
    for q in exact[:2]:                                          # a request that just fits moves onto an hour boundary
        o = 3600 * rng.randint((min(ev) + 3599) // 3600, 31) - q["T"] if min(ev) < TOP - 3600 else 0
        if o and 0 <= min(ev) + o and max(ev) + o < TOP:
            offs.append(o)
    for o in offs:
        b = D.shifted(ds, o)
        qs = [copy.deepcopy(q) for q in exact if 0 <= q["T"] + o < TOP]
        for q in queries(rng, ds, 3 * n):
            if rng.random() < .4:                               # the moved request on, just before or after an hour boundary
                q["T"] = (q["T"] + o + 1800) // 3600 * 3600 - o + rng.choice((-1, 0, 0, 1, 59))
            if 0 <= q["T"] < TOP and 0 <= q["T"] + o < TOP:
                qs.append(q)
        qs = qs[:n]
        out.append((ds, b, {"rel": "shift", "off": o, "s": 1, "s2": 1}, [(q, dict(q, T=q["T"] + o)) for q in qs]))
    return out


MAKE = {"C11": make_c11, "C12": make_c12}


def record(ds, qs, all_sets, fresh=False):
    """answers of the server; alternatives are recorded without the single-route comparison (that is C10's)"""
    return C.execute(ds, qs, all_sets=all_sets, fresh=fresh)


def _task(a):
    prop, seed, i, n = a
    rng = random.Random(f"{prop}/{seed}/{i}")
    groups = MAKE[prop](rng, n)
    ds = groups[0][0] if groups else None
    res = []
    if groups:
        allq = [qa for g in groups for qa, _ in g[3]]
        ca = record(ds, allq, bool(i % 2))
        k = 0
        for dsa, dsb, rel, qs in groups:
            cb = record(dsb, [qb for _, qb in qs], bool(i % 3))
            res.append((dsa, dsb, rel, qs, ca[k:k + len(qs)], cb))
            k += len(qs)
    return i, res


def judge(batch, workers=4, timeout=800):
    """batch: list of (dsa, dsb, rel, qs, ca, cb).  Returns ([(batch index, case index, clauses)], stats, skipped)"""
    dss, pairs, cases, where = [], [], [], []
    for bi, (da, db, rel, qs, ca, cb) in enumerate(batch):
        dss += [R.spec_dataset(da), R.spec_dataset(db)]
        pairs.append(dict(rel, id=len(pairs) + 1, a=len(dss) - 1, b=len(dss)))
        for ci, (a, b) in enumerate(zip(ca, cb)):
            if "noanswer" in a or "noanswer" in b:
                continue
            cases.append({"id": 1000000 + len(cases), "pair": len(pairs), "a": a, "b": b})
            where.append((bi, ci))
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        with open(f, "w") as fh:
            fh.write(json.dumps(dss) + "\n" + json.dumps(pairs) + "\n" + json.dumps(cases) + "\n")
        out, st = tlc.run("Relate", env={"TRACE": f}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != 2 * (len(pairs) + len(cases)):
        raise tlc.TlcError("trace not consumed\n" + out[-3000:])
    bad, skipped = [], 0
    for k, v in sorted(tlc.verdicts(out).items()):
        if any(x.startswith("machinery") for x in v):
            raise tlc.TlcError(f"the pair is not related as intended: {k} {v}")
        if v == {"skip"}:
            skipped += 1
        else:
            bad.append(where[k - 1000000] + (v,))
    return bad, st, skipped


def confirm(prop, s):
    C._init_local()
    for fresh in (True, False):
        qs = [s["q"]] if fresh else s["history_a"] + [s["q"]]
        qb = [s["qb"]] if fresh else s["history_b"] + [s["qb"]]
        ca, cb = record(s["ds"], qs, False)[-1:], record(s["dsb"], qb, False)[-1:]
        if "noanswer" in ca[0] or "noanswer" in cb[0]:
            if s["clauses"] == [prop + ".noanswer"]:
                return [ca, cb]
            continue
        bad, _, _ = judge([(s["ds"], s["dsb"], s["rel"], [(s["q"], s["qb"])], ca, cb)])
        if bad:
            return [ca, cb]
    return None


def run(ctx):
    prop = ctx.prop
    nds, nq = SIZE[prop][ctx.tier]
    binary = build.build("plain")
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "pairs_of_datasets": 0, "pairs_out_of_clock": 0, "outcomes": {}, "samples": [],
           "rule": "every request asked on both datasets; non-trivial: at least one of the answers is a success",
           "clauses_broken": {}}
    suspects = []

    def absorb(b, fut):
        bad, st, sk = fut.result()
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        cov["pairs_out_of_clock"] += sk
        for bi, ci, cl in bad:
            da, db, rel, qs, ca, cb = b[bi]
            for x in cl:
                cov["clauses_broken"][x] = cov["clauses_broken"].get(x, 0) + 1
            suspects.append({"ds": da, "dsb": db, "rel": rel, "q": qs[ci][0], "qb": qs[ci][1], "clauses": sorted(cl), "a": ca[ci], "b": cb[ci],
                             "history_a": [x for x, _ in qs[:ci]], "history_b": [x for _, x in qs[:ci]]})

    ex = concurrent.futures.ThreadPoolExecutor(2)
    pend, batch = [], []
    with multiprocessing.get_context("fork").Pool(C.NPROC, C._init, (binary,)) as pool:
        def submit():
            b = list(batch)
            batch.clear()
            pend.append((b, ex.submit(judge, b)))
        for i, res in pool.imap_unordered(_task, [(prop, ctx.seed, i, nq) for i in range(nds)], chunksize=2):
            for g in res:
                da, db, rel, qs, ca, cb = g
                cov["pairs_of_datasets"] += 1
                for j, ((qa, qb), a, b) in enumerate(zip(qs, ca, cb)):
                    cov["evaluations"] += 1
                    if "noanswer" in a or "noanswer" in b:
                        suspects.append({"ds": da, "dsb": db, "rel": rel, "q": qa, "qb": qb, "clauses": [prop + ".noanswer"], "a": a, "b": b,
                                         "history_a": [x for x, _ in qs[:j]], "history_b": [x for _, x in qs[:j]]})
                        continue
                    cov["traces_validated_against_impl"] += 2
                    o = f"{qa['ep']}{'+alt' if qa.get('alt') else ''}/{'dep' if qa['fwd'] else 'arr'}/{a['status']}"
                    cov["outcomes"][o] = cov["outcomes"].get(o, 0) + 1
                    if "success" in (a["status"], b["status"]):
                        cov["distinct_nontrivial"] += 1
                        if len(cov["samples"]) < 2:
                            cov["samples"].append({"first": R.spec_dataset(da), "relation": rel, "request": qa, "answer": a, "related_answer": b})
                batch.append(g)
            if len(batch) >= 200:
                submit()
                while len(pend) > 3:
                    absorb(*pend.pop(0))
            if time.time() > ctx.deadline or len(suspects) > 300:
                break
        if batch:
            submit()
        for b, f in pend:
            absorb(b, f)
    by = {}
    for s in suspects:
        by.setdefault(tuple(s["clauses"]), []).append(s)
    for cl, ss in by.items():
        for s in ss[:3]:
            c = confirm(prop, s)
            if c is None:
                ctx.notes.append(f"{cl} did not repeat")
                continue
            s["recorded_again"] = c
            ctx.violate(f"{', '.join(cl)} broken by {s['q']} under {s['rel']} ({len(ss)} like it)", s)
            break
    return "model_checking", cov, ["datasets are the generated well-formed ones", "the walking router is a table served by a stand-in",
                                   "pairs with a clock value of data, request or answer outside [0, 32 h) are skipped (counted)"]

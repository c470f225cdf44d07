"""Shared by C13, C14, C15, C20: datasets with many scenarios, requests whose answers differ, canonical answers."""
import json
import urllib.parse
import uuid as _uuid

import dataset as D
import gen
import record as R
import server as S


def many_scenarios(rng, ds, n):
    """n scenarios with different exclusions; their identifiers differ in a few positions only"""
    base = rng.getrandbits(128)
    sub = lambda k: [x for x in range(len(ds[k])) if rng.random() < 0.5]
    out = [ds["scenarios"][0]]
    seen = set()
    modes = sorted({l["mode"] for l in ds["lines"]})
    while len(out) < n:
        s = {"services": list(range(len(ds["services"]))) if rng.random() < .7 else (sub("services") or [0])}
        k = rng.random()
        if k < .55:
            s["exceptLines"] = sub("lines")
        elif k < .7:
            s["onlyLines"] = sub("lines")
        elif k < .8:
            s["exceptAgencies"] = sub("agencies")
        elif k < .9:
            s["exceptModes"] = [m for m in modes if rng.random() < .5]
        bit = rng.randrange(128)
        u = base ^ (1 << bit) if rng.random() < .8 else rng.getrandbits(128)
        if u in seen:
            continue
        seen.add(u)
        s["uuid"] = str(_uuid.UUID(int=u))
        out.append(s)
    ds["scenarios"] = out
    return D.finish(ds, rng)


def target(ds, q):
    path, pa = R.request(ds, q)
    return path + "?" + urllib.parse.urlencode(pa)


def canon(status, body):
    """answers that differ in the order of a set only are the same answer"""
    try:
        a = json.loads(body)
    except ValueError:
        return f"{status}|{body!r}"
    if isinstance(a, dict) and isinstance(a.get("result"), dict):
        for k in ("nodes", "lines"):
            if isinstance(a["result"].get(k), list):
                a["result"][k].sort(key=lambda x: json.dumps(x, sort_keys=True))
    return f"{status}|" + json.dumps(a, sort_keys=True)


def result_part(c):
    try:
        a = json.loads(c.split("|", 1)[1])
        return json.dumps([a.get("status"), a.get("reason"), a.get("result")], sort_keys=True)
    except (ValueError, AttributeError):
        return c


def discriminating(rng, ds, sv, n, tries=25, scen=4):
    """queries whose answer depends on the scenario, each as a list of per-scenario variants"""
    ss = rng.sample(range(len(ds["scenarios"])), min(scen, len(ds["scenarios"])))
    best = []
    for _ in range(tries):
        x = rng.random()
        ep = "access" if x < .3 else "summary" if x < .45 else "route"
        q = gen.query(rng, ds, ep=ep, alt=ep != "access" and rng.random() < .4, p=gen.params(rng, ds, tight=.15, cap=rng.random() < .3))
        var = [dict(q, s=s) for s in ss]
        res = set()
        succ = 0
        for v in var:
            st, h, b = sv.get_raw(target(ds, v))
            c = canon(st, b)
            succ += '"status": "success"' in c
            res.add(result_part(c))
        best.append((len(res) + (succ > 0), rng.random(), var))
    best.sort(key=lambda x: -x[0])
    return [b[2] for b in best[:n]]


def fresh_answer(binary, d, router, all_sets, t, **kw):
    with S.Server(binary, d, router, all_sets=all_sets, **kw) as sv:
        st, h, b = sv.get_raw(t)
        return canon(st, b)


def de_bruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]

"""Greedy minimisation of a failing (dataset, query): every round runs all one-step reductions against the real
server and has the specification judge them in one TLC run."""
import copy

import campaign as C


def reductions(ds, q):
    def mk(f):
        d = copy.deepcopy(ds)
        qq = copy.deepcopy(q)
        f(d, qq)
        return d, qq
    for i in range(len(ds["trips"])):
        yield mk(lambda d, qq: d["trips"].pop(i))
    for i, f in enumerate(ds["foot"]):
        if f[0] != f[1]:
            yield mk(lambda d, qq: d["foot"].pop(i))
    for p in {q.get("o"), q.get("d")} - {None}:
        for n in range(len(ds["nodes"])):
            if ds["walk"][p][n] is not None and ds["walk"][p][n][0] < 1200:
                yield mk(lambda d, qq: d["walk"][p].__setitem__(n, None))
    for k in list(q["p"]):
        if q["p"][k] is not None and k != "fw":
            yield mk(lambda d, qq: qq["p"].__setitem__(k, None))
    if q["s"] != 0:
        yield mk(lambda d, qq: qq.__setitem__("s", 0))
    for i, t in enumerate(ds["trips"]):
        if len(t["arr"]) > 2:
            for cut in (0, len(t["arr"]) - 1):
                def f(d, qq):
                    tt = d["trips"][i]
                    pi = len(d["paths"])
                    p = copy.deepcopy(d["paths"][tt["path"]])
                    p.pop("uuid", None)
                    p["nodes"].pop(cut)
                    p["dist"].pop(0 if cut == 0 else -1)
                    d["paths"].append(p)
                    tt["path"] = pi
                    for k in ("arr", "dep", "cb", "cu"):
                        tt[k].pop(cut)
                yield mk(f)
        if 0 in t["cb"]:
            yield mk(lambda d, qq: d["trips"][i].__setitem__("cb", [1] * len(t["cb"])))
        if 0 in t["cu"]:
            yield mk(lambda d, qq: d["trips"][i].__setitem__("cu", [1] * len(t["cu"])))


def shrink(ds, q, clauses, rounds=60, all_sets=False):
    import random
    import dataset as D
    c0 = C.execute(ds, [q], all_sets=all_sets)[0]
    key = (c0.get('status'), c0.get('reason'), 'noanswer' in c0)
    for _ in range(rounds):
        batch, items = [], []
        for d, qq in reductions(ds, q):
            D.finish(d, random.Random(7))
            cs = C.execute(d, [qq], all_sets=all_sets)
            if (cs[0].get('status'), cs[0].get('reason'), 'noanswer' in cs[0]) != key:
                continue
            batch.append((d, cs))
            items.append((d, qq))
        if not batch:
            break
        v = [(i, 0, clauses) for i in range(len(items))] if key[2] else C.judge(batch)[0]
        hit = [items[k] for k, _, c in v if c & clauses]
        if not hit:
            break
        # combine several trip removals at once while it works: take the first and continue
        ds, q = hit[0]
    return ds, q


def show(ds, q, case):
    print("query", {k: v for k, v in q.items()})
    used = {t["path"] for t in ds["trips"]}
    for i, t in enumerate(ds["trips"]):
        p = ds["paths"][t["path"]]
        print(f" trip {i} line {t['line']} {ds['lines'][t['line']]['mode']} svc {t['service']}:",
              " ".join(f"{n + 1}[{a},{d}{'' if cb else '!b'}{'' if cu else '!u'}]" for n, a, d, cb, cu in
                       zip(p["nodes"], t["arr"], t["dep"], t["cb"], t["cu"])))
    print(" foot", [[a + 1, b + 1, t, d] for a, b, t, d in ds["foot"] if a != b])
    for k in ("o", "d"):
        if q.get(k) is not None:
            print(" walk", k, {n + 1: w for n, w in enumerate(ds["walk"][q[k]]) if w})
    print(" answer", {k: v for k, v in case.items() if k not in ("routes", "p")})
    for r in case.get("routes", []):
        print("  route", {k: v for k, v in r.items() if k != "steps"})
        for s in r["steps"]:
            print("    ", s)

"""Random well-formed datasets and queries.  Times live on a coarse grid with occasional +-1 so that ties, exact
boundary hits and near misses are frequent."""
import math

import dataset as D

GRID = [30, 60, 60, 60, 120]


def _dur(rng, g, lo, hi, jitter=0.12):
    v = g * rng.randint(lo, hi)
    if rng.random() < jitter:
        v += rng.choice((-1, 1))
    return max(v, 0)


def _long(rng):
    """more than half a byte pair, or than all of it"""
    return rng.choice((32767, 32768, 40000, 65535, 65536, 70000)) + rng.choice((0, 0, 60))


def dataset(rng, positive=True, special=0.12, nodes=None, dense=None, hours=None, forbid=0.12, revisit=0.25,
            max_conns=44, places=3, spread_scen=True, gaps=0.12):
    g = rng.choice(GRID)
    nn = nodes or rng.randint(3, 7)
    ds = {"g": g}
    # names are distinct strings so that a swap shows
    ds["nodes"] = [{} for _ in range(nn)]
    foot = []
    pfoot = rng.choice((0.15, 0.3, 0.5))
    for a in range(nn):
        foot.append([a, a, 0, 0])
        for b in range(nn):
            if a != b and rng.random() < pfoot:
                # (the files hold these in two bytes)
                t = _dur(rng, g, 0, 5) if rng.random() > .02 else rng.choice((3600, 20000, 32767))
                foot.append([a, b, t, min(t + rng.randint(0, 9), 32767) if rng.random() > .03 else rng.choice((20000, 32767))])
    rng.shuffle(foot)
    ds["foot"] = foot
    ds["agencies"] = [{} for _ in range(rng.randint(1, 3))]
    ds["services"] = [{} for _ in range(rng.randint(1, 3))]
    nl = rng.randint(2, 5)
    modes = ["bus", "bus", "rail", "metro", "tram"]
    ds["lines"] = []
    for i in range(nl):
        m = "transferable" if rng.random() < special else rng.choice(modes)
        ds["lines"].append({"agency": rng.randrange(len(ds["agencies"])), "mode": m})
    if hours is None:
        h = rng.choice((0, 0, 1, 5, 7, 8, 10, 11, 12, 23, 24, 25, 29, 30))
        base = h * 3600 + g * rng.randint(0, 3600 // g)
    else:
        base = hours * 3600
    span = g * rng.choice((12, 25, 40))
    # one corridor order shared by several lines makes overtaking, overlap and useless detours likely
    corridor = list(range(nn))
    rng.shuffle(corridor)
    ds["paths"], ds["trips"] = [], []
    conns = 0
    # hours without departures or arrivals between the trips of some timetables
    far = .3 if rng.random() < .06 else 0
    spread = [x * 3600 for x in ((0,) if rng.random() >= gaps else (0, 0, 0, 1, 2, 4))]
    for li in range(nl):
        for _ in range(rng.choice((1, 1, 2))):
            k = rng.randint(2, min(5, nn + 1))
            if rng.random() < 0.6:
                s = rng.randrange(nn)
                seq = (corridor[s:] + corridor[:s])[:k]
                if rng.random() < 0.35:
                    seq = [x for x in seq if rng.random() < 0.75] or seq
                if rng.random() < 0.3:
                    seq = seq[::-1]
                if len(seq) < 2:
                    seq = rng.sample(range(nn), 2)
            else:
                seq = [rng.randrange(nn)]
                while len(seq) < k:
                    c = rng.randrange(nn)
                    if c != seq[-1]:
                        seq.append(c)
            if rng.random() > revisit:
                seq = list(dict.fromkeys(seq))
                if len(seq) < 2:
                    seq = rng.sample(range(nn), 2)
            pi = len(ds["paths"])
            ds["paths"].append({"line": li, "nodes": seq, "dist": [rng.randint(100, 3000) if rng.random() > .03 else _long(rng) for _ in seq[1:]]})
            hopv = [max(1, _dur(rng, g, 1, rng.choice((2, 4, 8)))) for _ in seq[1:]]
            if rng.random() < far:
                hopv[rng.randrange(len(hopv))] += rng.choice((3600, 7200 - g, 10000, 32768 - g, 32768))
                far = 0
            for _t in range(rng.choice((1, 2, 2, 3, 4))):
                if conns + len(seq) - 1 > max_conns:
                    break
                conns += len(seq) - 1
                t = base + _dur(rng, g, 0, span // g) + rng.choice(spread)
                arr, dep = [], []
                for i in range(len(seq)):
                    if i:
                        if positive or rng.random() < 0.8:
                            hop = hopv[i - 1] if rng.random() < 0.7 else max(1, _dur(rng, g, 1, 6))
                        else:
                            hop = 0
                        t += hop
                    arr.append(t)
                    if i and i < len(seq) - 1 and rng.random() < 0.35:
                        t += _dur(rng, g, 0, 4)
                    dep.append(t)
                ds["trips"].append({"line": li, "path": pi, "service": rng.randrange(len(ds["services"])), "arr": arr, "dep": dep,
                                    "cb": [0 if rng.random() < forbid else 1 for _ in seq],
                                    "cu": [0 if rng.random() < forbid else 1 for _ in seq]})
    top = max([t["arr"][-1] for t in ds["trips"]] + [base])
    if top >= 32 * 3600 - 1800:
        off = (top - (32 * 3600 - 1800)) // 3600 * 3600 + 3600
        for t in ds["trips"]:
            t["arr"] = [x - off for x in t["arr"]]
            t["dep"] = [x - off for x in t["dep"]]
        base -= off
    ds["base"], ds["span"] = base, span
    allsvc = list(range(len(ds["services"])))
    sub = lambda k: [x for x in range(len(ds[k])) if rng.random() < 0.5]
    scen = [{"services": allsvc}]
    for _ in range(3 if spread_scen else 0):
        s = {"services": allsvc if rng.random() < 0.6 else (sub("services") or [0])}
        for key, kind, p in (("onlyLines", "lines", .25), ("exceptLines", "lines", .3), ("onlyAgencies", "agencies", .2),
                             ("exceptAgencies", "agencies", .2)):
            if rng.random() < p:
                s[key] = sub(kind)
        ms = sorted({l["mode"] for l in ds["lines"]})
        for key, p in (("onlyModes", .2), ("exceptModes", .25)):
            if rng.random() < p:
                s[key] = [m for m in ms if rng.random() < 0.5]
        scen.append(s)
    ds["scenarios"] = scen
    ds["places"] = [{} for _ in range(places)]
    ds["walk"] = []
    for p in range(places):
        pr = rng.choice((0.35, 0.5, 0.7)) if p < places - 1 else rng.choice((0.0, 0.2, 0.5))
        row = []
        for n in range(nn):
            if rng.random() < pr:
                t = _dur(rng, g, 0, 8)
            else:
                # only offered when the query lifts or widens the maximum (the default is 1200)
                t = rng.choice((1200, 1201, 1260, 1500, 2400, 3600)) if rng.random() > .03 else _long(rng)
            row.append([t, t + rng.randint(0, 20) if rng.random() > .03 else _long(rng)])
        ds["walk"].append(row)
    if rng.random() < .4:
        ds["frac"] = rng.randrange(10**6)
    return D.finish(ds, rng)


def cleanup_dataset(rng, special=0.1, forbid=0.08, positive=True):
    """networks whose natural journeys overshoot, come back and overlap: vehicles out along a backbone, vehicles back
    along it and branching off, short links between stops of different vehicles"""
    g = rng.choice(GRID)
    nn = rng.randint(4, 8)
    ds = {"g": g, "nodes": [{} for _ in range(nn)]}
    foot = [[a, a, 0, 0] for a in range(nn)]
    for a in range(nn):
        for b in range(nn):
            if a != b and rng.random() < rng.choice((0.05, 0.15, 0.25)):
                t = _dur(rng, g, 0, 4)
                foot.append([a, b, t, t + rng.randint(0, 9)])
    rng.shuffle(foot)
    ds["foot"] = foot
    ds["agencies"] = [{} for _ in range(2)]
    ds["services"] = [{} for _ in range(rng.randint(1, 2))]
    modes = ["bus", "bus", "rail", "metro", "tram"]
    order = list(range(nn))
    rng.shuffle(order)
    k = rng.randint(3, min(5, nn))
    back = order[:k]
    rest = order[k:] or order[:1]
    base = rng.choice((0, 1, 7, 8, 11, 23, 24, 29)) * 3600 + g * rng.randint(0, 3600 // g)
    ds["lines"], ds["paths"], ds["trips"] = [], [], []
    clock = base
    nl = rng.randint(2, 4)
    # "gone too far": ride past N to X, come back next to N, walk to N, ride on from N
    script = None
    if len(rest) >= 2 and k >= 3 and rng.random() < 0.35:
        N, X, Y, Z = back[1], back[-1], rest[0], rest[1]
        t = _dur(rng, g, 0, 2)
        foot[:] = [f for f in foot if {f[0], f[1]} != {N, Y} and {f[0], f[1]} != {X, N}] + [[Y, N, t, t + 3]]
        script = [back, [X, Y], [N, Z]]
        nl = 3 + (rng.random() < 0.3)
    for li in range(nl):
        ds["lines"].append({"agency": rng.randrange(2), "mode": "transferable" if rng.random() < special else rng.choice(modes)})
        if script and li < 3:
            seq = script[li]
        elif li == 0:
            seq = back[:]
            if rng.random() < 0.3:
                seq = [rng.choice(rest)] + seq
        else:
            # ride back over part of the backbone, maybe leaving it for elsewhere
            a = rng.randint(1, k)
            seq = back[:a][::-1]
            if rng.random() < 0.35:
                seq = back[rng.randrange(k):]
            if rng.random() < 0.3 and len(seq) > 2:
                seq.pop(rng.randrange(1, len(seq) - 1))
            if rng.random() < 0.3:
                seq = [rng.choice(rest)] + seq
            if rng.random() < 0.5:
                seq = seq[:rng.randint(1, len(seq))] + rng.sample(rest, min(len(rest), rng.randint(1, 2)))
        seq = [x for i, x in enumerate(seq) if i == 0 or x != seq[i - 1]]
        if len(seq) < 2:
            seq = rng.sample(range(nn), 2)
        pi = len(ds["paths"])
        ds["paths"].append({"line": li, "nodes": seq, "dist": [rng.randint(100, 3000) for _ in seq[1:]]})
        for t in range(rng.choice((1, 1, 2, 3))):
            t = clock + _dur(rng, g, 0, 3 if rng.random() < 0.6 else 12)
            arr, dep = [], []
            for i in range(len(seq)):
                if i:
                    t += max(1, _dur(rng, g, 1, 3)) if positive or rng.random() < 0.85 else 0
                arr.append(t)
                if i and i < len(seq) - 1 and rng.random() < 0.2:
                    t += _dur(rng, g, 0, 3)
                dep.append(t)
            ds["trips"].append({"line": li, "path": pi, "service": rng.randrange(len(ds["services"])), "arr": arr, "dep": dep,
                                "cb": [0 if rng.random() < forbid else 1 for _ in seq],
                                "cu": [0 if rng.random() < forbid else 1 for _ in seq]})
        clock = ds["trips"][-1]["arr"][-1] + _dur(rng, g, 0, 5)      # the next line leaves when this one is through
    order = list(range(len(ds["trips"])))
    rng.shuffle(order)
    ds["trips"] = [ds["trips"][i] for i in order]
    ds["base"], ds["span"] = base, clock - base
    allsvc = list(range(len(ds["services"])))
    ds["scenarios"] = [{"services": allsvc}, {"services": allsvc, "exceptLines": [rng.randrange(nl)]}]
    ds["places"] = [{} for _ in range(3)]
    far = lambda: rng.choice((1200, 1201, 1500, 2400))
    ds["walk"] = []
    for p in range(3):
        near = set(rng.sample(range(nn), rng.choice((1, 1, 2))))
        if p == 0:
            near = {ds["paths"][0]["nodes"][0]} | (near if rng.random() < 0.3 else set())
        if p == 1:
            near = {script[2][1] if script else rng.choice(rng.choice(ds["paths"])["nodes"][1:])} | (near if rng.random() < 0.3 else set())
        row = []
        for n in range(nn):
            t = _dur(rng, g, 0, 4) if n in near else far()
            row.append([t, t + rng.randint(0, 20)])
        ds["walk"].append(row)
    return D.finish(ds, rng)


def cleanup_query(rng, ds, **kw):
    g = ds["g"]
    p = {"mw": rng.choice((0, 0, g, g, 2 * g, 3 * g)), "fw": rng.choice((0, 0, 0, 10 * g))}
    if rng.random() < .2:
        p["mx"] = g * rng.randint(1, 4)
    q = query(rng, ds, p=p, **kw)
    if rng.random() < .8:
        q["o"], q["d"] = 0, rng.choice((1, 1, 2))
        q["s"] = 0
        q["T"] = max(0, min(ds["base"] - g * rng.randint(0, 8) if q["fwd"] else ds["base"] + ds["span"] + g * rng.randint(-8, 25), 115199))
    return q


def params(rng, ds, cap=None, tight=0.4):
    g = ds["g"]
    p = {}
    x = rng.random()
    if x < 0.85:
        p["mw"] = rng.choice((0, 0, g, g, 2 * g, 3 * g, g + 1, -5))
        if rng.random() < .02:
            p["mw"] = rng.choice((3600, 32767, 32768, 65536 + g, 100000, 2**31 - 1))
    if rng.random() < tight:
        p["mt"] = rng.choice((g * rng.randint(4, 40), g * rng.randint(10, 60) + rng.choice((-1, 1)), 0, -1))
    for k in ("ma", "me"):
        if rng.random() < tight:
            p[k] = rng.choice((g * rng.randint(1, 8), g * rng.randint(1, 8), g * rng.randint(1, 8) - 1, 0))
            near = [w[0] for row in ds["walk"] for w in row if w and w[0] > 2]
            if near and rng.random() < .25:
                p[k] = rng.choice(near) + rng.choice((-1, -1, 0, 1))
    if rng.random() < tight:
        p["mx"] = rng.choice((1, g, 2 * g, 3 * g, 4 * g, g - 1, 0, -3))
        far = [f[2] for f in ds["foot"] if f[2] > 2]
        if far and rng.random() < .2:
            p["mx"] = rng.choice(far) + rng.choice((-1, 0, 1))
    if cap is None:
        cap = rng.random() < 0.3
    if cap:
        if rng.random() < 0.8:
            p["fw"] = rng.choice((1, g, 2 * g, 3 * g, 5 * g, 8 * g, 5 * g + 1))
    else:
        p["fw"] = rng.choice((0, 0, -1))
    for k in p:
        if k in ("ma", "me") and p[k] is not None and p[k] > 0:
            p[k] = max(p[k], 2)
    return p


def times(rng, ds):
    """event-aligned request times"""
    ev = [x for t in ds["trips"] for x in t["dep"] + t["arr"]]
    g = ds["g"]
    if ev and rng.random() < 0.8:
        t = rng.choice(ev) + g * rng.randint(-10, 6) + rng.choice((0, 0, 0, 0, -1, 1))
    else:
        t = ds["base"] + g * rng.randint(-6, ds["span"] // g + 6)
    return min(max(t, 0), 32 * 3600 - 1)


def query(rng, ds, ep=None, fwd=None, cap=None, alt=None, p=None):
    ep = ep or "route"
    if fwd is None:
        fwd = rng.random() < 0.5
    P = len(ds["places"])
    o = rng.randrange(P)
    d = rng.randrange(P)
    if o == d and rng.random() < 0.8:
        d = (o + 1) % P
    g = ds["g"]
    if fwd:
        T = times(rng, ds)
    else:
        T = times(rng, ds)
    if rng.random() < 0.35:
        # place the request where something can happen: early for departures, late for arrivals
        T = ds["base"] - g * rng.randint(0, 10) if fwd else ds["base"] + ds["span"] + g * rng.randint(0, 25)
        T = min(max(T, 0), 32 * 3600 - 1)
    p = p if p is not None else params(rng, ds, cap)
    if ep == "access" and (p.get("mw") or 0) > 10**6:
        p = dict(p, mw=100000)              # node times would leave the range of any clock
    return {"ep": ep, "o": o, "d": d, "s": 0 if rng.random() < 0.6 else rng.randrange(len(ds["scenarios"])),
            "T": T, "fwd": fwd, "alt": bool(alt), "p": p}


def align(rng, ds, q):
    """move the request so that it just catches one departure (just makes one arrival); returns that event's time"""
    trips = [t for t in ds["trips"] if len(t["dep"]) > 1]
    if not trips:
        return None
    t = rng.choice(trips)
    nodes = ds["paths"][t["path"]]["nodes"]
    k = rng.randrange(len(nodes) - 1) + (0 if q["fwd"] else 1)
    pl = q["o"] if q["fwd"] else q["d"]
    if pl is None:
        return None
    if rng.random() < .4:
        ds["walk"][pl][nodes[k]] = [0, 0]
    w = ds["walk"][pl][nodes[k]][0]
    if rng.random() < .4:
        q["p"] = dict(q["p"], mw=0)
    mw = q["p"].get("mw")
    mw = 0 if ds["lines"][t["line"]]["mode"] == "transferable" else 180 if mw is None else max(mw, 0)
    e = t["dep"][k] if q["fwd"] else t["arr"][k]
    T = e - mw - w if q["fwd"] else e + w
    if not 0 <= T < 32 * 3600:
        return None
    q["T"] = T
    return e


def shift_in_place(ds, qs, off):
    for t in ds["trips"]:
        t["arr"] = [x + off for x in t["arr"]]
        t["dep"] = [x + off for x in t["dep"]]
    ds["base"] += off
    for q in qs:
        q["T"] = min(max(q["T"] + off, 0), 32 * 3600 - 1)


def fit(rng, ds, qs, share=.15):
    """some requests fit exactly; in half of the cases one of them (or its vehicle) also falls on an hour boundary"""
    if rng.random() > .5:
        return ds, qs
    al = []
    for q in qs:
        if rng.random() < share:
            e = align(rng, ds, q)
            if e is not None:
                al.append((q["T"], e))
    ev = [x for t in ds["trips"] for x in t["dep"] + t["arr"]]
    if al and rng.random() < .6:
        T, e = rng.choice(al)
        x = T if rng.random() < .6 else e
        off = -(x % 3600) + rng.choice((0, 3600)) + rng.choice((0, 0, 0, -1, 1))
        if min(ev) + off >= 0 and max(ev) + off < 32 * 3600:
            shift_in_place(ds, qs, off)
    return ds, qs


# ---------------------------------------------------------------- where stops and places are
SPEED = 5 / 3.6


def _degree(lat):
    a = math.radians(lat)
    return 111412.84 * math.cos(a) - 93.5 * math.cos(3 * a), 111132.92 - 559.82 * math.cos(2 * a) + 1.175 * math.cos(4 * a)


def bird(p, n):
    """metres from a place to a stop"""
    x, y = _degree(p["lat"] / 1e6)
    return math.hypot((n["lon"] - p["lon"]) / 1e6 * x, (n["lat"] - p["lat"]) / 1e6 * y)


def _at(rng, lat, lon, dist):
    a = rng.random() * 2 * math.pi
    x, y = _degree(lat / 1e6)
    return round(lat + dist * math.sin(a) / y * 1e6), round(lon + dist * math.cos(a) / x * 1e6)


def spread(rng, ds):
    """stops lie where the walks of the table can be walked: never farther, as the crow flies, than the walk lasts (limits
    on walks are 2 seconds at least, so two metres are within every limit)"""
    base = rng.choice(((45500000, -73600000), (45500000, -73600000), (-33450000, -70650000), (60170000, 24940000), (1350000, 103820000)))
    size = rng.choice((0, 30, 300, 1500))
    for scale in (1, .5, .25, .1, .02, 0):
        taken, places, nodes = set(), [], []
        for _ in ds["places"]:
            while True:
                c = _at(rng, *base, .5 + size * scale * rng.random())
                if c not in taken:
                    break
            taken.add(c)
            places.append({"lat": c[0], "lon": c[1]})
        for i in range(len(ds["nodes"])):
            lim = [(w[i][0] * SPEED * .99 - .3, p) for w, p in zip(ds["walk"], places) if w[i] is not None]
            for _ in range(60):
                r, p = min(lim, key=lambda x: x[0]) if lim and rng.random() < .8 else rng.choice(lim or [(2000, places[0])])
                c = _at(rng, p["lat"], p["lon"], max(r, 1) * rng.choice((1, rng.random())))
                n = {"lat": c[0], "lon": c[1]}
                if c not in taken and all(bird(q, n) <= max(x, 2) for x, q in lim):
                    taken.add(c)
                    nodes.append(n)
                    break
            else:
                break
        if len(nodes) == len(ds["nodes"]):
            for a, b in zip(ds["nodes"] + ds["places"], nodes + places):
                a.update(b)
            return True
    return False


def euclid(rng, ds, qs):
    """no walking router: the walks are those of the straight lines (none within a second of a limit, which is a matter of metres)"""
    taken = set()
    limits = {1200} | {q["p"][k] for q in qs for k in ("ma", "me") if q["p"].get(k)}

    def far(p, n):
        d = bird(p, n)
        s = int(d) / SPEED
        return None if d - int(d) < .02 or d - int(d) > .98 or s > 0 and (s - int(s) < .01 or s - int(s) > .99) or int(s) + 1 in limits or int(s) in limits else (int(s), int(d))

    for p in ds["places"]:
        while True:
            c = _at(rng, 45500000, -73600000, rng.choice((5, 60, 400)) * rng.random())
            if c not in taken:
                break
        taken.add(c)
        p.update(lat=c[0], lon=c[1])
    for i, n in enumerate(ds["nodes"]):
        for _ in range(400):
            k = rng.randrange(len(ds["places"]))
            w = ds["walk"][k][i]
            c = _at(rng, ds["places"][k]["lat"], ds["places"][k]["lon"], (w[0] if w else 3000) * SPEED + rng.random())
            n.update(lat=c[0], lon=c[1])
            fs = [far(p, n) for p in ds["places"]]
            if c not in taken and None not in fs:
                taken.add(c)
                break
        else:
            return False
        for k, f in enumerate(fs):
            ds["walk"][k][i] = list(f)
    ds["euclid"] = True
    return True


# ---------------------------------------------------------------- more of everything
def enlarge(rng, ds):
    """hundreds of stops, lines, trips, services, stops of a path … around the same network: counts and indices beyond a byte"""
    many = lambda: rng.choice((130, 257, 300))
    kinds = rng.sample(("nodes", "lines", "trips", "path", "services", "agencies", "scenarios", "paths", "near"), rng.choice((1, 2, 3))) + ["path"] * (rng.random() < .35)
    k = 0
    if "nodes" in kinds or "path" in kinds or "near" in kinds:
        k = many()
        first = rng.random() < .7
        off = k if first else 0
        new = range(k) if first else range(len(ds["nodes"]), len(ds["nodes"]) + k)
        ds["nodes"] = [{} for _ in range(k)] + ds["nodes"] if first else ds["nodes"] + [{} for _ in range(k)]
        ds["foot"] = [[a + off, b + off, t, d] for a, b, t, d in ds["foot"]] + [[i, i, 0, 0] for i in new]
        ds["walk"] = [[None] * k + w if first else w + [None] * k for w in ds["walk"]]
        for p in ds["paths"]:
            p["nodes"] = [x + off for x in p["nodes"]]
        for i, n in enumerate(ds["nodes"]):
            if "name" in n:
                n.update(name=f"Node {i}", code=f"C{i}", lat=D.BASE_LAT + i // 4, lon=D.BASE_LON + i % 4)
    if "near" in kinds:                                     # hundreds of stops within walking distance of places and stops
        used = sorted({x for p in ds["paths"] for x in p["nodes"]})
        for w in ds["walk"]:
            if rng.random() < .7:
                far = rng.choice((60, 900, 1500))
                for i in new:
                    if rng.random() < .95:
                        x = rng.randint(0, far)
                        w[i] = [x, x + rng.randint(0, 9)]
        for a in rng.sample(used, min(len(used), 3)):
            far = rng.choice((60, 900, 1500))
            for i in new:
                x = rng.randint(0, far)
                ds["foot"].append([a, i, x, x + rng.randint(0, 9)])
                if rng.random() < .5:
                    ds["foot"].append([i, a, x, x + rng.randint(0, 9)])
        rng.shuffle(ds["foot"])
    if "path" in kinds:
        new = list(new)
        rng.shuffle(new)
        lead = new[:rng.choice((k, k - 1, k // 2))]
        tail = new[len(lead):]
        for pi in rng.sample(range(len(ds["paths"])), min(2, len(ds["paths"]))):
            p = ds["paths"][pi]
            if min([t["dep"][0] for t in ds["trips"] if t["path"] == pi] or [10**6]) < len(lead) + 60:
                continue
            p["nodes"] = lead + p["nodes"] + tail
            p["dist"] = [rng.randint(10, 300) for _ in lead] + p["dist"] + [rng.randint(10, 300) for _ in tail]
            for t in ds["trips"]:
                if t["path"] == pi:
                    a, z = t["arr"][0], t["arr"][-1]
                    pre, post = [a - len(lead) + i for i in range(len(lead))], [max(z, t["dep"][-1]) + 1 + i for i in range(len(tail))]
                    t["arr"], t["dep"] = pre + t["arr"] + post, pre + t["dep"] + post
                    on = lambda n: [1 if rng.random() < .1 else 0 for _ in range(n)]
                    t["cb"], t["cu"] = on(len(pre)) + t["cb"] + on(len(post)), on(len(pre)) + t["cu"] + on(len(post))
    if "lines" in kinds:
        k = many()
        ds["lines"] = [{"agency": rng.randrange(len(ds["agencies"])), "mode": rng.choice(("bus", "rail"))} for _ in range(k)] + ds["lines"]
        for o in ds["paths"] + ds["trips"]:
            o["line"] += k
        for s in ds["scenarios"]:
            for f in ("onlyLines", "exceptLines"):
                s[f] = [x + k for x in s[f]] + (rng.sample(range(k), rng.choice((0, 3, k))) if s[f] else [])
        for i, l in enumerate(ds["lines"]):
            if "short" in l:
                l.update(short=f"L{i}", long=f"Line {i}")
    if "agencies" in kinds:
        k = many()
        ds["agencies"] = [{} for _ in range(k)] + ds["agencies"]
        for l in ds["lines"]:
            l["agency"] += k
        for s in ds["scenarios"]:
            for f in ("onlyAgencies", "exceptAgencies"):
                s[f] = [x + k for x in s[f]]
        for i, l in enumerate(ds["agencies"]):
            if "name" in l:
                l.update(acronym=f"A{i}", name=f"Agency {i}")
    if "services" in kinds:
        k = many()
        ds["services"] = [{} for _ in range(k)] + ds["services"]
        for t in ds["trips"]:
            t["service"] += k
        for s in ds["scenarios"]:
            s["services"] = rng.sample(range(k), rng.choice((0, 2, k))) + [x + k for x in s["services"]]
    if "paths" in kinds:
        k = many()
        nn = len(ds["nodes"])
        new = []
        for _ in range(k):
            a, b = rng.sample(range(nn), 2)
            new.append({"line": rng.randrange(len(ds["lines"])), "nodes": [a, b], "dist": [rng.randint(100, 999)]})
        ds["paths"] = new + ds["paths"]
        for t in ds["trips"]:
            t["path"] += k
    if "scenarios" in kinds:
        ds["scenarios"] = ds["scenarios"] + [{"services": [rng.randrange(len(ds["services"]))]} for _ in range(many())]
    if "trips" in kinds:
        k = many()
        dead = len(ds["services"])
        ds["services"] = ds["services"] + [{}]
        short = [t for t in ds["trips"] if len(t["arr"]) < 12] or ds["trips"][:0]
        if short:
            new = []
            for _ in range(k):
                t = rng.choice(short)
                j = rng.randint(-20, 20)
                if min(t["arr"][0], t["dep"][0]) + j < 0 or max(t["arr"][-1], t["dep"][-1]) + j >= 32 * 3600:
                    j = 0
                new.append({"line": t["line"], "path": t["path"], "service": dead, "arr": [x + j for x in t["arr"]],
                            "dep": [x + j for x in t["dep"]], "cb": list(t["cb"]), "cu": list(t["cu"])})
            ds["trips"] = new + ds["trips"] if rng.random() < .5 else ds["trips"] + new
    return D.finish(ds, rng)


TEXTS = ("", " ", "a", "Zone Ü", "Gare d’Été – quai 2", "日本橋", "🚌 18", "\u202eabc", "quote\"d", "back\\slash", "tab\there", "line\nbreak", "<b>&amp;</b>",
         "null", "0", "-1", "1e9", "{\"a\": 1}", "'; --", "%s%n%d", "{}", "ê" * 200, "x" * 3000, "\x01\x1f\x7f", "é e\u0301")


def decorate(rng, ds):
    """names as people give them: any text, and several things of one name; and the rest of what the files say (dataset.files)"""
    ds["vary"] = rng.getrandbits(30)
    pool = rng.sample(TEXTS, 4) + ["A", "B"]
    few = rng.random() < .6
    any_ = lambda: rng.choice(pool) if few else rng.choice(TEXTS) if rng.random() < .6 else "".join(chr(rng.choice((rng.randint(32, 126), rng.randint(160, 0x2fff)))) for _ in range(rng.randint(1, 12)))
    same = any_() if rng.random() < .3 else None
    for kind, fs in (("nodes", ("name", "code")), ("lines", ("short", "long")), ("agencies", ("name", "acronym")), ("services", ("name",)), ("scenarios", ("name",))):
        for o in ds[kind]:
            for f in fs:
                if rng.random() < .8:
                    o[f] = any_() if same is None else same


def chain(rng, ds, qs):
    """a long row of stops, each ride on a line of its own: journeys with very many rides"""
    n = rng.choice((7, 11, 14, 18, 26, 34))
    first = len(ds["nodes"])
    slack = rng.choice((0, 60, 180, 180, 240))
    extra = []
    t = rng.randint(0, 26 * 3600)
    t0 = t
    a = first
    ds["nodes"] += [{}]
    svc = rng.randrange(len(ds["services"]))
    for i in range(n):
        b = len(ds["nodes"])
        ds["nodes"].append({})
        li = len(ds["lines"])
        if i and rng.random() < .06 and len(extra) > 2:
            li = extra[-2]                                  # the same line again
        else:
            ds["lines"].append({"agency": rng.randrange(len(ds["agencies"])), "mode": rng.choice(("bus", "rail", "metro"))})
        extra.append(li)
        ds["paths"].append({"line": li, "nodes": [a, b], "dist": [rng.randint(100, 999)]})
        ride = rng.randint(1, 4) * 30
        for k in range(rng.choice((1, 1, 1, 2))):
            x = t + 60 * k
            ds["trips"].append({"line": li, "path": len(ds["paths"]) - 1, "service": svc, "arr": [x, x + ride], "dep": [x, x + ride], "cb": [1, 1], "cu": [1, 1]})
        t += ride
        a = b
        if i < n - 1 and rng.random() < .3:
            a = len(ds["nodes"])
            ds["nodes"].append({})
            w = rng.choice((0, 30, 60, 90))
            ds["foot"].append([b, a, w, w + rng.randint(0, 9)])
            t += w
        end = t
        t += slack + rng.choice((0, 0, 0, 1, 30, 60, -1 if slack else 0) if rng.random() < .2 else (0, 0, 30))
    k = len(ds["nodes"]) - first
    ds["foot"] += [[i, i, 0, 0] for i in range(first, first + k)]
    rng.shuffle(ds["foot"])
    w0, w1 = rng.choice((0, 30, 200)), rng.choice((0, 30, 200))
    for p, row in enumerate(ds["walk"]):
        far = [rng.choice((1260, 2400)) for _ in range(k)]
        new = [[x, x + 5] for x in far]
        if p == 0:
            new[0] = [w0, w0 + 3]
        if p == 1:
            new[-1] = [w1, w1 + 3]
        row.extend(new)
    D.finish(ds, rng)
    for q in qs:
        if rng.random() < .5:
            continue
        if q["ep"] == "access":
            q["o"], q["d"] = (0, None) if q["fwd"] else (None, 1)
        else:
            q["o"], q["d"] = 0, 1
        q["s"] = q["s"] if svc in ds["scenarios"][q["s"]]["services"] and rng.random() < .5 else 0
        x = rng.random()
        q["p"] = {"mw": slack} if x < .5 else dict(q["p"], mw=slack, mt=0, ma=0, me=0, mx=0) if x < .8 else dict(q["p"])
        if q["fwd"] and rng.random() < .8:
            q["p"].pop("fw", None)
            q["p"]["fw"] = 0
        q["T"] = min(max((t0 - w0 - slack - rng.choice((0, 0, 1, 60, 900))) if q["fwd"] else end + w1 + rng.choice((0, 0, -1, 60, 900)), 0), 115199)
    return ds, qs

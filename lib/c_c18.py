"""C18: requests enumerated by module HttpApi, written out in many concrete forms, sent to the real server; module HttpApiTrace
judges every answer.  /updateCache requests in between, on data that is and is not complete."""
import concurrent.futures
import hashlib
import json
import math
import multiprocessing
import os
import random
import re
import shutil
import socket
import threading
import time
import urllib.parse
import uuid

import build
import c_c14
import c_c20
import campaign as C
import dataset as D
import gen
import history as H
import server as S
import tlc

MUTANTS = {"status", "code", "swap", "unready", "sticky", "default", "swallow", "hollow", "fallback", "uuid", "zero", "lax", "negative", "echo",
           "echotime", "stickyname", "always"}
SIZE = {"quick": (12000, 40), "thorough": (150000, 400)}          # requests of the model, /updateCache histories
MAXI = 2147483647
LIMITS = {"max_travel_time": 0, "max_access_travel_time": 1200, "max_egress_travel_time": 1200, "max_transfer_travel_time": 1200,
          "max_first_waiting_time": 1800}
INTS = dict(LIMITS, min_waiting_time=180)
OWN = {"route": ("origin", "destination", "alternatives"), "summary": ("origin", "destination", "alternatives"), "access": ("place",)}
COMMON = tuple(INTS) + ("time_of_trip", "time_type", "scenario_id")
POINTS = ("origin", "destination", "place")
PATHS = {"route": "/v2/route", "summary": "/v2/summary", "access": "/v2/accessibility"}
KINDS = ("agencies", "services", "nodes", "lines", "paths", "scenarios", "schedules")
KNOWN = KINDS + ("data_sources", "persons", "od_trips", "all")
DATA_CODES = {"DATA_ERROR"} | {"MISSING_DATA_" + k.upper() for k in KINDS}


# ---------------------------------------------------------------- what a piece of text is
def classify(n, s, scen):
    """(class, value) of the text s given for parameter n; scen: uuid -> 'ok' | 'empty'"""
    if n in POINTS:
        if s == "":
            return "blank", ""
        ok = re.fullmatch(r"-?[0-9]{1,3}(\.[0-9]+)?,-?[0-9]{1,3}(\.[0-9]+)?", s)
        try:
            parts = s.split(",")
            if len(parts) != 2 or not all(re.fullmatch(r"\s*[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\s*", p) for p in parts):
                return "bad", ""
            v = [float(p) for p in parts]
            if not all(math.isfinite(x) for x in v):
                return "bad", ""
        except ValueError:
            return "bad", ""
        return ("ok" if ok else "odd"), point(v)
    if n == "scenario_id":
        if s == "":
            return "blank", ""
        ok = re.fullmatch(r"[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}", s)
        m = re.fullmatch(r"\{?([0-9a-fA-F]{8}-?([0-9a-fA-F]{4}-?){3}[0-9a-fA-F]{12})\}?", s)
        if not m:
            return "bad", ""
        u = str(uuid.UUID(s.strip("{}")))
        k = scen.get(u)
        if k is None:
            return "unknown", ""
        return (k if ok or k == "empty" else "odd"), u
    if n == "alternatives":
        return {"true": ("ok", 1), "false": ("ok", 0)}.get(s, ("bad", 0))
    if n == "time_type":
        return {"0": ("ok", 0), "1": ("ok", 1)}.get(s, ("bad", 0))
    if s == "":
        return "blank", 0
    if not re.fullmatch(r"\s*[+-]?[0-9]+\s*", s):
        return "bad", 0
    v = int(s)
    if not -MAXI - 1 <= v <= MAXI:
        return ("huge" if v > 0 else "bad"), 0
    return ("ok" if re.fullmatch(r"-?[0-9]+", s) else "odd"), v


def point(v):
    return f"{float(v[0])!r},{float(v[1])!r}"


BADINT = ("abc", "12abc", "12.5", "1e3", "0x10", "nan", "--5", "1 2", "9:00", "30000s", "-", "+", "1_0", "null", "30000.0", "30,000", "inf", "true",
          "\u0661\u0662", "12\t3", "5-", "١", "30000;1", "%", "=", "5=5")
BADPOINT = ("45", "foo,bar", "1,2,3", "-73.6;45.5", "45.5,abc", "nan,nan", "inf,45.5", "-73.6,inf", "-73.6,45.5,", "--73.6,45.5", "-73.6,45.5x",
            "-73.6x,45.5", ",", "-73.6,", ",45.5", "-73.6 45.5", "[-73.6,45.5]", "-73.6,,45.5", "-73.6,45.5,45.5", "1e999,5", "-73.6,nan",
            "-73.6.1,45.5", "=", "é,ü", "a", "-73,6,45,5", "{}", "-73.6, ", " ,45.5", "1e,5")
BADUUID = ("abc", "123", "null", "%7B%7D", "{}", "'; drop table", "é", "-", "xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx", "{", "all", "1e9")


def write_text(rng, n, c, v, th):
    """some text of class c standing for v (an abstract value of the model)"""
    ch = rng.choice
    if n in POINTS:
        ps = th["points"][n]
        p = ps[0] if v.endswith("1") else ch(ps[1:])
        lon, lat = D.coord(p).split(",")
        if c == "ok":
            k = rng.random()
            return f"{lon},{lat}" if k < .6 else f"{lon}0,{lat}00" if k < .8 else f"{lon.rstrip('0')},{lat}" if not lon.rstrip("0").endswith(".") else f"{lon},{lat}"
        if c == "odd":
            return ch((f" {lon},{lat}", f"{lon},+{lat}", f"{lon}e0,{lat}", f"{lon},{lat}E+00", f"{lon}, {lat}", "1000.5,2000", ".5,45.25", "-73.,45.",
                       "1e5,45", "-1e308,1e308", "0,1e-300", "12345678901234567890,5", "180.0000000000001,+90"))
        return "" if c == "blank" else ch(BADPOINT)
    if n == "scenario_id":
        u = th["scen"].get(v) or th["scen"]["s1"]
        if c == "ok":
            return ch((u, u, u, u.upper(), u[:8].upper() + u[8:]))
        if c == "odd":
            return ch(("{" + u + "}", u.replace("-", "")))
        if c == "unknown":
            x = list(u)
            i = rng.randrange(36)
            while x[i] == "-":
                i = rng.randrange(36)
            x[i] = ch([y for y in "0123456789abcdef" if y != x[i]])
            return ch((str(uuid.UUID(int=rng.getrandbits(128))), "00000000-0000-0000-0000-000000000000", "".join(x)))
        if c == "empty":
            return ch((th["scen"]["empty"], th["scen"]["empty"].upper()))
        return "" if c == "blank" else ch(BADUUID + (u[:-1], u + "0", u[:8] + u[9:], u + "x", u.replace("-", "_"), "g" + u[1:], u[:20], u + " x"))
    if n == "alternatives":
        return ("true" if v else "false") if c == "ok" else ch(("1", "0", "yes", "TRUE", "2", "", "truefalse", "no"))
    if n == "time_type":
        return str(v) if c == "ok" else "" if c == "blank" else ch(("2", "-1", "abc", "true", "01", "1.0", "11", "10", "1x", " 1"))
    # integers
    if c == "blank":
        return ""
    if c == "bad":
        return ch(BADINT)
    if c == "huge":
        return ch(("2147483648", "99999999999", "1" * 40, "4294967296", "4294967297", "9223372036854775808", "18446744073709551616", "4294997296"))
    if n == "time_of_trip":
        v = {30000: th["time"], 86400: ch((86399, 86400, 86401, 88000, 90000, 100000)),
             115200: ch((115199, 115200, 115201, 115260, 118799, 118800, 119000, 122400, 200000, 3600000)),
             MAXI: ch((MAXI, MAXI, MAXI - 1, MAXI - 1200, MAXI - 180, 2140000000, 1073741824, 1 << 30, 999999999)),
             -1: ch((-1, -1, -5, -86400, -MAXI, -MAXI - 1)), 0: ch((0, 0, 1, 59))}[v]
    elif v == MAXI:
        v = ch((MAXI, MAXI, MAXI - 1, 2147000000, 5000000))
    elif v == -5:
        v = ch((-1, -5, -1200, -MAXI, -MAXI - 1))
    elif v == 700:
        d = INTS[n] or 3600
        v = ch((d - 1, d - 1, d + 1, d + 1, d + 1, 700, d // 2, d * 2, 1, 60, d + 200))
    if c == "odd":
        return ch((f"+{v}", f" {v}", f"\t{v}")) if v >= 0 else f" {v}"
    return ch((str(v),) * 6 + (f"0{v}",)) if v >= 0 else str(v)


def quote(rng, s):
    k = rng.random()
    if k < .5:
        return urllib.parse.quote_plus(s)
    if k < .7:
        return urllib.parse.quote(s, safe=",-.+:{}'()") if "+" not in s else urllib.parse.quote(s, safe="")
    if k < .85:
        return "".join("%%%02X" % b for b in s.encode())
    return "".join("%%%02x" % b if rng.random() < .3 or not chr(b).isalnum() else chr(b) for b in s.encode())


def target(rng, ep, items):
    items = [f"{n}={quote(rng, s)}" for n, s in items]
    rng.shuffle(items)
    if rng.random() < .12:
        items.insert(rng.randrange(len(items) + 1), rng.choice(("foo=bar", "type=line", "Origin=1,2", "max_travel=abc", "x", "origin2=zz", "time=5", "", "place_=1")))
    return PATHS[ep] + rng.choice(("", "", "", "/")) + "?" + "&".join(items)


# ---------------------------------------------------------------- reading the answer
def answer(st, hs, body):
    """(well formed?, kind, code, echo, what identifies the content)"""
    bad = (False, "", "", {"x": 0}, "")
    try:
        a = json.loads(body.decode("utf-8"))
    except ValueError:
        return bad
    if not isinstance(a, dict) or not any(h.lower().replace(" ", "").startswith("content-type:application/json") for h in hs):
        return bad
    k = a.get("status")
    if k == "query_error":
        return (a.get("errorCode") in c_c20.CODES, k, str(a.get("errorCode")), {"x": 0}, "")
    if k == "data_error":
        return (a.get("errorCode") in DATA_CODES, k, str(a.get("errorCode")), {"x": 0}, "")
    if k not in ("success", "no_routing_found") or not isinstance(a.get("query"), dict):
        return bad
    if k == "success" and not isinstance(a.get("result"), dict) or k == "no_routing_found" and a.get("reason") not in c_c20.REASONS:
        return bad
    q, echo = a["query"], {}
    for n, v in q.items():
        if n in POINTS:
            if not (isinstance(v, list) and len(v) == 2 and all(type(x) in (int, float) for x in v)):
                return bad
            echo[n] = point(v)
        elif n in ("timeOfTrip", "timeType"):
            if type(v) is not int or not -MAXI - 1 <= v <= MAXI:
                return bad
            echo["time_of_trip" if n == "timeOfTrip" else "time_type"] = v
        else:
            return bad
    c = json.loads(H.canon(st, body).split("|", 1)[1])
    c.pop("query")
    return True, k, "", echo or {"x": 0}, hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- datasets in which every default matters
def ladder(rng, theme):
    """a network in which a limit one second lower or higher than its default changes the answer, in both directions of time"""
    T = 30000
    ds = {"g": 60, "nodes": [], "foot": [], "agencies": [{}], "services": [{}, {}], "lines": [], "paths": [], "trips": [], "places": [{}, {}, {}, {}]}
    walk = [dict() for _ in range(4)]

    def node():
        ds["nodes"].append({})
        n = len(ds["nodes"]) - 1
        ds["foot"].append([n, n, 0, 0])
        return n

    def trip(stops):                                      # [(node, arrival, departure)]
        ds["lines"].append({"agency": 0, "mode": rng.choice(("bus", "metro", "rail"))})
        li = len(ds["lines"]) - 1
        ds["paths"].append({"line": li, "nodes": [n for n, _, _ in stops], "dist": [100 + li] * (len(stops) - 1)})
        k = len(stops)
        ds["trips"].append({"line": li, "path": len(ds["paths"]) - 1, "service": 0, "arr": [a for _, a, _ in stops], "dep": [d for _, _, d in stops],
                            "cb": [1] * k, "cu": [1] * k})

    def hop(a, d, b, t):
        trip([(a, d, d), (b, t, t)])
    O_, X_ = 0, 1
    rungs = [60, 599, 699, 700, 701, 1199, 1200, 1201, 1400, 2400, 3000]
    if theme == "access":
        for j, w in enumerate(rungs):
            n, x = node(), node()
            walk[O_][n], walk[X_][x] = (w, w + 5), (60, 61)
            hop(n, T + w + 200, x, T + 12000 - 300 * j)
            hop(n, T - 12000 + 300 * j + w + 180, x, T - 100 - j)
    elif theme == "egress":
        n = node()
        walk[O_][n] = (60, 61)
        for j, w in enumerate(rungs):
            x = node()
            walk[X_][x] = (w, w + 5)
            hop(n, T + 300 + j, x, T + 12000 - 300 * j - w)
            hop(n, T - 12000 + 300 * j, x, T - w - 10 - j)
    elif theme == "transfer":
        n, m, x = node(), node(), node()
        walk[O_][n], walk[X_][x] = (60, 61), (60, 61)
        hop(n, T + 300, m, T + 1000)
        m2 = node()
        for j, w in enumerate(rungs):
            t = node()
            ds["foot"].append([m, t, w, w + 3])
            hop(t, T + 1000 + w + 200, x, T + 14000 - 300 * j)
            t = node()
            ds["foot"].append([t, m2, w, w + 3])
            hop(n, T - 14000 + 300 * j, t, T - 2000 - w - 200)
        hop(m2, T - 2000, x, T - 500)
    elif theme == "mw":
        n, m, m2, x = node(), node(), node(), node()
        walk[O_][n], walk[X_][x] = (60, 61), (60, 61)
        hop(n, T + 60 + 1700, m, T + 3000)
        rr = [0, 1, 60, 90, 178, 179, 180, 181, 182, 360, 380, 700]
        for j, w in enumerate(rr):
            hop(m, T + 3000 + w, x, T + 6000 + 100 * j)
            hop(n, T - 6000 - 100 * j, m2, T - 3000 - w)
        hop(m2, T - 3000, x, T - 500)
        n2 = node()
        walk[2][n2] = (60, 61)
        for j, w in enumerate(rr):
            hop(n2, T + 60 + w, x, T + 6000 + 100 * j)
    elif theme == "first":
        x = node()
        walk[X_][x] = (60, 61)
        for j, w in enumerate([200, 700, 900, 1798, 1799, 1800, 1801, 2000, 3600, 5000]):
            n = node()
            walk[O_][n] = (60, 61)
            hop(n, T + 60 + w, x, T + 12000 - 400 * j)
            hop(n, T - 6000 + 40 * j, x, T - 3000 - j)
    elif theme == "total":
        n, x, y = node(), node(), node()
        walk[O_][n], walk[X_][x], walk[2][y] = (60, 61), (60, 61), (60, 61)
        hop(n, T + 240, x, T + 3600 - 60)
        hop(n, T + 240, y, T + 3601 - 60)
        hop(n, T - 3600 + 60 + 180, x, T - 60)
        hop(n, T - 3601 + 60 + 180, y, T - 60)
        hop(n, T - 8000, x, T - 1000)
        hop(n, T + 240, y, T + 9000)
    elif theme == "late":
        n, x = node(), node()
        m = node()
        walk[O_][n], walk[X_][x], walk[2][m] = (60, 61), (60, 61), (100, 101)
        for h in range(22 * 3, 36 * 3):
            t = h * 1200
            trip([(n, t, t), (m, t + 300, t + 330), (x, t + 700, t + 700)])
    P = len(ds["places"])
    walk[3] = dict(walk[O_])
    ds["walk"] = [[walk[p].get(n) for n in range(len(ds["nodes"]))] for p in range(P)]
    half = rng.sample(range(len(ds["lines"])), len(ds["lines"]) // 3)
    ds["scenarios"] = [{"services": [0, 1]}, {"services": [0], "exceptLines": half}, {"services": []}]
    D.finish(ds, rng)
    return ds, T if theme != "late" else 86400 + rng.choice((-3000, 0, 700, 25000))


THEMES = ("access", "egress", "transfer", "mw", "first", "total", "late", "random")
THEME_OF = {"max_access_travel_time": "access", "max_egress_travel_time": "egress", "max_transfer_travel_time": "transfer", "min_waiting_time": "mw",
            "max_first_waiting_time": "first", "max_travel_time": "total"}


def theme(rng, name):
    if name == "random":
        ds = gen.dataset(rng, places=4)
        T = min([t["dep"][0] for t in ds["trips"]] or [30000]) - rng.choice((300, 900))
        T = max(T, 100)
        ds["scenarios"] = ds["scenarios"][:1] + [{"services": [rng.randrange(len(ds["services"]))]}, {"services": []}]
        D.finish(ds, rng)
        if rng.random() < .2:
            gen.enlarge(rng, ds)
            ds["scenarios"] = ds["scenarios"][:2] + [ds["scenarios"][2]]
    else:
        ds, T = ladder(rng, name)
    if rng.random() < .5:
        gen.decorate(rng, ds)
    P = ds["places"]
    return {"name": name, "ds": ds, "time": T,
            "points": {"origin": [P[0], P[2], P[3]], "destination": [P[1], P[2], P[0]], "place": [P[0], P[1], P[2]]},
            "scen": {"s1": ds["scenarios"][0]["uuid"], "s2": ds["scenarios"][1]["uuid"], "empty": ds["scenarios"][2]["uuid"]},
            "classes": {ds["scenarios"][0]["uuid"]: "ok", ds["scenarios"][1]["uuid"]: "ok" if ds["scenarios"][1]["services"] else "empty",
                        ds["scenarios"][2]["uuid"]: "empty"}}


# ---------------------------------------------------------------- records
def norm(n, v):
    if n in LIMITS:
        return 0 if v <= 0 or v >= 2000000 else v
    return max(v, 0) if n == "min_waiting_time" else v


def values(o):
    """the values an occurrence may stand for (as in the specification); used only to ask for references"""
    n, c, v = o["n"], o["c"], o["v"]
    if n in ("time_type", "alternatives"):
        return [v] if c == "ok" else [0, 1]
    if n in POINTS or n == "scenario_id":
        return [v] if c in ("ok", "odd") else []
    if n == "time_of_trip":
        return [v] if c in ("ok", "odd") and v >= 0 else []
    return [norm(n, v)] if c in ("ok", "odd") else [0] if c == "huge" else []


def occurrences(ep, items, th):
    out = []
    for n, s in items:
        c, v = classify(n, s, th["classes"])
        out.append({"n": n, "c": c, "v": v})
    return out


def references(rng, ep, ps, th):
    """requests with everything spelled out, for what ps may stand for"""
    names = OWN[ep] + COMMON
    vals = {}
    for n in names:
        occ = [o for o in ps if o["n"] == n]
        d = [INTS[n]] if n in INTS else [0] if n in ("time_type", "alternatives") else []
        vals[n] = sorted({x for o in occ for x in values(o)}, key=str) if occ else d
        if not vals[n]:
            return []
    combos = [{}]
    for n in names:
        combos = [dict(c, **{n: v}) for c in combos for v in vals[n]]
    out = []
    for c in combos[:6]:
        items = []
        for n, v in c.items():
            if n == "alternatives":
                s = "true" if v else "false"
            elif n in LIMITS and v == 0:
                s = rng.choice(("0", "-1", "0", str(MAXI), str(-MAXI - 1)))
            elif n == "min_waiting_time" and v == 0:
                s = rng.choice(("0", "0", "-3"))
            else:
                s = str(v)
            items.append((n, s))
        if any(classify(n, s, th["classes"])[0] not in ("ok",) and n in POINTS for n, s in items):
            continue
        out.append((json.dumps([ep, sorted(c.items())]), items))
    return out


def ask(cl, rng, ep, items, th, whole=True):
    tg = target(rng, ep, items)
    r = {"t": "Q", "w": whole, "ep": ep, "ps": occurrences(ep, items, th), "target": tg, "ok": False, "st": 0, "kind": "", "code": "", "echo": {"x": 0}, "h": ""}
    try:
        st, hs, b = cl.get(tg, timeout=60)
    except ValueError as e:
        r["note"] = str(e)
        return r
    ok, kind, code, echo, h = answer(st, hs, b)
    r.update(ok=ok, st=st, kind=kind, code=code, echo=echo, h=h)
    if not ok:
        r["note"] = b[:300].decode("latin-1")
    return r


JUNK = ("", "&", "=", "&&==", "origin", "%", "%zz", "origin=%", "a=b=c", "?", "?origin=1,2", "origin=%00", "origin=%ff%fe", "scenario_id=%F0%9F%9A%8C",
        "time_of_trip", "=origin", "origin[]=1,2", "+", "%20=%20", "origin=1,2;destination=3,4", "x" * 3000, "&".join(f"a{i}={i}" for i in range(300)),
        "origin=" + "9" * 3000 + ",1", "time_of_trip=" + "1" * 4000, "scenario_id=" + "a" * 2000, "#frag", "origin=1,2#x", "a=\\", "a='", 'a=%22',
        "origin=" + "," * 500)


def junk(cl, rng, ep):
    """anything at all: one documented answer"""
    q = rng.choice(JUNK)
    if rng.random() < .4:
        q = "".join(rng.choice("%&=,.-+0123456789abcdef;:/?[]{}'\"\\<>^`|~!@$*()" + "é") for _ in range(rng.randrange(60)))
    q = urllib.parse.quote(q, safe="%&=,.-+;:/?[]{}'\"\\<>^`|~!@$*()")
    tg = PATHS[ep] + "?" + q
    r = {"t": "X", "target": tg, "ok": False}
    try:
        st, hs, b = cl.get(tg, timeout=60)
    except ValueError as e:
        r["note"] = str(e)
        return r
    ok, kind, code, echo, h = answer(st, hs, b)
    r["ok"] = ok and (st == 400) == (kind == "query_error") and st in (200, 400)
    if not r["ok"]:
        r["note"] = f"{st} " + b[:300].decode("latin-1")
    return r


def update(cl, names, lacking, path, rng, alias="names", more=()):
    items = []
    if names is not None:
        items.append(f"{alias}={quote(rng, ','.join(names))}")
    if path:
        items.append(f"{rng.choice(('path', 'custom_path', 'custom_cache_path'))}={quote(rng, path)}")
    items += more
    rng.shuffle(items)
    tg = "/updateCache" + rng.choice(("", "/")) + ("?" + "&".join(items) if items or rng.random() < .5 else "")
    r = {"t": "U", "names": list(names or []), "lacking": sorted(lacking), "target": tg, "ok": False, "st": 0, "kind": "", "got": []}
    try:
        st, hs, b = cl.get(tg, timeout=120)
    except ValueError as e:
        r["note"] = str(e)
        return r
    try:
        a = json.loads(b.decode("utf-8"))
        kind = a["status"]
        ok = kind == "error" and isinstance(a.get("error"), str) or kind == "success" and isinstance(a.get("cache_names"), str)
        got = a["cache_names"].split(",") if kind == "success" else []
        r.update(ok=bool(ok), st=st, kind=kind, got=sorted(set(got)))
    except (ValueError, KeyError, TypeError, AttributeError):
        pass
    if not r["ok"]:
        r["note"] = f"{st} " + b[:300].decode("latin-1")
    return r


STRANGE = ("", "foo", "Lines", "LINES", "line", " lines", "lines ", "al", "alll", "households", "places", "é", "\"", "\\", "a\"b", "=", "%", "<x>",
           "nodes;lines", "schedule", "trips", "null", "\n", "x" * 300, "{}", "all all")
ALIASES = ("names", "caches", "cache_names", "name", "cache", "cache_name")


def _task(a):
    seed, i, name, reqs, nupd, build_name = a
    rng = random.Random(f"C18/{seed}/{i}")
    th = theme(rng, name)
    ds = th["ds"]
    if rng.random() < .5:
        ds["dataSources"] = [{"uuid": D.mkuuid(rng), "persons": [{"uuid": D.mkuuid(rng)}], "odTrips": []}]
    d = S.scratch()
    log = os.path.join(d, "server.log")
    router = S.Router()
    router.set_dataset(ds)
    runs = []
    crash = None
    recs = []
    try:
        fs = D.files(ds)
        D.write(ds, d, fs)
        lack = {}
        for k in KINDS:
            sub = f"wo_{k}"
            skip = (lambda f: f.startswith("lines/")) if k == "schedules" else (lambda f, k=k: f == k)
            D.write(ds, os.path.join(d, sub), {f: b for f, b in fs.items() if not skip(f)})
            lack[sub] = {k}
        D.write(ds, os.path.join(d, "copy"), fs)
        os.makedirs(os.path.join(d, "none"))
        lack.update(copy=set(), none=set(KINDS), nowhere=set(KINDS), **{"qu\"ote\\": set(KINDS), "a=b": set(KINDS), "é": set(KINDS), "../x\n": set(KINDS)})
        with S.Server(C._W["bins"][build_name], d, router, all_sets=rng.random() < .3, threads=rng.choice((1, 4)), memory=None, log=log,
                      env={"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=16"}) as sv:
            cl = c_c20.Client(sv.port)
            lost = set()

            def up(names, path="", **kw):
                nonlocal lost
                lk = lack.get(path, set())
                recs.append(update(cl, names, lk, path, rng, **kw))
                known = set(names or ()) & set(KNOWN)
                lost = set(lk) if "all" in known else lost | (known & lk)
            try:
                refs = set()
                for j, (ep, abs_items) in enumerate(reqs):
                    for _ in range(nupd if j in (0, len(reqs) // 2) else 0):
                        # a few refreshes, requests in between on whatever is loaded, then everything again
                        for _ in range(rng.randint(1, 4)):
                            names = [rng.choice(KNOWN if rng.random() < .6 else STRANGE) for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3, 5)))]
                            if rng.random() < .1:
                                names = None
                            path = rng.choice(("", "", "copy") + tuple(lack)) if rng.random() < .7 else ""
                            more = [rng.choice(("foo=bar", "x", "Names=lines", "names2=all"))] if rng.random() < .2 else []
                            up(names, path, alias=rng.choice(ALIASES), more=more)
                            for _ in range(rng.randrange(3)):
                                e, it = reqs[rng.randrange(len(reqs))]
                                recs.append(ask(cl, rng, e, [(n, write_text(rng, n, c, v, th)) for n, c, v in it], th, False))
                        up(["all"], rng.choice(("", "copy")), alias=rng.choice(ALIASES))
                    items = [(n, write_text(rng, n, c, v, th)) for n, c, v in abs_items]
                    r = ask(cl, rng, ep, items, th)
                    recs.append(r)
                    if r["kind"] in ("success", "no_routing_found") and r["ok"]:
                        for key, ref in references(rng, ep, r["ps"], th):
                            if key not in refs:
                                refs.add(key)
                                recs.append(ask(cl, rng, ep, ref, th))
                    if rng.random() < .03:
                        recs.append(junk(cl, rng, ep))
            except S.Crash as x:
                crash = str(x)
            cl.close()
            alive = crash is None and sv.alive()
    except S.Crash as x:
        crash, alive = str(x), False
    finally:
        router.close()
        reports = c_c14.san_reports(log) if os.path.exists(log) else []
        shutil.rmtree(d, ignore_errors=True)
    return {"theme": name, "ds": ds, "recs": recs, "alive": alive, "crash": crash, "reports": reports}


# ---------------------------------------------------------------- model
def model(maxdev=2):
    _, a = tlc.run("HttpApi", workers=3)
    o, b = tlc.run("HttpApi", cfg="HttpApiMutants", workers=2)
    caught = set(re.findall(r'<<"M", "(\w+)"', o))
    if caught != MUTANTS:
        raise tlc.TlcError(f"wrong servers not told apart by the model: {MUTANTS - caught}")
    return a["distinct"] + b["distinct"], a["states"] + b["states"]


def requests():
    o, _ = tlc.run("HttpApi", cfg="HttpApiList", workers=1)
    out = []
    for m in re.findall(r'<<"S", "(.*)">>', o):
        ep, ps = json.loads(m.replace('\\"', '"').replace("<<", "[").replace(">>", "]"))
        out.append((ep, [tuple(p) for p in ps]))
    return sorted(set((e, tuple(p)) for e, p in out))


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        n = 0
        with open(f, "w") as fh:
            for j, r in enumerate(runs):
                recs = [{k: v for k, v in x.items() if k not in ("target", "note")} for x in r["recs"]]
                fh.write(json.dumps({"id": j + 1, "alive": r["alive"], "lost": [], "recs": recs}) + "\n")
                n += len(recs) + 2
        out, st = tlc.run("HttpApiTrace", env={"TRACE": f}, workers=1, heap="2g")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != n:
        raise tlc.TlcError(f"trace not consumed: {st} {n}\n" + out[-3000:])
    bad = []
    for a, b, c in re.findall(r'<<"F", (\d+), (\d+), \{([^}]*)\}>>', out):
        bad.append((int(a) - 1, int(b) - 1, set(re.findall(r'"([^"]*)"', c))))
    return sorted(bad, key=lambda x: (x[0], x[1])), st


def _init(bins):
    C._init(bins["plain"])
    C._W["bins"] = bins


def brief(r):
    return {k: v for k, v in r.items() if k not in ("ps",)}


def run(ctx):
    nreq, nupd = SIZE[ctx.tier]
    bins = {v: build.build(v) for v in ("plain", "api")}
    res = {}

    def bg():
        try:
            res["model"] = model()
        except Exception as e:
            res["err"] = e
    tm = threading.Thread(target=bg)
    tm.start()
    rng = random.Random(f"C18/{ctx.seed}")
    reqs = requests()
    total = len(reqs)
    many = []
    while len(many) < nreq:
        rng.shuffle(reqs)
        many += reqs[:nreq - len(many)]
    # a limit that differs meets the network in which it matters
    groups = {t: [] for t in THEMES}
    for ep, it in many:
        ths = [THEME_OF[n] for n, c, v in it if n in THEME_OF]
        groups[rng.choice(ths) if ths and rng.random() < .75 else rng.choice(THEMES)].append((ep, it))
    tasks = []
    per = 170
    for t, l in groups.items():
        for j in range(0, len(l), per):
            tasks.append((ctx.seed, f"{t}.{j}", t, l[j:j + per], max(1, nupd * per // (2 * nreq) + 1), "api" if len(tasks) % 2 == 0 else "plain"))
    rng.shuffle(tasks)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "requests_of_the_model": total,
           "answers": {}, "error_codes": {}, "updates": {}, "model_mutants_told_apart": len(MUTANTS), "samples": [],
           "rule": "every request of the model (a good request with at most two deviations, repeated parameters included), in random concrete forms, on "
                   "networks where one second more or less than a default changes the answer; non-trivial: requests answered 200 whose result is "
                   "compared with the fully spelled-out request"}
    pend = []

    pool2 = concurrent.futures.ThreadPoolExecutor(5)
    futs = []

    def flush():
        if pend:
            futs.append((list(pend), pool2.submit(judge, list(pend))))
            pend.clear()

    def collect(wait):
        for f in list(futs):
            if not wait and not f[1].done():
                continue
            futs.remove(f)
            take(f[0], *f[1].result())

    def take(batch, bad, st):
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        for j, pos, cl in bad:
            r = batch[j]
            if pos >= len(r["recs"]):
                what = f"{', '.join(sorted(cl))}: {r['crash'] or 'the server is gone'}"
                near = r["recs"][-8:]
            else:
                x = r["recs"][pos]
                what = f"{', '.join(sorted(cl))}: {x['target'][:400]} -> {x.get('st')} {x.get('kind')} {x.get('code', '')} {x.get('note', '')[:200]}"
                near = r["recs"][max(0, pos - 3):pos + 1]
            if len(ctx.violations) < 12:
                ctx.violate(what, {"theme": r["theme"], "dataset": r["ds"], "records": [brief(x) for x in near], "crash": r["crash"],
                                   "reports": r["reports"][:3], "targets": [x["target"] for x in r["recs"][:pos + 1]][-400:]})

    with multiprocessing.get_context("fork").Pool(C.NPROC, _init, (bins,)) as pool:
        for r in pool.imap_unordered(_task, tasks):
            for x in dict.fromkeys(r["reports"]):
                ctx.violate(f"C18.memory: {x}", {"theme": r["theme"], "dataset": r["ds"], "report": x, "targets": [y["target"] for y in r["recs"]][-400:]})
            pend.append(r)
            cov["traces_validated_against_impl"] += 1
            for x in r["recs"]:
                cov["evaluations"] += 1
                if x["t"] == "Q":
                    cov["answers"][x["kind"]] = cov["answers"].get(x["kind"], 0) + 1
                    if x["code"]:
                        cov["error_codes"][x["code"]] = cov["error_codes"].get(x["code"], 0) + 1
                    cov["distinct_nontrivial"] += x["kind"] == "success"
                elif x["t"] == "U":
                    cov["updates"][x["kind"]] = cov["updates"].get(x["kind"], 0) + 1
            if len(cov["samples"]) < 3:
                cov["samples"].append([brief(x) for x in r["recs"][5:8]])
            if sum(len(x["recs"]) for x in pend) > 1800:
                flush()
                collect(False)
            if time.time() > ctx.deadline or len(ctx.violations) > 8:
                break
        pool.terminate()
    flush()
    collect(True)
    tm.join()
    if "err" in res:
        raise res["err"]
    cov["states"] += res["model"][0]
    cov["transitions"] += res["model"][1]
    return "model_checking", cov, ["what the documentation leaves open (a time_type other than 0 or 1, a scenario identifier without dashes, signs and spaces "
                                   "around numbers, a parameter given twice) may be read either way, but the answer must then be that of one reading"]

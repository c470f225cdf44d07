"""Projection of datasets, requests and server answers to the vocabulary of the specification (1-based indices)."""
import json

MODES = ["bus", "rail", "highSpeedRail", "metro", "monorail", "tram", "tramTrain", "water", "gondola", "funicular",
         "taxi", "cableCar", "horse", "other", "transferable"]
MODE_NAMES = {"bus": "Bus", "rail": "Rail", "highSpeedRail": "High speed rail", "metro": "Subway/Metro",
              "monorail": "Monorail", "tram": "Tram/LRT", "tramTrain": "Tram Train", "water": "Ferry/Boat",
              "gondola": "Gondola/Aerial tram", "funicular": "Funicular", "taxi": "Taxi/Cab/Minivan",
              "cableCar": "Cable car", "horse": "Horse carriage", "other": "Other", "transferable": "Transferable"}


def spec_dataset(ds):
    foot = [[] for _ in ds["nodes"]]
    for a, b, t, d in ds["foot"]:
        foot[a].append([b + 1, t, d])
    one = lambda l: [x + 1 for x in l]
    return {
        "nn": len(ds["nodes"]), "foot": foot,
        "lines": [{"agency": l["agency"] + 1, "mode": l["mode"]} for l in ds["lines"]],
        "trips": [{"line": t["line"] + 1, "service": t["service"] + 1,
                   "nodes": one(ds["paths"][t["path"]]["nodes"]), "arr": t["arr"], "dep": t["dep"], "cb": t["cb"],
                   "cu": t["cu"], "dist": ds["paths"][t["path"]]["dist"]} for t in ds["trips"]],
        "scenarios": [{"services": one(s["services"]), "onlyLines": one(s["onlyLines"]),
                       "exceptLines": one(s["exceptLines"]), "onlyAgencies": one(s["onlyAgencies"]),
                       "exceptAgencies": one(s["exceptAgencies"]), "onlyModes": s["onlyModes"],
                       "exceptModes": s["exceptModes"]} for s in ds["scenarios"]],
        "walk": [[list(w) if w is not None else [900000, 900000] for w in row] for row in ds["walk"]]}


class Index:
    def __init__(self, ds):
        self.ds = ds
        for k in ("nodes", "lines", "trips", "paths", "agencies"):
            setattr(self, k, {o["uuid"]: i for i, o in enumerate(ds[k])})


PKEYS = {"mw": "min_waiting_time", "mt": "max_travel_time", "ma": "max_access_travel_time",
         "me": "max_egress_travel_time", "mx": "max_transfer_travel_time", "fw": "max_first_waiting_time"}


def request(ds, q):
    """abstract query -> (path, parameter list)"""
    pl = lambda i: f"{ds['places'][i]['lon'] / 1e6:.6f},{ds['places'][i]['lat'] / 1e6:.6f}"
    out = []
    if q["ep"] == "access":
        path = "/v2/accessibility"
        out.append(("place", pl(q["o"] if q["fwd"] else q["d"])))
    else:
        path = "/v2/summary" if q["ep"] == "summary" else "/v2/route"
        out += [("origin", pl(q["o"])), ("destination", pl(q["d"]))]
        if q.get("alt"):
            out.append(("alternatives", "true"))
    out += [("scenario_id", ds["scenarios"][q["s"]]["uuid"]), ("time_of_trip", q["T"])]
    if not q["fwd"]:
        out.append(("time_type", 1))
    for k, name in PKEYS.items():
        if q["p"].get(k) is not None:
            out.append((name, q["p"][k]))
    return path, out


def _step_names(ds, ix, s, node, trip):
    ok = True
    if node is not None:
        n = ds["nodes"][node]
        ok &= s.get("nodeName") == n["name"] and s.get("nodeCode") == n["code"]
        ok &= _coords(s.get("nodeCoordinates"), n)
    if trip is not None:
        t = ds["trips"][trip]
        l = ds["lines"][t["line"]]
        a = ds["agencies"][l["agency"]]
        ok &= (s.get("lineShortname") == l["short"] and s.get("lineLongname") == l["long"]
               and s.get("agencyName") == a["name"] and s.get("agencyAcronym") == a["acronym"]
               and s.get("agencyUuid") == a["uuid"] and s.get("pathUuid") == ds["paths"][t["path"]]["uuid"]
               and s.get("mode") == l["mode"] and s.get("modeName") == MODE_NAMES[l["mode"]])
    return bool(ok)


def _coords(c, n):
    return (isinstance(c, list) and len(c) == 2 and abs(c[0] - n["lon"] / 1e6) < 5e-7
            and abs(c[1] - n["lat"] / 1e6) < 5e-7)


def route(ds, ix, r):
    steps = []
    for s in r["steps"]:
        a = s["action"]
        if a == "walking":
            steps.append({"a": "walk", "k": s["type"], "tt": s["travelTime"], "dist": s["distance"],
                          "dep": s["departureTime"], "arr": s["arrivalTime"], "ready": s.get("readyToBoardAt", -1)})
        else:
            n = ix.nodes.get(s["nodeUuid"])
            t = ix.trips.get(s["tripUuid"])
            e = {"a": "board" if a == "boarding" else "alight", "n": -1 if n is None else n, "trip": -1 if t is None else t,
                 "line": ix.lines.get(s["lineUuid"], -1), "seq": s["legSequenceInTrip"], "sseq": s["stopSequenceInTrip"],
                 "names": _step_names(ds, ix, s, n, t)}
            for k in ("n", "trip", "line"):
                e[k] += 1
            if a == "boarding":
                e.update(t=s["departureTime"], w=s["waitingTime"])
            else:
                e.update(t=s["arrivalTime"], ivt=s["inVehicleTime"], ivd=s["inVehicleDistance"])
            steps.append(e)
    return {"dep": r["departureTime"], "arr": r["arrivalTime"], "ttt": r["totalTravelTime"],
            "wait": r["totalWaitingTime"], "wait1": r["firstWaitingTime"], "waitX": r["transferWaitingTime"],
            "vehT": r["totalInVehicleTime"], "vehD": r["totalInVehicleDistance"], "accT": r["accessTravelTime"],
            "accD": r["accessDistance"], "egrT": r["egressTravelTime"], "egrD": r["egressDistance"],
            "walkT": r["transferWalkingTime"], "walkD": r["transferWalkingDistance"],
            "nonT": r["totalNonTransitTravelTime"], "nonD": r["totalNonTransitDistance"], "totD": r["totalDistance"],
            "nb": r["numberOfBoardings"], "nt": r["numberOfTransfers"], "steps": steps}


def answer(ds, ix, q, a):
    """answer body of /v2/route -> spec fields"""
    out = {"status": a.get("status", "none"), "reason": a.get("reason", a.get("errorCode", "none")), "total": 0, "routes": []}
    if out["status"] == "success":
        out["total"] = a["result"]["totalRoutesCalculated"]
        out["routes"] = [route(ds, ix, r) for r in a["result"]["routes"]]
    return out


def base(cid, di, q):
    return {"id": cid, "ds": di + 1, "ep": q["ep"], "s": q["s"] + 1, "T": q["T"], "fwd": q["fwd"],
            "o": q["o"] + 1 if q.get("o") is not None else 0, "d": q["d"] + 1 if q.get("d") is not None else 0,
            "p": {k: ([q["p"][k]] if q["p"].get(k) is not None else []) for k in PKEYS}}


def case_route(cid, di, ds, ix, q, a, plain=None):
    c = base(cid, di, q)
    c["alt"] = bool(q.get("alt"))
    c.update(answer(ds, ix, q, a))
    if c["alt"]:
        c["plain"] = {"status": plain.get("status", "none"), "reason": plain.get("reason", "none")}
        try:
            c["same"] = a["result"]["routes"][0] == plain["result"]["routes"][0]
        except (KeyError, IndexError):
            c["same"] = False
    return c


def case_access(cid, di, ds, ix, q, a):
    c = base(cid, di, q)
    if q["fwd"]:
        c["d"] = 0
    else:
        c["o"] = 0
    c.update(status=a.get("status", "none"), reason=a.get("reason", a.get("errorCode", "none")), total=0, nodes=[])
    if c["status"] == "success":
        c["total"] = a["result"]["totalNodeCount"]
        for n in a["result"]["nodes"]:
            i = ix.nodes.get(n["nodeUuid"])
            c["nodes"].append({"n": 0 if i is None else i + 1, "t": n["nodeTime"], "ttt": n["totalTravelTime"],
                               "nt": n["numberOfTransfers"], "names": _step_names(ds, ix, n, i, None)})
    return c


def case_summary(cid, di, ds, ix, q, a, ra):
    c = base(cid, di, q)
    c.update(status=a.get("status", "none"), nb=0, lines=[], route=answer(ds, ix, q, ra))
    if c["status"] == "success":
        c["nb"] = a["result"]["nbRoutes"]
        for l in a["result"]["lines"]:
            i = ix.lines.get(l["lineUuid"])
            ok = False
            if i is not None:
                L = ds["lines"][i]
                A = ds["agencies"][L["agency"]]
                ok = (l.get("lineShortname") == L["short"] and l.get("lineLongname") == L["long"]
                      and l.get("agencyUuid") == A["uuid"] and l.get("agencyName") == A["name"]
                      and l.get("agencyAcronym") == A["acronym"])
            c["lines"].append({"line": 0 if i is None else i + 1, "count": l["alternativeCount"], "names": ok})
    return c


def expected_states(c):
    if c["ep"] != "route":
        return 2
    return 2 + sum(1 + len(r["steps"]) for r in c["routes"])


def check_types(c, limit=10**8):
    """every number TLC will see must be an integer that stays a 32-bit one when a few are added; no clock value,
    duration, distance or count of a sane answer comes near the limit (the request's own parameters may)"""
    if isinstance(c, bool) or isinstance(c, str):
        return
    if isinstance(c, int):
        if not -limit <= c <= limit:
            raise ValueError(f"out of range: {c}")
    elif isinstance(c, dict):
        for k, v in c.items():
            check_types(v, 2**31 - 1 if k == "p" else limit)
    elif isinstance(c, (list, tuple)):
        for v in c:
            check_types(v, limit)
    else:
        raise TypeError(f"not an integer: {c!r}")

"""Abstract datasets (what the specification talks about) and their Cap'n Proto cache directories (what the
server reads).  All cross references inside a dataset are 0-based indices; uuids are attached once."""
import copy
import json
import os
import random
import uuid as _uuid

from capnpw import message

BASE_LAT, BASE_LON = 45500000, -73600000          # micro-degrees


def mkuuid(rng):
    return str(_uuid.UUID(int=rng.getrandbits(128), version=4))


def finish(ds, rng):
    """attach uuids / names / coordinates that a generator left out"""
    for kind in ("nodes", "agencies", "services", "lines", "paths", "trips", "scenarios"):
        for i, o in enumerate(ds[kind]):
            o.setdefault("uuid", mkuuid(rng))
    ds.setdefault("bad", mkuuid(rng))
    for i, n in enumerate(ds["nodes"]):
        n.setdefault("lat", BASE_LAT + i // 4)
        n.setdefault("lon", BASE_LON + i % 4)
        n.setdefault("code", f"C{i}")
        n.setdefault("name", f"Node {i}")
    for i, p in enumerate(ds["places"]):
        p.setdefault("lat", BASE_LAT - 1 - i // 4)
        p.setdefault("lon", BASE_LON + i % 4)
    for i, a in enumerate(ds["agencies"]):
        a.setdefault("acronym", f"A{i}")
        a.setdefault("name", f"Agency {i}")
    for i, s in enumerate(ds["services"]):
        s.setdefault("name", f"Service {i}")
    for i, l in enumerate(ds["lines"]):
        l.setdefault("short", f"L{i}")
        l.setdefault("long", f"Line {i}")
        l.setdefault("mode", "bus")
        l.setdefault("agency", 0)
    for i, s in enumerate(ds["scenarios"]):
        s.setdefault("name", f"Scenario {i}")
        for k in ("services", "onlyLines", "exceptLines", "onlyAgencies", "exceptAgencies", "onlyModes", "exceptModes"):
            s.setdefault(k, [])
    return ds


def files(ds):
    """relative file name -> bytes"""
    out = {}
    N, L, P, T = ds["nodes"], ds["lines"], ds["paths"], ds["trips"]
    U = lambda kind, i: ds[kind][i]["uuid"]
    # what the files also say and no answer depends on: one number makes it vary
    v = ds.get("vary")
    r = random.Random(v)
    V = lambda x, f: x if v is None else f()
    flag = lambda: r.choice((0, 1, 1, -1))
    date = lambda: r.choice(("", "1999-12-31", "2020-02-29", "2030-01-01", f"{r.randint(1950, 2090)}-0{r.randint(1, 9)}-1{r.randint(0, 9)}"))
    short = lambda: r.choice((0, 1, 50, 127, 128, 255, 256, 32767, r.randint(0, 32767)))
    ids = list(range(1, len(N) + 1))
    if v is not None:
        ids = r.choice((ids, r.sample(ids, len(ids)), r.sample(range(2 ** 32), len(ids)), [x - 1 for x in ids]))
    internal = lambda x, of: "b" * (ds["bulk"] // len(ds[of])) if ds.get("bulk") else V(x, lambda: r.choice((x, "", "i", "Î\"")))
    more = lambda fields: {} if v is None else {k: f() for k, f in fields.items() if r.random() < .7}
    out["agencies"] = message("agencyCollection.AgencyCollection", {"agencies": [
        {"uuid": a["uuid"], "acronym": a["acronym"], "name": a["name"], "internalId": a.get("internalId", internal("", "agencies")),
         "isEnabled": V(1, flag), "simulationUuid": "", **more({"isFrozen": flag, "simulationUuid": lambda: r.choice(("", mkuuid(r)))})} for a in ds["agencies"]]})
    out["services"] = message("serviceCollection.ServiceCollection", {"services": [
        {"uuid": s["uuid"], "name": s["name"], "monday": V(1, flag), "tuesday": V(1, flag), "wednesday": V(1, flag), "thursday": V(1, flag),
         "friday": V(1, flag), "saturday": V(0, flag), "sunday": V(0, flag), "startDate": V("2020-01-01", date), "endDate": V("2030-01-01", date),
         "isEnabled": V(1, flag), "simulationUuid": "",
         **more({"simulationUuid": lambda: r.choice(("", mkuuid(r))), "onlyDates": lambda: [x for x in (date(), date()) if x], "exceptDates": lambda: [x for x in (date(),) if x], "isFrozen": flag,
                 "internalId": lambda: "s"}), **({"internalId": internal("", "services")} if ds.get("bulk") else {})} for s in ds["services"]]})
    out["nodes"] = message("nodeCollection.NodeCollection", {"nodes": [
        {"uuid": n["uuid"], "id": ids[i], "code": n["code"], "name": n["name"], "internalId": internal(f"n{i}", "nodes"),
         "latitude": n["lat"], "longitude": n["lon"], "isEnabled": V(1, flag),
         **more({"routingRadiusMeters": short, "defaultDwellTimeSeconds": short, "isFrozen": flag})} for i, n in enumerate(N)]})
    tr = {i: [] for i in range(len(N))}
    for a, b, t, d in ds["foot"]:
        tr[a].append((U("nodes", b), t, d))
    for i, n in enumerate(N):
        out["nodes/node_" + n["uuid"]] = message("node.Node", {
            "uuid": n["uuid"], "id": ids[i], "code": n["code"], "name": n["name"], "latitude": n["lat"],
            "longitude": n["lon"], "isEnabled": V(1, flag),
            **more({"routingRadiusMeters": short, "defaultDwellTimeSeconds": short, "isFrozen": flag}),
            "transferableNodesUuids": [b for b, _, _ in tr[i] + n.get("extra", [])],
            "transferableNodesTravelTimes": [t for _, t, _ in tr[i] + n.get("extra", [])][:n.get("keepTimes")],
            "transferableNodesDistances": [d for _, _, d in tr[i] + n.get("extra", [])][:n.get("keepDistances")]})
    lrec = [{"uuid": l["uuid"], "internalId": internal(f"l{i}", "lines"), "mode": l["mode"], "agencyUuid": l.get("agencyUuid", U("agencies", l["agency"])),
             "shortname": l["short"], "longname": l["long"], "isEnabled": V(1, flag),
             "allowSameLineTransfers": l.get("same", V(0, flag)),
             **more({"category": lambda: "C+", "color": lambda: "#00ff00", "isAutonomous": flag, "description": lambda: "d", "isFrozen": flag})} for i, l in enumerate(L)]
    out["lines"] = message("lineCollection.LineCollection", {"lines": lrec})
    for i, l in enumerate(L):
        groups = {}
        for t in T:
            if t["line"] == i:
                groups.setdefault(t.get("serviceUuid", U("services", t["service"])), []).append(t)
        scheds = []
        groups = list(groups.items())
        if v is not None and r.random() < .3:               # a service's trips in several schedules, in any order
            groups = [(s, part) for s, ts in groups for part in (ts[::2], ts[1::2])]
            r.shuffle(groups)
        for s, ts in groups:
            k = (len(ts) + 1) // 2 if len(ts) > 2 else len(ts)
            periods = [ts[:k], ts[k:]]
            if v is not None and r.random() < .3:           # as many periods as trips, and empty ones
                periods = [[]] + [[t] for t in ts] + [[]]
            scheds.append({"uuid": s if v is None else mkuuid(r), "serviceUuid": s,
                           **more({"periodsGroupShortname": lambda: "g", "allowSecondsBasedSchedules": flag, "isFrozen": flag}), "periods": [
                {"periodShortname": V(f"p{j}", lambda: "p"),
                 **more({"customStartAtSeconds": short, "startAtSeconds": short, "endAtSeconds": short, "intervalSeconds": short, "numberOfUnits": short,
                         "isFrozen": flag, "outboundPathUuid": lambda: mkuuid(r)}), "trips": [
                    {"uuid": t["uuid"], "pathUuid": t.get("pathUuid", U("paths", t["path"])),
                     "departureTimeSeconds": t["dep"][0] if t["dep"] else 0,
                     "arrivalTimeSeconds": t["arr"][-1] if t["arr"] else 0,
                     "nodeArrivalTimesSeconds": t["arr"], "nodeDepartureTimesSeconds": t["dep"],
                     "nodesCanBoard": t["cb"], "nodesCanUnboard": t["cu"],
                     "totalCapacity": V(50, short), "seatedCapacity": V(20, short),
                     **more({"blockUuid": lambda: r.choice(("", mkuuid(r))), "isFrozen": flag})} for t in per]}
                for j, per in enumerate(periods) if per or v is not None]})
        out["lines/line_" + l["uuid"]] = message("line.Line", dict(lrec[i], schedules=scheds, **({"internalId": ""} if ds.get("bulk") else {})))
    out["paths"] = message("pathCollection.PathCollection", {"paths": [
        {"uuid": p["uuid"], "id": V(i + 1, lambda: r.choice((0, i, i + 1, 2 ** 31 - 1))), "direction": p.get("direction", V("outbound", lambda: r.choice(("outbound", "inbound", "loop", "other", "")))), "lineUuid": p.get("lineUuid", U("lines", p["line"])), "name": f"p{i}",
         "nodesUuids": p.get("nodesUuids", [U("nodes", n) for n in p["nodes"]]), "internalId": internal(f"p{i}", "paths"),
         "data": p["data"] if "data" in p else json.dumps({"segments": [{"distanceMeters": d, "travelTimeSeconds": tt}
                                          for d, tt in zip(p["dist"], p.get("tts") or [V(60, lambda: r.choice((0, 60, 99999))) for _ in p["dist"]])]})}
        for i, p in enumerate(P)]})
    out["scenarios"] = message("scenarioCollection.ScenarioCollection", {"scenarios": [
        {"uuid": s["uuid"], "name": s["name"], "isEnabled": V(1, flag), "simulationUuid": "", **more({"isFrozen": flag, "simulationUuid": lambda: r.choice(("", mkuuid(r)))}),
         "servicesUuids": [U("services", x) for x in s["services"]] + s.get("moreServices", []),
         "onlyLinesUuids": [U("lines", x) for x in s["onlyLines"]] + s.get("moreOnlyLines", []),
         "exceptLinesUuids": [U("lines", x) for x in s["exceptLines"]] + s.get("moreExceptLines", []),
         "onlyAgenciesUuids": [U("agencies", x) for x in s["onlyAgencies"]],
         "exceptAgenciesUuids": [U("agencies", x) for x in s["exceptAgencies"]] + s.get("moreExceptAgencies", []),
         "onlyNodesUuids": s.get("onlyNodesUuids", []), "exceptNodesUuids": s.get("exceptNodesUuids", []),
         "onlyModesShortnames": s["onlyModes"], "exceptModesShortnames": s["exceptModes"]}
        for s in ds["scenarios"]]})
    if "dataSources" in ds:
        out["dataSources"] = message("dataSourceCollection.DataSourceCollection", {"dataSources": [
            {"uuid": d["uuid"], "shortname": f"ds{i}", "name": f"Data source {i}", "type": d.get("type", 1)}
            for i, d in enumerate(ds["dataSources"])]})
        for i, d in enumerate(ds["dataSources"]):
            out[f"dataSources/{d['uuid']}/persons"] = message("personCollection.PersonCollection", {"persons": [
                {"uuid": p["uuid"], "dataSourceUuid": p.get("dataSourceUuid", d["uuid"]), "id": j, "expansionFactor": 1.0, "age": 30,
                 "internalId": f"pp{j}"} for j, p in enumerate(d.get("persons", []))]})
            out[f"dataSources/{d['uuid']}/odTrips"] = message("odTripCollection.OdTripCollection", {"odTrips": [
                {"uuid": o["uuid"], "dataSourceUuid": o.get("dataSourceUuid", d["uuid"]), "personUuid": o.get("personUuid", d["persons"][o["person"]]["uuid"]),
                 "id": j, "expansionFactor": 1.0, "departureTimeSeconds": 36000, "arrivalTimeSeconds": 37000,
                 "walkingTravelTimeSeconds": 500, "internalId": f"od{j}",
                 "originNodesUuids": [U("nodes", x) for x in o["onodes"]],
                 "originNodesTravelTimes": [60] * o.get("times", len(o["onodes"])), "originNodesDistances": [70] * len(o["onodes"]),
                 "destinationNodesUuids": [U("nodes", x) for x in o["dnodes"]] + o.get("moreNodes", []),
                 "destinationNodesTravelTimes": [60] * o.get("dtimes", len(o["dnodes"])),
                 "destinationNodesDistances": [70] * len(o["dnodes"])}
                for j, o in enumerate(d.get("odTrips", []))]})
    return out


def write(ds, directory, fs=None):
    fs = fs if fs is not None else files(ds)
    made = set()
    for name, data in fs.items():
        p = os.path.join(directory, name + ".capnpbin")
        d = os.path.dirname(p)
        if d not in made:
            os.makedirs(d, exist_ok=True)
            made.add(d)
        with open(p, "wb") as f:
            f.write(data)


def admits(ds, s, t):
    """scenario admission of a trip - used only to build the physically filtered copy of C11"""
    sc, tr = ds["scenarios"][s], ds["trips"][t]
    ln = ds["lines"][tr["line"]]
    if sc["services"] and tr["service"] not in sc["services"]:
        return False
    if sc["onlyLines"] and tr["line"] not in sc["onlyLines"]:
        return False
    if tr["line"] in sc["exceptLines"]:
        return False
    if sc["onlyAgencies"] and ln["agency"] not in sc["onlyAgencies"]:
        return False
    if ln["agency"] in sc["exceptAgencies"]:
        return False
    if sc["onlyModes"] and ln["mode"] not in sc["onlyModes"]:
        return False
    if ln["mode"] in sc["exceptModes"]:
        return False
    return True


def shifted(ds, off):
    d = copy.deepcopy(ds)
    for t in d["trips"]:
        t["arr"] = [x + off for x in t["arr"]]
        t["dep"] = [x + off for x in t["dep"]]
    return d


def coord(p):
    """'lon,lat' exactly as the server prints it towards the walking router (6 decimals)"""
    return f"{p['lon'] / 1e6:.6f},{p['lat'] / 1e6:.6f}"

"""C14: forced schedules of concurrent requests (from module ScenarioCache), free-running load, thread and address sanitizers."""
import json
import multiprocessing
import os
import random
import re
import shutil
import threading
import time

import build
import campaign as C
import dataset as D
import gen
import history as H
import http.client
import sched
import server as S
import tlc

MUTANTS = {"key", "borrow", "scratch", "swap", "reread", "forget", "tornread", "tornwrite"}
#        schedules of 3, share of 2, stress runs, requests per stress client
SIZE = {"quick": (200, 1, 8, 60), "thorough": (8000, 12, 120, 250)}
NSCEN = 56


def schedules(seed, n3, rep):
    out, st = tlc.run("ScenarioCache", workers=4)
    parse = lambda o: [(m, [int(x) for x in s.split(",")], int(w), [int(x) - 1 for x in q.split(",")]) for m, s, w, q in
                       re.findall(r'<<\s*"S",\s*"(\w+)",\s*<<([\d, ]+)>>,\s*(\d+),\s*<<([\d, ]+)>>\s*>>', o)]
    two = sorted(set(map(repr, parse(out))))
    two = [eval(x) for x in two]                                      # printed by our own TLC run
    o3, st3 = tlc.run("ScenarioCache", cfg="ScenarioCache3", workers=4,
                      args=("-simulate", f"num={n3}", "-depth", "14", "-seed", str(seed)))
    three = parse(o3)
    om, stm = tlc.run("ScenarioCache", cfg="ScenarioCacheMutants", workers=4)
    caught = set(re.findall(r'<<"M", "(\w+)">>', om))
    if caught != MUTANTS:
        raise tlc.TlcError(f"wrong cache variants not told apart by the model: {MUTANTS - caught}")
    return two * rep, three, st["distinct"] + stm["distinct"], st["states"] + stm["states"]


SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|ERROR: LeakSanitizer|WARNING: ThreadSanitizer: [^\n]*)")


def san_reports(path):
    """sanitizer reports that involve the project's own code"""
    try:
        text = open(path, errors="replace").read()
    except OSError:
        return []
    out = []
    for blk in re.split(r"={10,}", text):
        m = SAN.search(blk)
        if m and (build.REPO + "/" in blk or "trRouting" in blk):
            fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?([^\n]*?" + re.escape(build.REPO) + r"/[^\s)]*)", blk)
            out.append(m.group(1) + " at " + "; ".join(fr[:4]))
    return out


def bases(rng, ds, sv, k):
    """k queries, each with its idle answer under every scenario"""
    out = []
    for var in H.discriminating(rng, ds, sv, k, tries=14, scen=6):
        ans = []
        for s in range(len(ds["scenarios"])):
            t = H.target(ds, dict(var[0], s=s))
            st, h, b = sv.get_raw(t)
            ans.append((t, H.canon(st, b)))
        out.append(ans)
    return out


def pick(rng, bs, pool, n):
    """n concrete scenarios out of the pool whose answers differ from each other as much as possible"""
    best = None
    for _ in range(12):
        c = rng.sample(pool, n)
        score = sum(len({H.result_part(b[s][1]) for s in c}) for b in bs)
        if best is None or score > best[0]:
            best = (score, c)
    return best[1]


def dataset(rng):
    for _ in range(20):
        ds = gen.dataset(rng, special=.05, nodes=rng.randint(4, 7))
        if len(ds["lines"]) >= 3:
            break
    return H.many_scenarios(rng, ds, NSCEN)


def _replay(a):
    """one dataset, one cache setting, a list of schedules on the address-sanitizer build"""
    seed, i, mode, scheds = a
    rng = random.Random(f"C14/{seed}/{i}")
    ds = dataset(rng)
    router = C._W["router"]
    router.set_dataset(ds)
    d = S.scratch()
    runs, reports = [], []
    ctl = sched.Control()
    log = os.path.join(d, "server.log")
    sv = None

    def start():
        ctl.reset()
        return S.Server(C._W["asan"], d, router, all_sets=mode == "all", threads=8, memory=None, log=log,
                        env={"TRROUTING_VERIF_CTL": ctl.path, "ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=64"})
    try:
        D.write(ds, d)
        with S.Server(C._W["bin"], d, router, all_sets=True) as idle:
            bs = bases(rng, ds, idle, 5)
        fresh = []
        used = None
        for m, scen, warm, sq in scheds:
            n = len(scen)
            need = 3
            if sv is None or not sv.alive() or (mode == "all" and len(fresh) < need):
                if sv:
                    sv.kill()
                    reports += san_reports(log)
                sv = start()
                fresh = list(range(len(ds["scenarios"])))
                used = None
            conc = pick(rng, bs, [s for s in fresh if s != used], need)
            if mode == "all":
                fresh = [s for s in fresh if s not in conc]
            qb = [rng.randrange(len(bs)) for _ in range(n)] if rng.random() < .6 else [rng.randrange(len(bs))] * n
            seq = lambda s, b: sched.run(ctl, sv.port, [bs[b][s][0]], [])
            cold = None
            if warm:
                seq(conc[warm - 1], qb[0])
            elif mode == "one" and used in conc:
                seq(next(s for s in range(len(ds["scenarios"])) if s not in conc), qb[0])
            targets = [bs[qb[q]][conc[scen[q] - 1]] for q in range(n)]
            ev, res = sched.run(ctl, sv.port, [t for t, _ in targets], sq)
            got = [H.canon(int(l.split()[1]), b) if l.startswith("HTTP") else l for l, b in res]
            # what later requests get, the scenarios used in some order
            later, want = [], []
            for s in rng.sample(conc, need):
                b = rng.randrange(len(bs))
                _, r = seq(s, b)
                later.append(H.canon(int(r[0][0].split()[1]), r[0][1]) if r[0][0].startswith("HTTP") else r[0][0])
                want.append(bs[b][s][1])
                used = s
            runs.append({"mode": m, "scen": (scen + [1, 1])[:3], "warm": warm, "events": [[q + 1, p] for q, p in ev if p != "start"],
                         "got": got, "idle": [x for _, x in targets], "later": later, "laterIdle": want, "alive": sv.alive(),
                         "targets": [t for t, _ in targets], "sched": sq, "distinct": len({H.result_part(x) for _, x in targets}),
                         "warmTarget": bs[qb[0]][conc[warm - 1]][0] if warm else None})
        if sv:
            sv.kill()
            reports += san_reports(log)
        return ds, runs, reports, None
    except S.Crash as e:
        return ds, runs, reports + san_reports(log), str(e)
    finally:
        if sv:
            sv.kill()
        ctl.close()
        shutil.rmtree(d, ignore_errors=True)


def load(sv, jobs, nclients, results):
    """every client sends its list of requests, all at once"""
    go = threading.Barrier(nclients)

    def client(k):
        c = http.client.HTTPConnection("127.0.0.1", sv.port, timeout=60)
        go.wait()
        for t, want in jobs[k]:
            try:
                c.request("GET", t)
                r = c.getresponse()
                b = r.read()
                results[k].append((t, want, H.canon(r.status, b)))
                if r.will_close:
                    c.close()
            except (OSError, http.client.HTTPException) as e:
                results[k].append((t, want, f"dead {e!r}"))
                c.close()
    th = [threading.Thread(target=client, args=(k,)) for k in range(nclients)]
    for x in th:
        x.start()
    for x in th:
        x.join()


def _stress(a):
    """free-running clients, no held points: on the thread-sanitizer build, or on the plain one with threads that pause
    around locks"""
    seed, i, nreq = a
    rng = random.Random(f"C14s/{seed}/{i}")
    ds = dataset(rng)
    router = C._W["router"]
    router.set_dataset(ds)
    slow = i % 2 == 0
    mode = i // 2 % 4 == 3 if slow else i // 2 % 2 == 1               # the single kept set is the one which is replaced
    euclid = i // 4 % 2 == 0 or slow and not mode
    binary = C._W["bin"] if slow else C._W["tsan"]
    env = {"LD_PRELOAD": C._W["slow"]} if slow else {"TSAN_OPTIONS": "halt_on_error=0:report_signal_unsafe=0:history_size=4"}
    d = S.scratch()
    log = os.path.join(d, "server.log")
    n = 7 if slow else 6
    try:
        D.write(ds, d)
        with S.Server(C._W["bin"], d, router, all_sets=True, euclid=euclid) as idle:
            bs = bases(rng, ds, idle, 5)
        jobs = []
        few = pick(rng, bs, range(NSCEN), rng.choice((2, 3) if slow else (2, 3, 8)))
        for k in range(n):
            # runs of the same scenario, and switches: the kept set is replaced while others still use it
            jobs.append([bs[rng.randrange(len(bs))][rng.choice(few) if slow or rng.random() < .8 else rng.randrange(NSCEN)]
                         for _ in range(nreq * (3 if slow else 1))])
        results = [[] for _ in range(n)]
        with S.Server(binary, d, router, all_sets=mode, euclid=euclid, threads=8, memory=None, log=log,
                      env=env) as sv:
            load(sv, jobs, n, results)
            later = [(t, w) + (H.canon(*(lambda r: (r[0], r[2]))(sv.get_raw(t))),) for t, w in (bs[0][s] for s in few)] if sv.alive() else []
            alive = sv.alive()
        return ds, mode, euclid, binary, [r for x in results for r in x], later, alive, san_reports(log), None
    except S.Crash as e:
        return ds, mode, euclid, binary, [], [], False, san_reports(log), str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _race(a):
    """forced schedules on the thread-sanitizer build: the held points order the threads, the sanitizer sees what the
    code's own locks do (the driver's sockets carry no happens-before for it)"""
    seed, i, mode, scheds = a
    saved = C._W["asan"]
    C._W["asan"] = C._W["tsan"]
    try:
        os.environ["TSAN_OPTIONS"] = "halt_on_error=0:history_size=4"
        return _replay((seed, f"race{i}", mode, scheds))
    finally:
        C._W["asan"] = saved


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        n = 0
        with open(f, "w") as fh:
            for j, r in enumerate(runs):
                ids = {}
                num = lambda x: ids.setdefault(x, len(ids) + 1)
                rec = {"id": j + 1, "mode": r["mode"], "scen": r["scen"], "warm": r["warm"], "events": r["events"], "alive": r["alive"],
                       **{k: [num(x) for x in r[k]] for k in ("got", "idle", "later", "laterIdle")}}
                n += len(r["events"]) + 2
                fh.write(json.dumps(rec) + "\n")
        out, st = tlc.run("CacheTrace", env={"TRACE": f})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != n:
        raise tlc.TlcError(f"trace not consumed: {st} {n}\n" + out[-2000:])
    return {k - 1: v for k, v in tlc.verdicts(out).items()}, st


def _init(bins):
    C._init(bins["plain"])
    C._W["asan"] = bins["asan"]
    C._W["tsan"] = bins["tsan"]
    C._W["slow"] = bins["slow"]


def run(ctx):
    n3, rep, nstress, nreq = SIZE[ctx.tier]
    bins = {v: build.build(v) for v in ("plain", "asan", "tsan")}
    bins["slow"] = build.perturb()
    two, three, ms, mt = schedules(ctx.seed, n3, rep)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": ms, "transitions": mt, "traces_validated_against_impl": 0,
           "schedules_two_exhaustive": len(two), "schedules_three": len(three), "model_mutants_told_apart": len(MUTANTS),
           "stress_requests": 0, "race_schedules": 0, "drift": 0, "samples": [],
           "rule": "all interleavings of two requests over two scenarios (both settings, cold/warm) at the four points, replayed on the "
                   "address-sanitizer build; simulated interleavings of three; free-running load and a share of the schedules on the "
                   "thread-sanitizer build; non-trivial: runs whose idle answers differ between the queries"}
    rng = random.Random(f"C14/{ctx.seed}")
    tasks = []
    for mode in ("one", "all"):
        l = [s for s in two + three if s[0] == mode]
        rng.shuffle(l)
        for j in range(0, len(l), 36):
            tasks.append((ctx.seed, f"{mode}{j}", mode, l[j:j + 36]))
    rng.shuffle(tasks)
    race = [(ctx.seed, j, t[2], t[3][:20]) for j, t in enumerate(tasks[:max(8, len(tasks) // 6)])]
    pend = []

    def flush():
        if not pend:
            return
        bad, st = judge([r for _, r in pend])
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        for k, v in sorted(bad.items()):
            ds, r = pend[k]
            if v == {"drift"}:
                cov["drift"] += 1
                if len(ctx.notes) < 5:
                    ctx.notes.append(f"drift {r['mode']} scen={r['scen']} warm={r['warm']} sched={r['sched']} events={r['events']}")
                continue
            if not repeat(bins, ds, r):
                ctx.notes.append(f"did not repeat: {sorted(v)}")
                # a schedule that is forced repeats; a lost race may not, and the wrong answer was real
                if not any(a != b for a, b in zip(r["got"], r["idle"])) and r["alive"]:
                    continue
            ctx.violate(f"{', '.join(sorted(v - {'drift'}))}: concurrent requests are not answered like on an idle server",
                        {"dataset": ds, "run": r})
        pend.clear()

    def absorb(res, kind):
        ds, runs, reports, err = res
        for x in dict.fromkeys(reports):
            ctx.violate(f"C14.sanitizer: {x}", {"dataset": ds, "report": x, "runs": runs[-3:]})
        if err and not reports:
            ctx.violate(f"C14.alive: {err}", {"dataset": ds, "error": err, "runs": runs[-3:]})
        for r in runs:
            pend.append((ds, r))
            cov["evaluations"] += len(r["got"]) + len(r["later"])
            cov["traces_validated_against_impl"] += 1
            cov["distinct_nontrivial"] += r["distinct"] > 1
            cov["race_schedules"] += kind == "race"
            if len(cov["samples"]) < 2 and len(r["events"]) > 6:
                cov["samples"].append({k: r[k] for k in ("mode", "scen", "warm", "sched", "events", "targets")})

    with multiprocessing.get_context("fork").Pool(C.NPROC, _init, (bins,)) as pool:
        stress = pool.imap_unordered(_stress, [(ctx.seed, i, nreq) for i in range(nstress)])
        jobs = [("asan", pool.imap_unordered(_replay, tasks)), ("race", pool.imap_unordered(_race, race))]
        for ds, mode, euclid, binary, res, later, alive, reports, err in stress:
            for x in dict.fromkeys(reports):
                ctx.violate(f"C14.sanitizer: {x}", {"dataset": ds, "report": x, "cache_all": mode, "euclid": euclid})
            if err or not alive:
                ctx.violate(f"C14.alive: {err or 'the server ended under load'}", {"dataset": ds, "cache_all": mode, "euclid": euclid})
            cov["stress_requests"] += len(res)
            cov["evaluations"] += len(res) + len(later)
            wrong = [x for x in res + later if x[1] != x[2]]
            if wrong:
                ctx.violate(f"C14.load: {len(wrong)} of {len(res)} answers under concurrent load differ from the idle server's",
                            {"dataset": ds, "cache_all": mode, "euclid": euclid, "wrong": wrong[:5]})
        for kind, it in jobs:
            for res in it:
                absorb(res, kind)
                if len(pend) > 2000:
                    flush()
                if time.time() > ctx.deadline or len(ctx.violations) > 6:
                    break
        pool.terminate()
    flush()
    return "model_checking", cov, ["held points: the four hook points of getConnectionsForScenario; between them the threads run freely",
                                   "idle answers come from the same binary serving one request at a time"]


def repeat(bins, ds, r):
    """the same schedule once more on a fresh server"""
    _init(bins)
    router = C._W["router"]
    router.set_dataset(ds)
    d = S.scratch()
    ctl = sched.Control()
    try:
        D.write(ds, d)
        with S.Server(bins["asan"], d, router, all_sets=r["mode"] == "all", threads=8, memory=None,
                      env={"TRROUTING_VERIF_CTL": ctl.path, "ASAN_OPTIONS": "detect_leaks=0"}) as sv:
            if r["warmTarget"]:
                sched.run(ctl, sv.port, [r["warmTarget"]], [])
            ev, res = sched.run(ctl, sv.port, r["targets"], r["sched"])
            got = [H.canon(int(l.split()[1]), b) if l.startswith("HTTP") else l for l, b in res]
            return got != r["idle"] or not sv.alive()
    except S.Crash:
        return True
    finally:
        ctl.close()
        shutil.rmtree(d, ignore_errors=True)

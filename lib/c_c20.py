"""C20: behaviours of module Router (lookups, faults, recoveries, requests in flight together) replayed on the real server."""
import json
import multiprocessing
import os
import random
import re
import shutil
import socket
import struct
import threading
import time

import build
import campaign as C
import c_c14
import dataset as D
import gen
import history as H
import server as S
import tlc

MUTANTS = {"die", "part", "sticky", "memo", "stale", "leak", "swallow", "keepbad", "global"}
SIZE = {"quick": (100, 110), "thorough": (1500, 1500)}      # histories with one request at a time, with two in flight
NP = 4
REASONS = {"NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION",
           "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE"}
CODES = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE",
         "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE", "INVALID_NUMERICAL_DATA",
         "PARAM_ERROR_UNKNOWN"}


# ---------------------------------------------------------------- concrete forms of the faults
def _table(dur, dist):
    return {"code": "Ok", "durations": [dur], "distances": [dist]}


def _reset(c):
    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))


def concrete(rng, name):
    """a function sending the faulty reply, and a word saying what it is"""
    j = json.dumps
    ch = rng.choice

    def raw(f):
        def send(r, c, dur, dist):
            b = f(j(_table(dur, dist)).encode(), dur, dist)
            if b:
                c.sendall(b)
        return send

    head = lambda n, extra="": (f"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n" +
                                (f"Content-Length: {n}\r\n" if n is not None else "") + extra + "Connection: close\r\n\r\n").encode()
    whole = lambda b: head(len(b)) + b
    if name == "drop":
        return raw(lambda b, u, v: b""), "closes"
    if name == "reset":
        k = ch((0, 0, 20, 200))

        def send(r, c, dur, dist):
            b = whole(j(_table(dur, dist)).encode())
            if k:
                c.sendall(b[:min(k, len(b) - 1)])
            _reset(c)
        return send, f"resets after {k} bytes"
    if name == "cuthead":
        k = ch((1, 5, 9, 12, 15, 16, 17, 30, 60))
        return raw(lambda b, u, v: whole(b)[:min(k, len(head(len(b))) - 1)]), f"header cut at {k}"
    if name == "cutbody":
        x = rng.random()
        return raw(lambda b, u, v: head(len(b)) + b[:int(x * len(b))]), f"body cut at {x:.2f}"
    if name == "cutchunk":
        x = rng.random()

        def cut(b, u, v):
            n = max(1, len(b) // 2)
            full = (b"%x\r\n" % n) + b[:n] + b"\r\n" + (b"%x\r\n" % (len(b) - n)) + b[n:] + b"\r\n0\r\n\r\n"
            end = len(full) - 12 if x > .8 else int(x * (len(full) - 12))
            return head(None, "Transfer-Encoding: chunked\r\n") + full[:end]
        return raw(cut), f"chunks cut at {x:.2f}"
    if name == "status":
        st = ch(("400 Bad Request", "404 Not Found", "500 Internal Server Error", "503 Service Unavailable", "429 Too Many Requests",
                 "302 Found", "502 Bad Gateway", "504 Gateway Timeout", "401 Unauthorized"))
        bodied = rng.random() < .6
        return raw(lambda b, u, v: (lambda x: f"HTTP/1.1 {st}\r\nContent-Length: {len(x)}\r\nConnection: close\r\n\r\n".encode() + x)
                   (b if bodied else ch((b"", b"oops", b'{"code":"InvalidQuery","message":"x"}')))), f"status {st}, {'with' if bodied else 'no'} table"
    if name == "cutlen":
        x = rng.random()
        return raw(lambda b, u, v: whole(b[:int(x * (len(b) - 1))])), f"shortened to {x:.2f}"
    if name == "cutopen":
        x = rng.random()
        return raw(lambda b, u, v: head(None) + b[:int(x * (len(b) - 1))]), f"no length, shortened to {x:.2f}"
    if name == "empty":
        k = ch((0, 1, 2))
        return raw(lambda b, u, v: whole(b"") if k == 0 else head(None) if k == 1 else whole(b" \n")), f"empty {k}"
    if name == "notjson":
        t = ch((b"<html><body>502</body></html>", b"durations", b"{", b"\xff\xfe\x00\x01", b"nan", b'{"durations":[[0,1]', b"\x00" * 50,
                b"{'durations': [[0]]}", b'{"durations":[[0,NaN]],"distances":[[0,NaN]]}', b"[" * 3000, b"OK"))
        after = rng.random() < .2 and b"\0" not in t
        return raw(lambda b, u, v: whole(b + t) if after else whole(t)), f"not JSON: {t[:30]!r}{' after the table' if after else ''}"
    if name == "nodurations":
        k = rng.randrange(13)

        def body(b, u, v):
            return whole(j([{"code": "Ok"}, {"code": "NoTable", "message": "x"}, {"code": "Ok", "distances": [v]},
                            {"code": "Ok", "durations": None, "distances": [v]}, {"durations": [], "distances": []},
                            {"durations": [None], "distances": [None]}, {}, [], None, 5, "durations", True,
                            {"durations": None, "distances": None}][k]).encode())
        return raw(body), f"no durations {k}"
    if name in ("null", "nulldist"):
        x, k = rng.random(), rng.randrange(3)

        def nul(b, u, v):
            u, v = list(u), list(v)
            i = 1 + int(x * (len(u) - 1))
            if name == "nulldist":
                v[i] = None
            elif k == 0:
                u[i] = None
            elif k == 1:
                u[i] = v[i] = None
            else:
                u = [None] * len(u)
                v = [None] * len(v)
            return whole(j(_table(u, v)).encode())
        return raw(nul), f"{name} {k}"
    if name == "fewer":
        x, k = rng.random(), rng.randrange(4)

        def few(b, u, v):
            n = int(x * len(u)) if rng.random() < .6 else len(u) - 1
            if n == 0 and k != 2:
                n = 1
            return whole(j(_table(u[:n] if k != 1 else u, v[:n] if k != 2 else v)).encode())
        return raw(few), f"fewer entries {k}"
    if name == "odd":
        k = rng.randrange(7)

        def odd(b, u, v):
            if k < 3:
                n = ch((1, 2, 50, 5000))
                return whole(j(_table(u + [u[-1] // 9] * n, v + [v[-1] // 9] * (n if k else 0))).encode())
            return whole([j(_table([str(x) for x in u], v)).encode(), j(_table([{"a": x} for x in u], v)).encode(),
                          b"[" * 20000 + b"]" * 20000, j(dict(_table([u], [v]), x="y" * 200000)).encode()][k - 3])
        return raw(odd), f"odd {k}"
    raise KeyError(name)


class Gate(S.Router):
    """the stand-in, with every lookup held until it is told how to reply"""

    def __init__(self):
        self.cv = threading.Condition()
        self.held = {}                  # place index -> slot
        self.open = True                # reply at once, healthy
        self.count = 0
        super().__init__()
        # a port bound by name stays ours while nothing listens on it
        self.stop = True
        self.ls.close()
        self.th.join(2)
        self.stop = False
        while True:
            self.ls = socket.socket()
            self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            p, fd = S.free_port()
            try:
                self.ls.bind(("127.0.0.1", p))
                self.port, self.portfd = p, fd
                break
            except OSError:
                S.release_port(p, fd)
                self.ls.close()
        self.ls.listen(64)
        self.up = threading.Event()
        self.up.set()
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()

    def run(self):
        if not hasattr(self, "up"):
            return

    def loop(self):
        while not self.stop:
            try:
                c, _ = self.ls.accept()
            except OSError:
                if self.stop:
                    return
                self.up.wait(1)
                time.sleep(0.0005)
                continue
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            self.handle(c)
        except Exception as e:
            self.log.append(("error", repr(e)))
        finally:
            try:
                c.close()
            except OSError:
                pass

    def refuse(self, yes):
        if yes:
            self.up.clear()
            self.ls.shutdown(socket.SHUT_RDWR)
        else:
            self.ls.listen(64)
            self.up.set()

    def wait_fault(self, n, place):
        pi = self.placeix.get(place)
        with self.cv:
            self.count += 1
            if self.open or pi is None:
                return None
            slot = {"go": False, "fault": None}
            self.held.setdefault(pi, []).append(slot)
            self.cv.notify_all()
            while not slot["go"] and not self.open:
                self.cv.wait(1)
            return slot["fault"]

    def set_dataset(self, ds):
        super().set_dataset(ds)
        self.fault = self.wait_fault

    def release(self, place, fault):
        with self.cv:
            slot = self.held[place].pop(0)
            slot["fault"], slot["go"] = fault, True
            self.cv.notify_all()


class Client:
    """one kept-alive connection; reads exactly one response and notices anything beyond it"""

    def __init__(self, port):
        self.port = port
        self.s = None
        self.rest = b""

    def get(self, target, timeout=60):
        for attempt in (0, 1):
            fresh = self.s is None
            buf = b""
            try:
                if fresh:
                    self.s = socket.create_connection(("127.0.0.1", self.port), timeout)
                    self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.rest = b""
                if self.rest:
                    raise ValueError("bytes beyond the response: %r" % self.rest[:80])
                self.s.sendall(f"GET {target} HTTP/1.1\r\nHost: x\r\n\r\n".encode())
                while b"\r\n\r\n" not in buf:
                    d = self.s.recv(65536)
                    if not d:
                        raise OSError("closed before a response" if not buf else "closed inside a response")
                    buf += d
                h, _, b = buf.partition(b"\r\n\r\n")
                hs = h.decode("latin-1").split("\r\n")
                m = re.fullmatch(r"HTTP/1\.[01] (\d\d\d)( .*)?", hs[0])
                n = [x.split(":", 1)[1].strip() for x in hs[1:] if x.lower().startswith("content-length:")]
                if not m or len(n) != 1 or not n[0].isdigit():
                    raise ValueError(f"malformed header {hs}")
                n = int(n[0])
                while len(b) < n:
                    d = self.s.recv(65536)
                    if not d:
                        raise OSError("closed inside the body")
                    b += d
                self.rest = b[n:]
                return int(m.group(1)), hs[1:], b[:n]
            except OSError as e:
                self.close()
                if fresh or buf:
                    raise S.Crash(f"no answer to {target}: {e!r}")

    def close(self):
        if self.s:
            self.s.close()
        self.s = None


def kind(st, body, fresh):
    """the documented form of an answer"""
    try:
        a = json.loads(body)
    except ValueError:
        return "malformed"
    f = json.loads(fresh.split("|", 1)[1])
    if not isinstance(a, dict):
        return "malformed"
    if st == 200 and a.get("status") == "no_routing_found" and a.get("reason") in REASONS and a.get("query") == f.get("query"):
        return "noroute"
    if st == 400 and a.get("status") == "query_error" and a.get("errorCode") in CODES:
        return "error"
    if st == 200 and a.get("status") == "success" and isinstance(a.get("result"), dict) and a["result"].get("nbRoutes") == 0 \
            and a["result"].get("lines") == [] and a.get("query") == f.get("query"):
        return "noroute"                                     # the summary's way of saying so
    if st == 200 and a.get("status") == "success" and a.get("query") == f.get("query"):
        return "success"
    return "malformed"


class Driver:
    def __init__(self, rng, sv, gate, targets, fresh):
        self.rng, self.sv, self.gate, self.targets, self.fresh = rng, sv, gate, targets, fresh
        self.cl = {}
        self.fl = {}            # thread -> [places, faults, answer or None]
        self.events = []
        self.notes = []
        self.broken = None

    def _ask(self, t, f, tg):
        try:
            if t not in self.cl:
                self.cl[t] = Client(self.sv.port)
            r = self.cl[t].get(tg)
        except (S.Crash, ValueError) as e:
            r = e
        with self.gate.cv:
            f["answer"] = r
            self.gate.cv.notify_all()

    def settle(self, t):
        """until the request of t waits at the router or has its answer"""
        f = self.fl[t]
        end = time.time() + 60
        with self.gate.cv:
            while f["answer"] is None and not any(self.gate.held.get(p) for p in f["places"]):
                if time.time() > end:
                    f["answer"] = S.Crash(f"no answer within 60 s to {f['target']}")
                    break
                self.gate.cv.wait(0.5)
        if f["answer"] is None:
            return
        del self.fl[t]
        a = f["answer"]
        if isinstance(a, Exception):
            self.broken = str(a)
            self.events.append(["A", t, "dead" if isinstance(a, S.Crash) else "malformed", False])
            return
        st, hs, b = a
        c = H.canon(st, b)
        self.events.append(["A", t, kind(st, b, self.fresh[f["target"]]), c == self.fresh[f["target"]]])
        if len(self.events[-1]) and self.events[-1][2] == "malformed":
            self.notes.append([f["target"], st, b[:400].decode("latin-1")])
        elif not self.events[-1][3]:
            self.notes.append([f["target"], st, c[:600]])

    def start(self, t, r, refuse):
        if t in self.fl or any({p - 1 for p in r} & set(x["places"]) for x in self.fl.values()):
            return
        tg = self.rng.choice(self.targets[tuple(r)])
        f = {"places": [p - 1 for p in r], "answer": None, "target": tg}
        self.fl[t] = f
        self.events.append(["S", t, r, refuse, tg])
        if refuse:
            self.gate.refuse(True)
        threading.Thread(target=self._ask, args=(t, f, tg), daemon=True).start()
        self.settle(t)
        if refuse:
            self.gate.refuse(False)

    def reply(self, t, name, refuse):
        if t not in self.fl:
            return
        f = self.fl[t]
        p = [p for p in f["places"] if self.gate.held.get(p)][0]
        fault, word = (None, "") if name == "ok" else concrete(self.rng, name)
        self.events.append(["L", t, p + 1, name, refuse, word])
        if refuse:
            self.gate.refuse(True)
        self.gate.release(p, fault)
        self.settle(t)
        if refuse:
            self.gate.refuse(False)

    def play(self, hist):
        for e in hist:
            if self.broken:
                return
            if e[0] == "S":
                self.start(e[1], e[2], e[3])
            else:
                self.reply(e[1], e[2], e[3])
        for t in list(self.fl):
            while t in self.fl and not self.broken:
                self.reply(t, "ok", False)

    def close(self):
        for c in self.cl.values():
            c.close()


def make_targets(rng, ds, ask):
    """per shape of request a few concrete ones, mostly answered with a result"""
    out = {}
    for o in range(NP):
        for d in [None] + [x for x in range(NP) if x != o]:
            best = []
            for _ in range(5):
                fwd = rng.random() < .5
                p = gen.params(rng, ds, tight=.1, cap=rng.random() < .2)
                if d is None:
                    q = dict(gen.query(rng, ds, ep="access", fwd=fwd, p=p), o=o, d=o)
                else:
                    q = dict(gen.query(rng, ds, ep=rng.choice(("route", "route", "summary")), alt=rng.random() < .3, fwd=fwd, p=p), o=o, d=d)
                t = H.target(ds, q)
                c = ask(t)
                best.append(('"status": "success"' in c, rng.random(), t))
            best.sort(reverse=True)
            out[(o + 1,) if d is None else (o + 1, d + 1)] = [t for _, _, t in best[:2]]
    return out


def _task(a):
    seed, i, hists, threads = a
    rng = random.Random(f"C20/{seed}/{i}")
    ds = gen.dataset(rng, special=rng.choice((0, .1)), nodes=rng.randint(3, 6), places=NP)
    d = S.scratch()
    log = os.path.join(d, "server.log")
    gate = Gate()
    gate.set_dataset(ds)
    out = []
    try:
        D.write(ds, d)
        fresh = {}
        with S.Server(C._W["bin"], d, gate) as sv:
            def ask(t):
                if t not in fresh:
                    st, h, b = sv.get_raw(t)
                    fresh[t] = H.canon(st, b)
                return fresh[t]
            targets = make_targets(rng, ds, ask)
        unknown = [x for x in gate.log if x[0] == "unknown"]
        if unknown:
            return None, out, f"the server asked the router for unknown points: {unknown[0]}"
        with S.Server(C._W["asan"], d, gate, all_sets=rng.random() < .5, threads=threads, memory=None, log=log, nofile=40 + 8 * threads,
                      env={"ASAN_OPTIONS": "detect_leaks=0:quarantine_size_mb=32"}) as sv:
            for h in hists:
                gate.open = False
                gate.held.clear()
                dr = Driver(rng, sv, gate, targets, fresh)
                dr.play(h)
                with gate.cv:
                    gate.open = True
                    gate.cv.notify_all()
                dr.close()
                run = {"threads": threads, "events": dr.events, "notes": dr.notes, "alive": dr.broken is None and sv.alive(), "crash": dr.broken}
                # after the router has recovered: everything once more
                if run["alive"]:
                    try:
                        for t in rng.sample(sorted(fresh), min(6, len(fresh))):
                            st, hh, b = sv.get_raw(t)
                            run["events"].append(["Z", t, kind(st, b, fresh[t]), H.canon(st, b) == fresh[t]])
                    except S.Crash as x:
                        run["alive"], run["crash"] = False, str(x)
                out.append(run)
                if not run["alive"]:
                    break
            for r in out:
                r["reports"] = c_c14.san_reports(log)
        return ds, out, None
    except S.Crash as x:
        return ds, out, str(x)
    finally:
        gate.close()
        S.release_port(gate.port, gate.portfd)
        shutil.rmtree(d, ignore_errors=True)


def histories(seed, n1, n2):
    _, a = tlc.run("Router")
    o, b = tlc.run("Router", cfg="RouterMutants")
    caught = set(re.findall(r'<<"M", "(\w+)"', o))
    if caught != MUTANTS:
        raise tlc.TlcError(f"wrong router clients not told apart by the model: {MUTANTS - caught}")
    res = []
    for cfg, n in (("RouterHist1", n1), ("RouterHist", n2)):
        o, _ = tlc.run("Router", cfg=cfg, workers=1, args=("-simulate", f"num={n}", "-depth", "40", "-seed", str(seed)))
        got = {}
        for h in re.findall(r'<<"S", "(.*)">>', o):
            ev = json.loads(h.replace('\\"', '"').replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false"))
            got[json.dumps(ev[:-1])] = ev
        res.append(list(got.values()))
    return res[0], res[1], a["distinct"] + b["distinct"], a["states"] + b["states"]


STREAK = ("drop", "reset", "cuthead", "cutbody", "cutchunk", "status", "cutlen", "cutopen", "empty", "notjson", "nodurations", "null", "fewer",
          "nulldist", "odd")


def streaks(rng, n, threads):
    """the same fault (sometimes several kinds) many times in a row, the router healthy before and after: behaviours of the model whose
    faults are repeated"""
    out = []
    places = lambda t: rng.sample(range(1, NP + 1) if threads == 1 else (2 * t - 1, 2 * t), rng.choice((1, 2)))
    for j in range(n):
        each = len(STREAK) + 1                              # each fault alone, refused connections, then mixtures
        refuse = j % (each + 3) == len(STREAK)
        fs = [STREAK[j % (each + 3)]] if j % (each + 3) < len(STREAK) else rng.sample(STREAK, 3)
        h = []

        def ask(t, f):
            h.append(["S", t, places(t), f is not None and refuse])
            h.extend([["L", t, f and rng.choice(fs) or "ok", False]] * 4)
        for t in range(1, threads + 1):
            ask(t, None)
        for _ in range(rng.choice((4, 8, 12, 20))):
            for t in range(1, threads + 1):
                h.append(["S", t, places(t), refuse])
            for _ in range(4):
                for t in range(1, threads + 1):
                    h.append(["L", t, rng.choice(fs), False])
        for _ in range(2):
            for t in range(1, threads + 1):
                ask(t, None)
        out.append(h)
    return out


def judge(runs):
    d = S.scratch("tr")
    try:
        f = os.path.join(d, "trace.ndjson")
        n = 0
        with open(f, "w") as fh:
            for j, r in enumerate(runs):
                ev = [e[:4] if e[0] == "S" else e[:5] if e[0] == "L" else ["Z", 0, e[2], e[3]] if e[0] == "Z" else e for e in r["events"]]
                fh.write(json.dumps({"id": j + 1, "alive": r["alive"], "events": ev}) + "\n")
                n += len(ev) + 2
        out, st = tlc.run("RouterTrace", env={"TRACE": f})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if st["distinct"] != n:
        raise tlc.TlcError(f"trace not consumed: {st} {n}\n" + out[-3000:])
    first = {int(a) - 1: int(b) for a, b in re.findall(r'<<"F", (\d+), (\d+)>>', out)}
    return {k - 1: v for k, v in tlc.verdicts(out).items()}, first, st


def _init(bins):
    C._init(bins["plain"])
    C._W["asan"] = bins["asan"]


def run(ctx):
    n1, n2 = SIZE[ctx.tier]
    bins = {v: build.build(v) for v in ("plain", "asan")}
    one, two, ms, mt = histories(ctx.seed, n1, n2)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "states": ms, "transitions": mt, "traces_validated_against_impl": 0,
           "lookups": 0, "faults": {}, "answers": {}, "model_mutants_told_apart": len(MUTANTS), "samples": [],
           "rule": "behaviours printed by the model: requests, replies of the router, faults and refusals, one request at a time (server "
                   "with one thread) or two in flight (four threads), every lookup held until the behaviour replies to it; non-trivial: "
                   "faulted requests whose healthy answer is a result"}
    rng = random.Random(f"C20/{ctx.seed}")
    one += streaks(rng, max(38, n1 // 4), 1)
    two += streaks(rng, max(19, n2 // 4), 2)
    per = 4
    tasks = [(ctx.seed, f"1.{j}", one[j:j + per], 1) for j in range(0, len(one), per)]
    tasks += [(ctx.seed, f"2.{j}", two[j:j + per], 4) for j in range(0, len(two), per)]
    random.Random(ctx.seed).shuffle(tasks)
    pend = []

    def flush():
        if not pend:
            return
        bad, first, st = judge([r for _, r in pend])
        cov["states"] += st["distinct"]
        cov["transitions"] += st["states"]
        for k, v in sorted(bad.items()):
            ds, r = pend[k]
            pos = first.get(k, len(r["events"]))
            ctx.violate(f"{', '.join(sorted(v))}: {r['crash'] or r['events'][pos - 1]}",
                        {"dataset": ds, "threads": r["threads"], "events": r["events"][:pos], "notes": r["notes"], "crash": r["crash"],
                         "reports": r["reports"]})
        pend.clear()

    with multiprocessing.get_context("fork").Pool(C.NPROC, _init, (bins,)) as pool:
        for ds, runs, err in pool.imap_unordered(_task, tasks):
            if err:
                ctx.violate(f"C20.alive: {err}", {"dataset": ds, "error": err})
            for x in dict.fromkeys(x for r in runs for x in r.get("reports", [])):
                ctx.violate(f"C20.memory: {x}", {"dataset": ds, "events": runs[-1]["events"], "report": x})
            for r in runs:
                pend.append((ds, r))
                cov["traces_validated_against_impl"] += 1
                fl = {}
                for e in r["events"]:
                    if e[0] == "S":
                        fl[e[1]] = ["refuse"] if e[3] else []
                    elif e[0] == "L":
                        cov["lookups"] += 1
                        fl[e[1]] += [x for x in ([e[3]] if e[3] != "ok" else []) + (["refuse"] if e[4] else [])]
                    else:
                        cov["evaluations"] += 1
                        if e[0] == "A":
                            for x in fl.pop(e[1], []):
                                cov["faults"][x] = cov["faults"].get(x, 0) + 1
                                cov["distinct_nontrivial"] += 1
                        cov["answers"][e[2]] = cov["answers"].get(e[2], 0) + 1
                if len(cov["samples"]) < 2:
                    cov["samples"].append({"threads": r["threads"], "events": [e[:3] + e[3:] for e in r["events"][:14]]})
            if len(pend) > 300:
                flush()
            if time.time() > ctx.deadline or len(ctx.violations) > 6:
                break
        pool.terminate()
    flush()
    return "model_checking", cov, ["the router's replies come within the time the client waits (no lookup is left without a reply)"]

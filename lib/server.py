"""Runs the real server binary on a cache directory, with a scripted stand-in for the walking router."""
import fcntl
import http.client
import json
import os
import random
import resource
import shutil
import signal
import socket
import subprocess
import tempfile
import threading
import time
import zlib
import urllib.parse

import dataset as D

SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


def scratch(prefix="trv"):
    return tempfile.mkdtemp(prefix=prefix, dir=SCRATCH)


class Crash(Exception):
    pass


def free_port():
    """a port nothing listens on, reserved against the other processes of this check by a lock file"""
    rng = random.Random(os.urandom(8))
    for _ in range(400):
        p = rng.randrange(10000, 32000)
        fd = os.open(f"{SCRATCH}/trvport{p}", os.O_RDWR | os.O_CREAT, 0o600)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            os.close(fd)
            continue
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("0.0.0.0", p))
            return p, fd
        except OSError:
            release_port(p, fd)
        finally:
            s.close()
    raise RuntimeError("no port")


def release_port(p, fd):
    try:
        os.unlink(f"{SCRATCH}/trvport{p}")
    except OSError:
        pass
    os.close(fd)


class Router:
    """Stand-in for OSRM's table service.  `table(place_coord, [node_coord]) -> [(duration, distance)|None]`.
    `script(n, kind)` may return a fault name for the n-th exchange."""

    def __init__(self):
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(64)
        self.port = self.ls.getsockname()[1]
        self.ds = None
        self.fault = None          # callable(request index, place coordinate) -> fault or None
        self.n = 0
        self.log = []
        self.stop = False
        self.th = threading.Thread(target=self.run, daemon=True)
        self.th.start()

    def set_dataset(self, ds):
        self.ds = ds
        self.nodeix = {D.coord(n): i for i, n in enumerate(ds["nodes"])}
        self.placeix = {D.coord(p): i for i, p in enumerate(ds["places"])}

    def run(self):
        while not self.stop:
            try:
                c, _ = self.ls.accept()
            except OSError:
                return
            try:
                self.handle(c)
            except Exception as e:                                   # a broken exchange must not end the stub
                self.log.append(("error", repr(e)))
            finally:
                try:
                    c.close()
                except OSError:
                    pass

    def handle(self, c):
        c.settimeout(5)
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        buf = b""
        while b"\r\n\r\n" not in buf:
            d = c.recv(65536)
            if not d:
                return
            buf += d
        path = buf.split(b" ", 2)[1].decode()
        n = self.n
        self.n += 1
        m = path.split("?")[0].split("/")[-1].split(";")
        place = m[0]
        f = self.fault(n, place) if self.fault else None
        pi = self.placeix.get(place)
        dur, dist = [0], [0]
        for x in m[1:]:
            w = None
            if pi is not None and x in self.nodeix:
                w = self.ds["walk"][pi][self.nodeix[x]]
            else:
                self.log.append(("unknown", place, x))
            if w is None:
                w = (900000, 900000)                              # offered, but far beyond every maximum
            dur.append(self.part(w[0], place, x, 0))
            dist.append(self.part(w[1], place, x, 1))
        if f is None:
            table = (lambda row: [[v] for v in row]) if "destinations=0" in path and "sources=0" not in path else (lambda row: [row])
            self.reply(c, json.dumps({"code": "Ok", "durations": table(dur), "distances": table(dist)}))
        else:
            f(self, c, dur, dist)

    def part(self, v, place, node, k):
        """a walk of 60 s may be told as 59.3 s: whole seconds (metres) are rounded up"""
        f = zlib.crc32(f"{self.ds['frac']}{place}{node}{k}".encode()) % 10 / 10 if v > 0 and "frac" in self.ds else 0
        return round(v - f, 1) if f else v

    def reply(self, c, body, status="200 OK", length=None, cut=None):
        b = body if isinstance(body, bytes) else body.encode()
        h = (f"HTTP/1.1 {status}\r\nContent-Type: application/json\r\n"
             f"Content-Length: {len(b) if length is None else length}\r\nConnection: close\r\n\r\n").encode()
        out = h + b
        if cut is not None:
            out = out[:cut]
        c.sendall(out)

    def close(self):
        self.stop = True
        try:
            self.ls.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.ls.close()


class Server:
    def __init__(self, binary, cache, router=None, euclid=False, all_sets=False, threads=1, env=None, log=None,
                 osrm_port=None, start_timeout=60, debug=False, memory=1 << 30, nofile=0):
        # few open files: a server that loses one per request or refresh shows it soon
        nofile = nofile or 32 + 8 * threads
        self.router = router
        self.binary = binary

        def limits():
            if memory:
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
            if nofile:
                resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        for attempt in range(4):
            self.port, self.portfd = free_port()
            args = [binary, "--port", str(self.port), "--cachePath", cache, "--threads", str(threads),
                    "--cacheAllConnectionSets", "true" if all_sets else "false",
                    "--useEuclideanDistance", "true" if euclid else "false", "--osrmWalkingHost", "127.0.0.1",
                    "--osrmWalkingPort", str(osrm_port or (router.port if router else 1))]
            if debug:
                args += ["--debug", "1"]
            self.logpath = log
            self.err = open(log, "wb") if log else subprocess.DEVNULL
            e = dict(os.environ)
            e.update(env or {})
            self.p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=e,
                                      cwd=cache, start_new_session=True,
                                      preexec_fn=limits if memory or nofile else None)
            self.conn = None
            t0 = time.time()
            ok = False
            delay = 0.002
            while time.time() - t0 < start_timeout:
                if self.p.poll() is not None:
                    break
                s = socket.socket()
                try:
                    s.connect(("127.0.0.1", self.port))
                    ok = True
                    s.close()
                    break
                except OSError:
                    s.close()
                    time.sleep(delay)
                    delay = min(delay * 1.5, 0.05)
            if ok:
                return
            rc = self.p.poll()
            self.kill()
            if rc is None or attempt == 3 or rc != -6:
                raise Crash(f"server did not start (exit {rc})")
            # an abort at start may be a lost race for the port: make sure before calling it a crash
        raise Crash("server did not start")

    def alive(self):
        return self.p.poll() is None

    def get_raw(self, target, timeout=30):
        """one GET; returns (status, headers, body bytes)"""
        for attempt in (0, 1):
            fresh = self.conn is None
            try:
                if fresh:
                    self.conn = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
                    self.conn.connect()
                    self.conn.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.conn.request("GET", target)
                r = self.conn.getresponse()
                body = r.read()
                if r.will_close:
                    self.conn.close()
                    self.conn = None
                return r.status, dict((k.lower(), v) for k, v in r.getheaders()), body
            except (OSError, http.client.HTTPException) as e:
                self.conn.close()
                self.conn = None
                if fresh:
                    time.sleep(0.05)
                    raise Crash(f"no answer to {target}: {e!r}; exit {self.p.poll()}")

    def get(self, path, params, timeout=30):
        q = urllib.parse.urlencode(params)
        st, h, b = self.get_raw(path + "?" + q, timeout)
        return st, json.loads(b)

    def kill(self):
        if self.conn:
            self.conn.close()
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        if self.err is not subprocess.DEVNULL:
            self.err.close()
        if self.portfd is not None:
            release_port(self.port, self.portfd)
            self.portfd = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


def place_param(p):
    return f"{p['lon'] / 1e6:.6f},{p['lat'] / 1e6:.6f}"

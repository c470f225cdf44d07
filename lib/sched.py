"""Drives concurrent requests through the verification points of the per-scenario cache, one step at a time."""
import os
import select
import socket
import time

import server as S


class Control:
    """listens on a unix socket; every server thread that reaches a point connects once and keeps the connection"""

    def __init__(self):
        self.dir = S.scratch("ctl")
        self.path = os.path.join(self.dir, "s")
        self.ls = socket.socket(socket.AF_UNIX)
        self.ls.bind(self.path)
        self.ls.listen(64)
        self.links = {}                    # socket -> point it is held at, or None

    def close(self):
        for s in [self.ls, *self.links]:
            s.close()
        try:
            os.unlink(self.path)
            os.rmdir(self.dir)
        except OSError:
            pass

    def reset(self):
        for s in self.links:
            s.close()
        self.links = {}

    def go(self, link):
        self.links[link] = None
        try:
            link.send(b"g")
        except OSError:
            self.links.pop(link, None)


class Client:
    """one request in flight on its own connection"""

    def __init__(self, port, target):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=30)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.sendall(f"GET {target} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n".encode())
        self.buf = b""
        self.done = None                   # (status line, body) or ("dead", b"")

    def feed(self):
        try:
            d = self.s.recv(1 << 16)
        except OSError:
            d = b""
        self.buf += d
        if b"\r\n\r\n" in self.buf:
            h, b = self.buf.split(b"\r\n\r\n", 1)
            n = None
            for l in h.split(b"\r\n"):
                if l.lower().startswith(b"content-length:"):
                    n = int(l.split(b":")[1])
            if n is not None and len(b) >= n:
                self.done = (h.split(b"\r\n")[0].decode(), b[:n])
        if not d and self.done is None:
            self.done = ("dead", b"")
        if self.done:
            self.s.close()


def run(ctl, port, targets, schedule, stall=0.4, limit=60):
    """targets: one per query; schedule: sequence of query indices (0-based).  Returns (events, responses): events are
    (query, point) in the order they happened, with ("start"|"answer") included."""
    n = len(targets)
    cl = [None] * n
    link = [None] * n                     # the thread serving each query, once known
    at = [None] * n                       # where it is held
    events = []
    t_end = time.time() + limit

    def owner(lk, expected):
        if lk in link:
            return link.index(lk)
        return expected

    def pump(expected, wait):
        """process what arrives; returns when query `expected` is held or answered, or after `wait` seconds"""
        t0 = time.time()
        while True:
            if cl[expected].done or at[expected]:
                return True
            left = wait - (time.time() - t0)
            if left <= 0:
                return False
            socks = [ctl.ls, *ctl.links] + [c.s for c in cl if c and not c.done]
            rd, _, _ = select.select(socks, [], [], left)
            for s in rd:
                if s is ctl.ls:
                    k, _ = ctl.ls.accept()
                    ctl.links[k] = None
                elif s in ctl.links:
                    try:
                        d = s.recv(256)
                    except OSError:
                        d = b""
                    if not d:
                        ctl.links.pop(s)
                        s.close()
                        continue
                    p = d.decode().split("\n")[0]
                    ctl.links[s] = p
                    # a thread that is not serving a held query serves the one that was stepped
                    q = link.index(s) if s in link else None
                    if q is None:
                        free = [i for i in range(n) if cl[i] and not cl[i].done and link[i] is None]
                        q = expected if expected in free else (free[0] if free else None)
                    if q is None:
                        ctl.go(s)
                        continue
                    link[q] = s
                    at[q] = p
                    events.append((q, p))
                else:
                    for i, c in enumerate(cl):
                        if c and not c.done and c.s is s:
                            c.feed()
                            if c.done:
                                events.append((i, "answer"))
                                link[i] = None
                                at[i] = None
        return True

    def step(i, wait):
        if cl[i] is None:
            events.append((i, "start"))
            cl[i] = Client(port, targets[i])
        elif cl[i].done:
            return
        elif at[i]:
            lk = link[i]
            at[i] = None
            ctl.go(lk)
        pump(i, wait)

    for i in schedule:
        step(i, stall)
    # let everything finish, in order
    while time.time() < t_end and any(c is None or not c.done for c in cl):
        for i in range(n):
            if cl[i] is None or not cl[i].done:
                step(i, stall)
    res = []
    for c in cl:
        res.append(c.done if c and c.done else ("timeout", b""))
        if c and not c.done:
            c.s.close()
    return events, res

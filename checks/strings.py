"""Scenarios for string tensors (C20, C21)."""
from core import Scenario

class SG(Scenario):
    def __init__(self, sid, rnd, base="S"):
        super().__init__(sid); self.rnd = rnd; self.n1 = self.name("ns", base); self.str_(b"")
        self.verb = 3 if rnd.random() < .1 else 0
    def srv(self, p, n, **k): k.setdefault("dt", 2); return self.obj("sts", k.pop("name", self.n1), p, rows=1, cols=n, verbose=self.verb, **k)
    def cli(self, p, **k): return self.obj("stc", k.pop("name", self.n1), p, rows=0, cols=0, verbose=self.verb, **k)
    def seq(self, a, x, ops):
        for o in ops.split():
            o, *p = o.split(":"); self.op(a, o, x, *[int(i) for i in p])
        return self
    def s(self, n=None):
        """a string of n bytes, without NUL"""
        r = self.rnd
        if n is None: n = length(r)
        while True:
            k = r.random()
            if k < .5: b = bytes(r.randint(1, 255) for _ in range(n))
            elif k < .7: b = bytes([r.choice([1, 65, 127, 128, 255])]) * n
            elif k < .9: b = bytes(r.choice(b"abc ") for _ in range(n))
            else: b = ("\u00e9\u4e2d\U0001f600" * n).encode()[:n]
            return self.str_(b)

def length(r): return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 63, 64, 100, r.randint(1, 1024), r.randint(1, 1024), 1019, 1020, 1021, 1022, 1023, 1024])
def N(T, q, t): return q if T == "quick" else t
def std(sc, T, one=40, pct=60, depth=3):
    k = 1 if T == "quick" else 4
    sc.explore("one", one * k).explore("pct", depth, pct * k); return sc

def pair(sc, n, safe=None):
    r = sc.rnd; a = sc.actor(); f = lambda: r.randrange(2) if safe is None else safe
    s = sc.srv(a, n, safe=f()); k = sc.cli(a, safe=f()); k2 = sc.cli(a, safe=f())
    sc.seq(a, s, "new run"); sc.seq(a, k, "new run"); sc.seq(a, k2, "new run"); return a, [s, k, k2]

def put(sc, a, x, pos, ids, single=False):
    if len(ids) == 1 and (single or sc.rnd.random() < .5): sc.op(a, "ws", x, pos, ids[0])
    else: sc.op(a, "wl", x, pos, *ids)

def get(sc, a, x, pos, n):
    if n == 1 and sc.rnd.random() < .5: sc.op(a, "rs", x, pos)
    else: sc.op(a, "rl", x, pos, n)

def c20(rnd, T):
    out = []
    # every length (after contents of every kind)
    lens = list(range(1025)); step = 25
    for i in range(0, len(lens), step):
        sc = SG("len%d" % i, rnd); a, xs = pair(sc, 2); old = [sc.str_(b"\xff" * 1024), sc.str_(b"\x80" * 1023)]
        for n in lens[i:i + step]:
            x, y = rnd.choice(xs), rnd.choice(xs); p = rnd.randrange(2)
            if rnd.random() < .6: put(sc, a, rnd.choice(xs), p, [rnd.choice(old)])
            put(sc, a, x, p, [sc.s(n)]); get(sc, a, y, p, 1); sc.op(a, "rl", rnd.choice(xs), 0, 2)
        sc.explore("pct", 1, 1); out.append(sc)
    # every byte at every place of a word
    for i in range(4):
        sc = SG("byte%d" % i, rnd); a, xs = pair(sc, 1)
        for b in range(1, 256):
            s = sc.str_(bytes([rnd.randint(1, 255)] * i) + bytes([b]) + bytes([rnd.randint(1, 255)] * rnd.randrange(4)))
            put(sc, a, rnd.choice(xs), 0, [s]); get(sc, a, rnd.choice(xs), 0, 1)
        sc.explore("pct", 1, 1); out.append(sc)
    # lists of strings at any position; what does not fit is refused
    for i in range(N(T, 80, 600)):
        sc = SG("list%d" % i, rnd); n = rnd.randint(1, 6); a, xs = pair(sc, n)
        for j in range(rnd.randint(6, 14)):
            x = rnd.choice(xs); m = rnd.randint(0 if rnd.random() < .1 else 1, n + 1); p = rnd.randint(-1, n)
            if rnd.random() < .1: p = rnd.choice([-2147483648, -n, -5, 2147483647, 2147483646, n + 7])
            k = rnd.random()
            if k < .55:
                ids = [sc.s() for _ in range(m)]
                if ids and rnd.random() < .15: ids[rnd.randrange(len(ids))] = sc.str_(bytes([rnd.randint(1, 255)]) * rnd.choice([1025, 1026, 1028, 1100, 2048, 5000]))
                put(sc, a, x, p, ids)
            else: get(sc, a, x, p, m)
            if rnd.random() < .5: sc.op(a, "rl", rnd.choice(xs), 0, n)
        sc.op(a, "rl", rnd.choice(xs), 0, n)
        sc.explore("pct", 1, 1); out.append(sc)
    for i in range(N(T, 4, 20)): # long lists
        sc = SG("long%d" % i, rnd); n = [40, 100, 64, 17][i % 4]; a, xs = pair(sc, n); f = lambda: sc.s(rnd.choice([0, 1, 4, 5, 1023, 1024, rnd.randint(1, 40)]))
        sc.op(a, "wl", xs[0], 0, *[f() for _ in range(n)]); sc.op(a, "rl", xs[1], 0, n)
        for _ in range(6):
            p = rnd.randrange(n); m = rnd.randint(1, n - p); put(sc, a, rnd.choice(xs), p, [f() for _ in range(m)]); p = rnd.randrange(n); get(sc, a, rnd.choice(xs), p, rnd.randint(1, n - p))
        sc.op(a, "rl", xs[2], 0, n); out.append(sc.explore("pct", 1, 1))
    return out

def work(sc, a, x, n, k):
    """k reads and writes, mostly of several strings at once"""
    r = sc.rnd
    for _ in range(k):
        p = r.randrange(n); m = r.randint(1, n - p); o = r.random()
        if o < .3: sc.op(a, "wl", x, p, *[sc.s(r.choice([3, 4, 9, 40, 600, 1024])) for _ in range(m)])
        elif o < .45: sc.op(a, "ws", x, p, sc.s(r.choice([3, 9, 40, 600, 1024])))
        elif o < .8: sc.op(a, "rl", x, p, m)
        else: sc.op(a, "rs", x, p)

def c21(rnd, T):
    out = []
    for i in range(N(T, 60, 400)): # everybody reads and writes
        sc = SG("team%d" % i, rnd); n = rnd.randint(1, 4); a = sc.actor(); s = sc.srv(a, n); sc.seq(a, s, "new run")
        if rnd.random() < .5: sc.op(a, "wl", s, 0, *[sc.s(rnd.choice([5, 8, 700])) for _ in range(n)])
        k = len(sc.ops[a - 1])
        for _ in range(rnd.randint(1, 2)):
            b = sc.actor(); c = sc.cli(b); sc.seq(b, c, "new run")
            if rnd.random() < .3: sc.op(b, rnd.choice(["len", "shm", "raw", "ncl", "run"]), c)
            work(sc, b, c, n, rnd.randint(1, 3))
            if rnd.random() < .5: sc.op(b, "rl", c, 0, n)
            if rnd.random() < .3: sc.seq(b, c, rnd.choice(["close", "close run len", "del", "close isrun"]))
        work(sc, a, s, n, rnd.randint(1, 3))
        if rnd.random() < .5: sc.op(a, "ncl", s)
        out.append(std(sc, T))
    for i in range(N(T, 50, 400)): # the lifecycle in any order
        sc = SG("life%d" % i, rnd); n = rnd.randint(1, 3); a = sc.actor(); s = sc.srv(a, n); b = sc.actor(); c = sc.cli(b); sid = sc.s(9)
        any_ = ["ws:0:%d" % sid, "rs:0", "rl:0:%d" % n, "isrun", "len", "shm", "raw", "ncl", "issrv", "info"]
        seq = lambda k, ops: " ".join(rnd.choice(rnd.choice([any_, ops])) for _ in range(k))
        sc.seq(a, s, rnd.choice(["new", "new run", "rs:0 new"]) + " " + seq(rnd.randint(2, 6), ["run", "run", "close", "del", "new"]))
        sc.seq(b, c, rnd.choice(["new", "new run", "len new"]) + " " + seq(rnd.randint(2, 6), ["run", "run", "close", "del", "new"]))
        if rnd.random() < .4: sc.seq(b, c, "close"); sc.op(b, "fds", 0)
        if rnd.random() < .4: sc.seq(a, s, "close"); sc.op(a, "fds", 0); sc.op(a, "names", 0, 1)
        out.append(std(sc, T, 30, 50))
    for i in range(N(T, 30, 200)): # closing and looking does not disturb the others
        sc = SG("calm%d" % i, rnd); n = rnd.randint(1, 3); a = sc.actor(); s = sc.srv(a, n); b = sc.actor(); c = sc.cli(b); d = sc.actor(); e = sc.cli(d)
        ids = [sc.s(rnd.choice([2, 30, 1024])) for _ in range(n)]
        sc.seq(a, s, "new run"); sc.op(a, "wl", s, 0, *ids); w = len(sc.ops[a - 1])
        sc.seq(b, c, "new run " + rnd.choice(["shm raw shm", "raw close", "shm del", "shm close run shm", "len raw del new run", "close", "close run close"]))
        sc.seq(d, e, "new run"); sc.op(d, "rl", e, 0, n, after=[(b, len(sc.ops[b - 1])), (a, w)]); sc.op(d, "ws", e, n - 1, sc.s(11)); sc.seq(d, e, "rl:0:%d" % n)
        sc.op(a, "rl", s, 0, n, after=[(d, len(sc.ops[d - 1]))]); sc.seq(a, s, rnd.choice(["shm raw rl:0:%d ncl" % n, "ncl raw", "close isrun", "isrun len"]))
        out.append(std(sc, T, 30, 30))
    for i in range(N(T, 30, 200)): # restarted
        sc = SG("next%d" % i, rnd); n, m = rnd.randint(1, 3), rnd.randint(1, 4); a = sc.actor(); s = sc.srv(a, n); s2 = sc.srv(a, m); b = sc.actor(); c = sc.cli(b); d = sc.actor(); e = sc.cli(d)
        sc.seq(a, s, "new run"); sc.op(a, "ws", s, 0, sc.s(20)); sc.seq(a, s, rnd.choice(["close", "del"])); sc.seq(a, s2, "new run rl:0:%d" % m); sc.op(a, "ws", s2, m - 1, sc.s(6))
        sc.seq(b, c, "new run len"); sc.seq(b, c, "rs:0 close run len rl:0:%d" % m)
        sc.seq(d, e, "new run"); sc.op(d, "rl", e, 0, min(n, m))
        if rnd.random() < .6: i_ = rnd.randint(3, 6); o = sc.ops[b - 1][i_ - 1]; sc.ops[b - 1][i_ - 1] = (o[0], o[1], o[2], [(a, 4)])
        sc.seq(a, s2, "ncl")
        out.append(std(sc, T, 40, 60))
    for i in range(N(T, 15, 100)): # a crash, a new server
        sc = SG("dead%d" % i, rnd); n = rnd.randint(1, 2); a = sc.actor(); s = sc.srv(a, n); b = sc.actor(); c = sc.cli(b); q = sc.actor(); s2 = sc.srv(q, n + 1, force=1); d = sc.actor(); e = sc.cli(d)
        sc.seq(a, s, "new run"); sc.op(a, "wl", s, 0, *[sc.s(600) for _ in range(n)])
        sc.seq(b, c, "new run"); work(sc, b, c, n, 2)
        v = rnd.choice([a, b]); 
        if v == b: r = sc.actor(a); sc.op(r, "kill", 0, after=[(0, b)])
        sc.op(q, "new", s2, after=[(0, a)]); sc.seq(q, s2, "run rl:0:%d" % (n + 1))
        sc.op(d, "new", e, after=[(q, 2)]); sc.seq(d, e, "run len"); work(sc, d, e, n + 1, 2); work(sc, q, s2, n + 1, 1)
        sc.explore("crash", v, 2 if T == "quick" else 6, 150 if T == "quick" else 1500); out.append(sc)
    return out

def registry():
    return {"C20": dict(make=c20, trace="StringTrace", worlds=[("MCString", "MCString.cfg", "data")], deep=[("MCString", "MCString.cfg", "data2")]),
            "C21": dict(make=c21, trace="StringTrace", worlds=[("MCString", "MCString.cfg", w) for w in ("share", "life")], deep=[("MCString", "MCString.cfg", "share2")], budget=70000)}

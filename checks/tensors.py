"""Scenarios for the properties of shared tensors (C01 - C13): which servers and
clients exist, what their processes call, and which schedules, crashes, signals
and refused system calls are explored."""
import random
from core import Scenario

class Gen(Scenario):
    def __init__(self, sid, rnd, ns="ns", base="A"):
        super().__init__(sid)
        self.rnd, self.val = rnd, 0
        self.n1 = self.name(ns, base)
        self.dt, self.lay = rnd.randrange(4), rnd.randrange(2)
        self.verb = 3 if rnd.random() < .15 else 0

    def srv(self, p, rows=2, cols=2, **k):
        k.setdefault("dt", self.dt); k.setdefault("lay", self.lay)
        return self.obj("srv", k.pop("name", self.n1), p, rows=rows, cols=cols, verbose=self.verb, **k)

    def cli(self, p, **k):
        k.setdefault("dt", self.dt); k.setdefault("lay", self.lay)
        return self.obj("cli", k.pop("name", self.n1), p, rows=0, cols=0, verbose=self.verb, **k)

    def w(self, a, x, rows=2, cols=2, row=0, col=0, step=None, after=None):
        r = self.rnd
        self.val += 1 + rows * cols
        return self.op(a, "w", x, row, col, rows, cols, self.val, r.choice([0, 1, 1]) if step is None else step, r.randrange(4), after=after)

    def r(self, a, x, rows=2, cols=2, row=0, col=0, after=None):
        return self.op(a, "r", x, row, col, rows, cols, self.rnd.randrange(4), after=after)

    def part(self, a, x, o, rows=2, cols=2):
        """a random block of a rows x cols tensor (now and then one that does not fit)"""
        r = self.rnd; n, m = r.randint(1, rows), r.randint(1, cols)
        row, col = r.randint(0, rows - n), r.randint(0, cols - m)
        if r.random() < .1: row, col = r.choice([(-1, col), (row, -1), (rows - n + 1, col), (row, cols - m + 1)])
        return self.w(a, x, n, m, row, col) if o == "w" else self.r(a, x, n, m, row, col)

    def seq(self, a, x, ops, rows=2, cols=2):
        for o in ops.split():
            if o == "w": self.w(a, x, rows, cols)
            elif o == "r": self.r(a, x, rows, cols)
            elif o in ("pw", "pr"): self.part(a, x, o[1], rows, cols)
            elif o == "rel!": self.op(a, "rel", x, 1)
            else: self.op(a, o, x)
        return self

def N(T, quick, thorough):
    return quick if T == "quick" else thorough

def std(sc, T, one=40, pct=60, depth=3):
    k = 1 if T == "quick" else 4
    sc.explore("one", one * k).explore("pct", depth, pct * k)
    return sc

# ------------------------------------------------------------------ C01
def c01(rnd, T):
    out = []
    for i in range(N(T, 60, 400)):
        sc = Gen("riv%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor()
        r1, c1, r2, c2 = rnd.randint(1, 2), rnd.randint(1, 3), rnd.randint(1, 3), rnd.randint(1, 2)
        s1 = sc.srv(a, r1, c1); s2 = sc.srv(b, r2, c2); k = sc.cli(c)
        sc.seq(a, s1, rnd.choice(["new run w ncl r", "new run w stop run r", "new w run pw ncl", "new run w close new del new run r", "new run w", "new run w r del new run ncl"]), r1, c1)
        sc.seq(b, s2, rnd.choice(["new", "new new run w", "new del new del", "new run r close", "new isrun close new", "new del del new run w"]), r2, c2)
        sc.seq(c, k, rnd.choice(["new attach w r detach", "new attach r w r", "new attach acq rel r", "new attach isrun dims"]), r1, c1)
        if rnd.random() < .4: sc.actor(); x = sc.srv(4, 1, 1); sc.seq(4, x, rnd.choice(["new del new", "new run", "new"]), 1, 1)
        out.append(std(sc, T))
    for i in range(N(T, 20, 100)): # the incumbent exists before the rival comes and after it is gone
        sc = Gen("inc%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor()
        s1 = sc.srv(a); s2 = sc.srv(b, rnd.randint(1, 3), rnd.randint(1, 3), dt=rnd.randrange(4), lay=rnd.randrange(2)); k = sc.cli(c)
        pre = rnd.choice(["new run w", "new run w stop", "new"]); sc.seq(a, s1, pre); n = len(pre.split())
        for t in range(rnd.randint(1, 3)):
            sc.op(b, "new", s2, after=[(a, n)]); sc.op(b, "del", s2) # constructing fails: nothing to destroy
        nb = len(sc.ops[b - 1])
        sc.op(a, "run", s1, after=[(b, nb)]); sc.seq(a, s1, "r ncl w")
        sc.op(c, "new", k); sc.op(c, "attach", k, after=[(b, rnd.randint(0, nb))]); sc.seq(c, k, "r w r detach")
        out.append(std(sc, T, 30, 30))
    return out

# ------------------------------------------------------------------ C02
def c02(rnd, T):
    out = []
    for i in range(N(T, 70, 500)):
        rows, cols = rnd.choice([(2, 2), (1, 3), (3, 2), (2, 4)])
        sc = Gen("saf%d" % i, rnd); s_a = sc.actor(); s = sc.srv(s_a, rows, cols)
        sc.seq(s_a, s, "new run w", rows, cols)
        sc.seq(s_a, s, " ".join(rnd.choice(["w", "r", "r", "pw", "pr", "ncl", "stop run"]) for _ in range(rnd.randint(2, 4))), rows, cols)
        for k in range(rnd.randint(1, 2)):
            a = sc.actor(); c = sc.cli(a); sc.seq(a, c, "new attach")
            sc.seq(a, c, " ".join(rnd.choice(["w", "w", "r", "r", "pw", "pr", "detach attach", "acq rel"]) for _ in range(rnd.randint(2, 5))), rows, cols)
        out.append(std(sc, T, 60, 60, 4))
    for i in range(N(T, 15, 60)): # somebody keeps the tensor: everybody else gets a refusal, at once
        sc = Gen("kept%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor()
        s = sc.srv(a); k1 = sc.cli(b); k2 = sc.cli(c)
        sc.seq(a, s, "new run w"); sc.seq(b, k1, "new attach acq"); sc.seq(c, k2, "new attach")
        who = rnd.choice([(a, s), (c, k2)])
        for o in ("w", "r", "pw"): sc.seq(*who, o)
        sc.ops[who[0] - 1][-3] = (*sc.ops[who[0] - 1][-3][:3], [(b, 3)])
        sc.op(b, "rel", k1, after=[(who[0], len(sc.ops[who[0] - 1]))]); sc.seq(b, k1, "r")
        sc.op(a, "r", s, 0, 0, 2, 2, 0, after=[(b, 5)])
        out.append(std(sc, T, 30, 30))
    for i in range(N(T, 4, 20)): # bigger copies
        rows, cols = 6, 5
        sc = Gen("big%d" % i, rnd); a, b = sc.actor(), sc.actor(); s = sc.srv(a, rows, cols); c = sc.cli(b)
        sc.seq(a, s, "new run w w r", rows, cols); sc.seq(b, c, "new attach w r w", rows, cols)
        out.append(std(sc, T, 120, 60, 3))
    for i in range(N(T, 6, 24)): # more than a page, than many
        rows, cols = [(70, 60), (1, 1500), (1500, 1), (33, 17), (200, 65), (17, 33)][i % 6]
        sc = Gen("huge%d" % i, rnd); sc.dt = i % 3; a, b, c = sc.actor(), sc.actor(), sc.actor(); s = sc.srv(a, rows, cols); k = sc.cli(b); l = sc.cli(c)
        sc.seq(a, s, "new run w", rows, cols); sc.seq(b, k, "new attach w", rows, cols)
        sc.op(c, "new", l); sc.op(c, "attach", l, after=[(a, 3)]); sc.seq(c, l, "r", rows, cols)
        if i % 6 != 4: sc.part(c, l, "w", rows, cols); sc.seq(c, l, "r", rows, cols)
        out.append(sc.explore("one", N(T, 16, 100)))
    return out

# ------------------------------------------------------------------ C03
def c03(rnd, T):
    out = []
    for i in range(N(T, 70, 500)):
        sc = Gen("lck%d" % i, rnd); a = sc.actor()
        safe = [rnd.random() < .5 for _ in range(3)]
        s = sc.srv(a, safe=int(safe[0])); sc.seq(a, s, "new run")
        # without safe access the tensor is only touched while it is held
        blk = lambda f: rnd.choice(["acq r w rel", "acq w r w rel", "acq pw pr rel", "acq rel"] + (["w", "r", "pw"] if f else []))
        for _ in range(rnd.randint(1, 2)):
            sc.seq(a, s, blk(safe[0]))
            if rnd.random() < .4: sc.seq(a, s, rnd.choice(["stop run", "ncl", "stop acq rel run"]))
        for k in range(rnd.randint(1, 2)):
            b = sc.actor(); c = sc.cli(b, safe=int(safe[k + 1])); sc.seq(b, c, "new attach")
            for _ in range(rnd.randint(1, 2)): sc.seq(b, c, blk(safe[k + 1]))
            if rnd.random() < .3: sc.seq(b, c, "detach")
        out.append(std(sc, T, 60, 60, 4))
    for i in range(N(T, 15, 80)): # the server stops and runs again while the tensor is held
        sc = Gen("keep%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor()
        s = sc.srv(a); k1 = sc.cli(b, safe=0); k2 = sc.cli(c, safe=0)
        sc.seq(a, s, "new run"); sc.seq(b, k1, "new attach acq w r")
        m = rnd.choice(["stop run", "stop run stop run", "run run", "stop isrun run"])
        sc.op(a, m.split()[0], s, after=[(b, 3)]); sc.seq(a, s, " ".join(m.split()[1:]))
        na = len(sc.ops[a - 1])
        sc.op(b, "r", k1, 0, 0, 2, 2, 0, after=[(a, na)]); sc.seq(b, k1, "w r rel")
        sc.seq(c, k2, "new attach"); sc.op(c, "acq", k2, after=[(a, rnd.choice([2, na]))]); sc.seq(c, k2, "r w r rel")
        out.append(std(sc, T, 40, 40))
    return out

# ------------------------------------------------------------------ C04
def c04(rnd, T):
    out = []
    for i in range(N(T, 80, 600)):
        sc = Gen("att%d" % i, rnd); a = sc.actor()
        shapes = [(rnd.randint(1, 3), rnd.randint(1, 3)) for _ in range(2)]
        s1 = sc.srv(a, *shapes[0])
        sc.seq(a, s1, rnd.choice(["new run w", "new run", "new run stop run w", "new w run"]), *shapes[0])
        last = (a, s1, shapes[0])
        if rnd.random() < .7:
            sc.seq(a, s1, rnd.choice(["close", "stop close", "del"]))
            if rnd.random() < .5: b = sc.actor(); s2 = sc.srv(b, *shapes[1]); sc.op(b, "new", s2, after=[(a, len(sc.ops[a - 1]))])
            else: b = a; s2 = sc.srv(a, *shapes[1]); sc.op(b, "new", s2)
            sc.seq(b, s2, rnd.choice(["run w r", "w run r", "run pw pr"]), *shapes[1]); last = (b, s2, shapes[1])
        for k in range(rnd.randint(1, 2)):
            b = sc.actor(); c = sc.cli(b); sh = last[2]
            sc.seq(b, c, rnd.choice(["new attach r w r", "new attach w r attach r", "new attach dims r", "new attach w detach attach r", "new attach attach w r"]), *sh)
        std(sc, T, 60, 60, 4)
        out.append(sc)
    for i in range(N(T, 10, 40)): # both sides see what the other wrote
        sc = Gen("see%d" % i, rnd); a, b = sc.actor(), sc.actor(); rows, cols = rnd.randint(1, 4), rnd.randint(1, 4)
        s = sc.srv(a, rows, cols); c = sc.cli(b)
        sc.seq(a, s, "new run pw w", rows, cols); sc.op(b, "new", c); sc.op(b, "attach", c, after=[(a, 4)]); sc.seq(b, c, "r w pw", rows, cols)
        sc.op(a, "r", s, 0, 0, rows, cols, 0, after=[(b, 5)]); sc.seq(a, s, "pr pw", rows, cols)
        sc.op(b, "r", c, 0, 0, rows, cols, 2, after=[(a, 7)]); out.append(std(sc, T, 10, 5))
    return out

# ------------------------------------------------------------------ C05
def c05(rnd, T):
    out = []; combos = [(d, l, e, m) for d in range(4) for l in range(2) for e in range(4) for m in range(2) if (d, l) != (e, m)]
    for i, (d, l, e, m) in enumerate(combos):
        sc = Gen("typ%d" % i, rnd); sc.dt, sc.lay = d, l
        a, b, c = sc.actor(), sc.actor(), sc.actor(); rows, cols = rnd.choice([(2, 2), (1, 3), (3, 1)])
        s = sc.srv(a, rows, cols); k1 = sc.cli(b, dt=e, lay=m); k2 = sc.cli(c)
        sc.seq(a, s, "new run w " + rnd.choice(["ncl r", "r ncl", "stop run r", "acq rel ncl"]), rows, cols)
        sc.seq(b, k1, "new attach w r " + rnd.choice(["isrun attach w", "detach", "close attach r", "del", "isrun close"]), rows, cols)
        sc.seq(c, k2, "new attach " + rnd.choice(["r w", "acq w r rel", "w detach", "r"]), rows, cols)
        sc.op(a, "ncl", s, after=[(b, len(sc.ops[b - 1]))]); sc.op(a, "r", s, 0, 0, rows, cols, 0)
        sc.explore("one", N(T, 24, 200)).explore("pct", 3, N(T, 16, 200)); out.append(sc)
    return out

# ------------------------------------------------------------------ C06
def c06(rnd, T):
    out = []
    for i in range(N(T, 80, 500)):
        sc = Gen("cnt%d" % i, rnd); a = sc.actor(); s = sc.srv(a); sc.seq(a, s, "new run ncl")
        for k in range(rnd.randint(1, 3)):
            b = sc.actor(); cs = [sc.cli(b, dt=sc.dt if rnd.random() < .9 else (sc.dt + 1) % 4) for _ in range(rnd.randint(1, 2))]
            for c in cs: sc.op(b, "new", c)
            for _ in range(rnd.randint(1, 4)): sc.seq(b, rnd.choice(cs), rnd.choice(["attach", "attach detach", "detach", "attach attach", "close", "del new", "attach del", "detach detach"]))
        if rnd.random() < .4: # replaced while clients are attached
            sc.seq(a, s, "close"); s2 = sc.srv(a, rnd.randint(1, 2), 3); sc.seq(a, s2, "new run ncl"); s = s2
        else: sc.seq(a, s, rnd.choice(["ncl", "stop ncl run", "stop run"]))
        sc.op(a, "ncl", s, after=[(b, len(sc.ops[b - 1])) for b in range(2, len(sc.actors) + 1)])
        out.append(std(sc, T, 40, 60, 4))
    for i in range(N(T, 6, 40)): # many clients, many times
        sc = Gen("many%d" % i, rnd); a = sc.actor(); s = sc.srv(a); sc.seq(a, s, "new run"); per, k = rnd.choice([(1, 14), (3, 5), (4, 2), (2, 8)])
        for _ in range(per):
            b = sc.actor(); cs = [sc.cli(b) for _ in range(k)]
            for c in cs: sc.seq(b, c, "new attach" + rnd.choice(["", "", " detach attach", " attach"]))
            rnd.shuffle(cs)
            for c in cs[:rnd.randint(0, k)]: sc.seq(b, c, rnd.choice(["detach", "close", "del", "detach attach detach"]))
        sc.op(a, "ncl", s, after=[(b, len(sc.ops[b - 1])) for b in range(2, len(sc.actors) + 1)])
        out.append(sc.explore("pct", 3, N(T, 4, 20)))
    return out + leftover(rnd, T, N(T, 10, 60))

# ------------------------------------------------------------------ C07
def c07(rnd, T):
    out = []; S = ["new", "run", "stop", "close", "del", "ncl", "isrun", "dims", "acq", "rel", "w", "r"]
    C = ["new", "attach", "detach", "close", "del", "isrun", "dims", "acq", "rel", "w", "r"]
    # every short sequence of operations on a server, with a client working beside it; and on a client of a running server
    import itertools
    def add(tag, k, ops):
        sc = Gen("%s%d" % (tag, k), rnd); a = sc.actor(); b = sc.actor()
        opened, q = False, []   # (releasing what is not held is misuse, but not what is not even open: it changes nothing)
        for o in ops:
            if o in ("new", "attach"): opened = opened or o == "attach" or tag == "sq"
            elif o in ("close", "del", "detach"): opened = False
            q.append("rel!" if o == "rel" and not opened else o)
        ops = q
        if tag == "sq":
            s = sc.srv(a); c = sc.cli(b)
            sc.seq(a, s, " ".join(ops)); sc.op(b, "new", c); sc.op(b, "attach", c); sc.seq(b, c, "w r detach")
        elif tag == "cq":
            s = sc.srv(b); c = sc.cli(a)
            sc.seq(b, s, "new run w"); n = len(sc.ops[b - 1])
            sc.seq(a, c, " ".join(ops)); sc.ops[a - 1][0] = (*sc.ops[a - 1][0][:3], [(b, n)])
            sc.op(b, "w", s, 0, 0, 2, 2, 90, 1, 0, after=[(a, len(ops))]); sc.seq(b, s, "ncl r close")
        else: # client without a server running
            s = sc.srv(b); c = sc.cli(a)
            sc.seq(b, s, rnd.choice(["new", "new run close", "new run stop"])); sc.seq(a, c, " ".join(ops))
            sc.seq(b, s, "del new run ncl")
        sc.seq(a, 1 if False else (s if tag == "sq" else c), "")
        sc.explore("pct", 2, 2); out.append(sc)
    for tag, al, L in (("sq", S, 3), ("cq", C, 3)):
        seqs = [("new",) + q for n in range(1, L) for q in itertools.product(al, repeat=n)]
        deep = [("new",) + tuple(rnd.choice(al) for _ in range(rnd.randint(3, 6))) for _ in range(N(T, 200, 4000))]
        if T == "thorough": seqs += [("new",) + q for q in itertools.product(al, repeat=3)]
        for k, q in enumerate(seqs + deep): add(tag, k, q)
    for k in range(N(T, 100, 1000)): add("nq", k, tuple(["new"] + [rnd.choice(C) for _ in range(rnd.randint(1, 5))]))
    for i in range(N(T, 60, 600)): out.append(std(anything("any%d" % i, rnd), T, 20, 40, 4))
    return out

def anything(sid, rnd, names=1):
    """any operations in any order on safe servers and clients"""
    sc = Gen(sid, rnd); nm = [sc.n1] + [sc.name("ns", "B%d" % i) for i in range(names - 1)]
    for k in range(rnd.randint(1, 3)):
        a = sc.actor(); objs = []
        for j in range(rnd.randint(1, 2)):
            if rnd.random() < .45: objs.append((sc.srv(a, rnd.randint(1, 2), rnd.randint(1, 3), name=rnd.choice(nm)), 1))
            else: objs.append((sc.cli(a, name=rnd.choice(nm), dt=sc.dt if rnd.random() < .9 else rnd.randrange(4), lay=sc.lay if rnd.random() < .95 else 1 - sc.lay), 0))
        for x, _ in objs:
            if rnd.random() < .8: sc.op(a, "new", x)
        for j in range(rnd.randint(2, 7)):
            x, s = rnd.choice(objs)
            o = rnd.choice(["new", "run", "run", "stop", "close", "del", "ncl", "isrun", "dims", "info", "acq", "rel", "pw", "pr"] if s else
                           ["new", "attach", "attach", "detach", "close", "del", "isrun", "dims", "info", "acq", "rel", "pw", "pr"])
            sc.seq(a, x, o, rnd.randint(1, 2), rnd.randint(1, 3))
        if rnd.random() < .3: sc.op(a, "fds", objs[0][0])
        if rnd.random() < .3: sc.op(a, "names", objs[0][0], 1)
    return sc

# ------------------------------------------------------------------ C08
def c08(rnd, T):
    out = []
    for i in range(N(T, 40, 300)):
        sc = Gen("cra%d" % i, rnd); a, b, r, d = sc.actor(), sc.actor(), sc.actor(), sc.actor()
        sh = (rnd.randint(1, 2), rnd.randint(1, 3)); sh2 = (rnd.randint(1, 3), rnd.randint(1, 2))
        s = sc.srv(a, *sh); c = sc.cli(b); f = sc.srv(r, *sh2, force=1); e = sc.cli(d)
        sc.seq(a, s, rnd.choice(["new run w r stop close", "new run w close new run w", "new run w ncl stop run", "new run pw del"]), *sh)
        sc.seq(b, c, rnd.choice(["new attach w r detach close", "new attach w", "new attach detach attach w", "new attach acq w rel close"]), *sh)
        if rnd.random() < .5: # either may be killed; afterwards both are
            sc.op(a, "kill", after=[(b, len(sc.ops[b - 1])) ] if rnd.random() < .5 else None)
        # a client left over from before keeps going in half of the scenarios
        over = rnd.random() < .5
        wait = [(0, a)] if over else [(0, a), (0, b)]
        if over: sc.seq(b, c, rnd.choice(["w r w", "detach", "w detach close", "r del"]), *sh)
        sc.op(r, "new", f, after=wait); sc.seq(r, f, "r run r ncl w", *sh2)
        nr = len(sc.ops[r - 1])
        sc.op(d, "new", e); sc.op(d, "attach", e, after=[(r, 3)]); sc.seq(d, e, "r w", *sh2)
        sc.op(r, "r", f, 0, 0, *sh2, 0, after=[(d, 4)]); sc.seq(r, f, "ncl close"); sc.op(r, "names", f, 1, after=[(d, 4)])
        k = N(T, 40, 400)
        sc.explore("crash", a, N(T, 1, 3), k * 2)
        if not over: sc.explore("crash", b, 1, k)
        out.append(sc)
    for i in range(N(T, 15, 80)): # the recovering server crashes as well
        sc = Gen("rec%d" % i, rnd); a, b, r, d = sc.actor(), sc.actor(), sc.actor(), sc.actor()
        s = sc.srv(a); f1 = sc.srv(b, 1, 2, force=1); f2 = sc.srv(r, 2, 1, force=1); e = sc.cli(d)
        sc.seq(a, s, rnd.choice(["new run w", "new", "new run w stop"])); sc.op(a, "kill")
        sc.op(b, "new", f1, after=[(0, a)]); sc.seq(b, f1, "run w close", 1, 2)
        sc.op(r, "new", f2, after=[(0, b)]); sc.seq(r, f2, "r run w r ncl", 2, 1)
        sc.op(d, "new", e); sc.op(d, "attach", e, after=[(r, 3)]); sc.seq(d, e, "r w detach", 2, 1)
        sc.op(r, "close", f2, after=[(d, 5)]); sc.op(r, "names", f2, 1)
        out.append(sc.explore("crash", b, N(T, 1, 3)))
    for i in range(N(T, 10, 60)): # holding the tensor when killed
        sc = Gen("hold%d" % i, rnd); a, b, r, d = sc.actor(), sc.actor(), sc.actor(), sc.actor()
        s = sc.srv(a); c = sc.cli(b); f = sc.srv(r, 2, 2, force=1); e = sc.cli(d)
        sc.seq(a, s, "new run w"); sc.seq(b, c, "new attach acq w"); sc.op(b, "kill"); sc.op(a, "kill", after=[(0, b)])
        sc.op(r, "new", f, after=[(0, a), (0, b)]); sc.seq(r, f, "run r ncl w r close"); sc.op(d, "new", e)
        sc.op(d, "attach", e, after=[(r, 2)]); sc.seq(d, e, "r w")
        out.append(std(sc, T, 20, 20))
    return out + leftover(rnd, T)

def leftover(rnd, T, n=None):
    """clients of a server which is gone go on while its successor works"""
    out = []
    for i in range(n or N(T, 24, 150)):
        sc = Gen("left%d" % i, rnd); a, b, r, d = sc.actor(), sc.actor(), sc.actor(), sc.actor(); crash = rnd.random() < .7
        sh = rnd.choice([(2, 2), (2, 2), (1, 3), (3, 2)]); s = sc.srv(a); c = sc.cli(b); f = sc.srv(r, *sh, force=int(crash or rnd.random() < .5)); k = sc.cli(d, safe=rnd.randrange(2))
        hold = rnd.random() < .3
        sc.seq(a, s, "new run w"); sc.seq(b, c, "new attach" + (" acq" if hold else "")); nb = len(sc.ops[b - 1])
        if crash: sc.op(a, "kill", after=[(b, nb)])
        else:
            if hold: sc.seq(b, c, "rel"); nb += 1
            sc.op(a, "close", s, after=[(b, nb)])
        sc.op(r, "new", f, after=[(0, a)] if crash else [(a, 4)]); sc.seq(r, f, "run w", *sh)
        sc.op(d, "new", k); sc.op(d, "attach", k, after=[(r, 3)])
        o = rnd.choice(["detach", "close", "del", "w", "r w", "w detach", "detach attach"] + ["rel w", "rel detach"] * 2 * (hold and crash)).split()
        w = (d, rnd.choice([2, 3, 3])); lock = rnd.random() < .7
        sc.seq(d, k, "acq" if lock else "w" if sc.objs[k - 1]["safe"] else "isrun", *sh)
        sc.op(b, "nop", after=[w]); sc.seq(b, c, " ".join(o)); nb = len(sc.ops[b - 1])
        for q in (["w", "r"] if lock else ["ncl", "r"]): sc.seq(r, f, q, *sh)   # (refused while the client holds it)
        sc.ops[r - 1][3] = (*sc.ops[r - 1][3][:3], [(b, nb), (d, 3)])
        sc.op(d, "isrun", k, after=[(r, 5)])
        if lock: sc.seq(d, k, "r rel", *sh)
        sc.op(r, "ncl", f, after=[(d, len(sc.ops[d - 1]))]); sc.seq(r, f, "r acq rel w close", *sh); sc.op(r, "names", f, 1)
        out.append(sc.explore("pct", 2, 6))
    return out

# ------------------------------------------------------------------ C09
def c09(rnd, T):
    out = []
    for i in range(N(T, 80, 500)):
        sc = Gen("cyc%d" % i, rnd); a, b = sc.actor(), sc.actor(); sh = (rnd.randint(1, 3), rnd.randint(1, 3)); sh2 = (rnd.randint(1, 3), rnd.randint(1, 3))
        s = sc.srv(a, *sh, safe=1); c = sc.cli(b)
        sc.seq(a, s, rnd.choice(["new r run r w stop w r run r", "new run w stop stop run run r", "new run r w", "new run w stop run stop run r w"]), *sh)
        sc.seq(a, s, rnd.choice(["close", "close close", "stop close del", "del", "close r w isrun"])); sc.op(a, "names", s, 1)
        s2 = sc.srv(a, *sh2); sc.seq(a, s2, rnd.choice(["new run r ncl w r", "new close", "new run r del"]), *sh2)
        if rnd.random() < .5: sc.op(a, "close", s2); sc.op(a, "names", s2, 1); sc.op(a, "fds", s2)
        sc.seq(b, c, "new attach " + " ".join(rnd.choice(["w", "r", "pw", "pr", "isrun", "dims", "acq rel"]) for _ in range(rnd.randint(2, 5))), *sh)
        sc.seq(b, c, rnd.choice(["detach", "close", "del", "detach attach r", ""]))
        out.append(std(sc, T, 50, 50, 3))
    for i in range(N(T, 6, 30)): # again and again
        sc = Gen("round%d" % i, rnd); a, b = sc.actor(), sc.actor(); s = sc.srv(a); k = sc.cli(b)
        for _ in range(14): sc.seq(a, s, rnd.choice(["new r run w r close", "new run r stop run w close", "new run w stop", "new run del", "new w run r", "new run stop run stop run w stop run r del"]))
        for _ in range(6): sc.seq(b, k, rnd.choice(["new attach r w detach", "new attach w del", "new attach r close", "new attach detach attach r"]))
        sc.op(a, "close", s); sc.op(a, "names", s, 1); sc.op(a, "fds", s); out.append(sc.explore("pct", 3, N(T, 4, 20)))
    for i in range(N(T, 30, 150)): # whatever was there before
        sc = Gen("old%d" % i, rnd); a, b = sc.actor(), sc.actor()
        sh = (rnd.randint(1, 3), rnd.randint(1, 3)); sh2 = (rnd.randint(1, 3), rnd.randint(1, 3))
        s = sc.srv(a, *sh, dt=rnd.randrange(4)); sc.seq(a, s, "new run w", *sh); sc.op(a, "kill")
        f = sc.srv(b, *sh2, force=1); sc.op(b, "new", f, after=[(0, a)]); sc.seq(b, f, "r run r ncl w stop run r close", *sh2); sc.op(b, "names", f, 1)
        g = sc.srv(b, *sh); sc.seq(b, g, "new run r ncl", *sh)
        out.append(sc.explore("pct", 2, 4))
    return out

# ------------------------------------------------------------------ C10
def c10(rnd, T):
    out = []
    for i in range(N(T, 60, 400)):
        sc = Gen("sig%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor()
        s = sc.srv(a); k1 = sc.cli(b); k2 = sc.cli(c)
        # b holds the tensor for a while, the others wait for it
        sc.seq(a, s, "new run w"); sc.seq(b, k1, "new attach acq r")
        kind = rnd.choice(["acq", "attach", "detach", "ncl", "close"])
        if kind in ("ncl",) or (kind == "acq" and rnd.random() < .4):
            sc.op(a, kind, s, after=[(b, 3)]); sc.seq(a, s, {"acq": "r rel acq r rel w", "ncl": "ncl r"}[kind]); who = a
            sc.seq(c, k2, "new attach r w")
        else:
            sc.op(c, "new", k2)
            if kind != "attach": sc.op(c, "attach", k2)
            sc.op(c, kind, k2, after=[(b, 3)]); who = c
            sc.seq(c, k2, {"acq": "r rel acq w rel", "attach": "r attach w", "detach": "detach attach r", "close": "isrun close new attach"}[kind])
        sc.op(b, "rel", k1, after=[(a, 3)]); sc.seq(b, k1, "w r")
        n = len(sc.ops[who - 1]); sc.op(b, "acq", k1, after=[(who, n)]); sc.seq(b, k1, "rel")
        sc.op(a, "ncl", s, after=[(b, len(sc.ops[b - 1]))])
        out.append(sc.explore("intr", who, N(T, 12, 60)).explore("pct", 3, 10))
    for i in range(N(T, 40, 300)):
        sc = anything("ai%d" % i, rnd)
        for a in range(1, len(sc.actors) + 1): sc.explore("intr", a, N(T, 4, 20))
        out.append(sc)
    return out

# ------------------------------------------------------------------ C11
def c11(rnd, T):
    out = []
    for i in range(N(T, 60, 400)):
        sc = Gen("ref%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor()
        s = sc.srv(a, rnd.randint(1, 2), 2, force=0); k1 = sc.cli(b); k2 = sc.cli(c)
        sc.seq(a, s, "new new run run w r ncl"); sc.seq(b, k1, "new attach attach w r " + rnd.choice(["detach", "close", "isrun", "acq rel"]))
        sc.seq(c, k2, rnd.choice(["new attach r w", "new attach acq w rel detach", "new attach r"]))
        who = rnd.choice([a, a, b])
        sc.op(a, "w", s, 0, 0, 1, 2, 60, 0, 0, after=[(b, len(sc.ops[b - 1]))]); sc.seq(a, s, "ncl")
        if rnd.random() < .5: sc.seq(a, s, "close new run r")
        sc.explore("fault", who, N(T, 3, 12)); out.append(sc)
    for i in range(N(T, 20, 100)): # contents left behind by a crash, recovered while calls are refused
        sc = Gen("rec%d" % i, rnd); a, b, c = sc.actor(), sc.actor(), sc.actor(); f = rnd.random() < .7
        s = sc.srv(a); s2 = sc.srv(b, 1, 3, force=1); k = sc.cli(c)
        sc.seq(a, s, "new run w"); sc.op(a, "kill")
        sc.op(b, "new", s2, after=[(0, a)]); sc.seq(b, s2, "new run r ncl w r", 1, 3)
        sc.op(c, "new", k); sc.op(c, "attach", k, after=[(b, 3)]); sc.seq(c, k, "r w", 1, 3)
        sc.op(b, "close", s2, after=[(c, 4)])
        out.append(sc.explore("fault", b, N(T, 2, 8)))
    for i in range(N(T, 30, 300)):
        sc = anything("af%d" % i, rnd)
        for a in range(1, len(sc.actors) + 1): sc.explore("fault", a, N(T, 2, 8))
        out.append(sc)
    return out

# ------------------------------------------------------------------ C12
def c12(rnd, T):
    out = []
    for i in range(N(T, 60, 500)):
        sc = Gen("fds%d" % i, rnd); a, b = sc.actor(), sc.actor()
        s = sc.srv(a); k1 = sc.cli(b, dt=sc.dt if rnd.random() < .7 else (sc.dt + 1) % 4); k2 = sc.cli(b)
        f = sc.srv(b, 1, 1) # a rival that cannot be constructed while the other server exists
        own = lambda x: sc.op(x, "own") if rnd.random() < .6 else None
        own(a); sc.seq(a, s, rnd.choice(["new run w ncl", "new run stop run", "new run close new run", "new"])); own(a)
        if rnd.random() < .5: sc.seq(a, s, rnd.choice(["close del", "close", "del", "close close"])); sc.op(a, "fds", s); own(a)
        own(b); sc.op(b, "new", k1); sc.op(b, "new", k2)
        if rnd.random() < .3: sc.seq(b, f, "new")
        for _ in range(rnd.randint(1, 4)): sc.seq(b, rnd.choice([k1, k1, k2]), rnd.choice(["attach", "attach detach", "attach attach", "detach attach", "attach detach attach", "w r"])); own(b)
        sc.seq(b, k1, rnd.choice(["close", "del", "close close", "detach close", "close del"])); own(b)
        sc.seq(b, k2, rnd.choice(["close", "del", "close del"])); sc.seq(b, f, "del"); own(b); sc.op(b, "fds", k1)
        if rnd.random() < .3: sc.op(b, "new", k2) if sc.ops[b - 1][-2][0] == "del" else None; sc.op(b, "fds", k1)
        sc.explore("one", N(T, 20, 100)).explore("pct", 3, N(T, 20, 200))
        if rnd.random() < .6: sc.explore("fault", rnd.choice([a, b]), N(T, 1, 4))
        if rnd.random() < .3: sc.explore("intr", b, 2)
        out.append(sc)
    return out

# ------------------------------------------------------------------ C13
PAIRS = [(("ns", "A"), ("ns", "B")), (("ns", "A"), ("nt", "A")), (("ns", "A"), ("ns", "AA")), (("ns", "A"), ("nsA", "A")),
         (("", "A"), ("ns", "A")), (("ns", "tensor"), ("ns", "tensor2")), (("ns", "A"), ("ns", "a")), (("n", "s"), ("n", "s_")),
         (("robot.1", "q-dot"), ("robot.1", "q_dot")), (("ns", "t" * 200), ("ns", "t" * 199)), (("\u00e9", "\u4e2d"), ("\u00e9", "\u4e2e")), (("ns", "0"), ("ns", "00"))]
def c13(rnd, T):
    out = []
    for i in range(N(T, 60, 400)):
        p = PAIRS[i % len(PAIRS)]
        if rnd.random() < .5: p = p[::-1]
        sc = Gen("two%d" % i, rnd, *p[0]); n2 = sc.name(*p[1])
        a, b, c = sc.actor(), sc.actor(), sc.actor()
        s1 = sc.srv(a, 2, 2); s2 = sc.srv(b, rnd.randint(1, 3), rnd.randint(1, 3), name=n2, dt=rnd.randrange(4), lay=rnd.randrange(2))
        o2 = sc.objs[s2 - 1]
        k1 = sc.cli(c); k2 = sc.cli(c, name=n2, dt=o2["dt"], lay=o2["lay"])
        sc.seq(a, s1, rnd.choice(["new run w ncl r close", "new run w acq r rel", "new run w stop run r", "new run w r ncl"])); sc.op(a, "names", s1, 1)
        sc.seq(b, s2, rnd.choice(["new run w ncl r close", "new run acq w rel", "new run stop run ncl", "new close new run w"]), o2["rows"], o2["cols"]); sc.op(b, "names", s2, 2)
        if p[0][1] == "s_" or p[1][1] == "s_": # (whose leftovers they are cannot be told from the names)
            for q in (a, b): sc.ops[q - 1].pop()
        sc.seq(c, k1, "new attach r w"); sc.seq(c, k2, rnd.choice(["new attach w", "new attach r detach", "new"]), o2["rows"], o2["cols"]); sc.seq(c, k1, "r detach")
        std(sc, T, 40, 40)
        if rnd.random() < .3: sc.explore("crash", b, 1, 30)
        out.append(sc)
    for i in range(N(T, 15, 100)): # one is recovered after a crash
        p = PAIRS[i % len(PAIRS)]
        sc = Gen("tworec%d" % i, rnd, *p[0]); n2 = sc.name(*p[1]); a, b, c = sc.actor(), sc.actor(), sc.actor()
        s1 = sc.srv(a); s2 = sc.srv(b, 1, 2, name=n2); f = sc.srv(c, 2, 1, name=n2, force=1)
        sc.seq(a, s1, "new run w"); sc.seq(b, s2, "new run w", 1, 2); sc.op(b, "kill"); sc.op(c, "new", f, after=[(0, b)]); sc.seq(c, f, "run r w close", 2, 1)
        sc.op(a, "r", s1, 0, 0, 2, 2, 0, after=[(c, 3)]); sc.seq(a, s1, "w ncl r stop run r close")
        out.append(std(sc, T, 20, 20))
    # known finding: names that read the same once namespace and name are put together
    sc = Gen("collide", rnd, "ab", "c"); n2 = sc.name("a", "bc"); sc.dt = sc.lay = 1; a, b = sc.actor(), sc.actor(); s1 = sc.srv(a); s2 = sc.srv(b, 1, 1, name=n2)
    sc.seq(a, s1, "new run w"); sc.op(b, "new", s2, after=[(a, 3)]); sc.seq(b, s2, "run w", 1, 1); out.append(sc.explore("pct", 1, 1))
    return out

FAMILIES = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13)
WORLDS = dict(C01=["rivals"], C02=["locks"], C03=["locks"], C04=["rivals"], C05=["rivals"], C06=["rivals", "locks"], C07=["life"], C08=["crash"],
              C09=["life"], C10=["refused"], C11=["refused"], C12=["life"], C13=["names"])

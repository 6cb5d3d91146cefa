"""Scenarios for the shared condition variable (C19)."""
from core import Scenario

class CG(Scenario):
    def __init__(self, sid, rnd, base="V"):
        super().__init__(sid, timed=True); self.rnd = rnd; self.n1 = self.name("ns", base)
        self.verb = 3 if rnd.random() < .1 else 0
    def cv(self, kind, p, **k): return self.obj(kind, k.pop("name", self.n1), p, rows=0, cols=0, verbose=self.verb, **k)
    def seq(self, a, x, ops):
        for o in ops.split():
            o, *p = o.split(":"); self.op(a, o, x, *[int(i) for i in p])
        return self
    def after(self, a, i, *deps):
        o = self.ops[a - 1][i - 1]; self.ops[a - 1][i - 1] = (o[0], o[1], o[2], o[3] + list(deps))

def N(T, q, t): return q if T == "quick" else t

def std(sc, T, one=30, pct=60, depth=4, sp=0):
    k = 1 if T == "quick" else 4
    sc.explore("one", one * k).explore("pct", depth, pct * k, *([sp] if sp else [])); return sc

def team(sc, n):
    """one server, n - 1 clients, all open"""
    a = sc.actor(); s = sc.cv("cvs", a); sc.seq(a, s, "new"); m = [(a, s)]
    for _ in range(n - 1):
        b = sc.actor(); c = sc.cv("cvc", b); sc.op(b, "new", c, after=[(a, 1)]); m.append((b, c))
    return m

def c19(rnd, T):
    out = []
    for i in range(N(T, 30, 200)): # mutual exclusion, whatever handle is used
        sc = CG("excl%d" % i, rnd); m = team(sc, rnd.randint(2, 3))
        for a, x in m:
            for r in range(rnd.randint(1, 3)):
                u = rnd.choice(["unlock", "unlock:1"]); k = rnd.randrange(2); v = rnd.randint(1, 9)
                sc.seq(a, x, rnd.choice(["lock set:%d:%d get:%d %s" % (k, v, k, u), "lock get:%d set:%d:%d %s" % (k, k, v, u), "lock n1 " + u, "mlock set:%d:%d munlock" % (k, v),
                                         "lock twait:%d get:%d %s" % (rnd.choice([0, 5, 20]), k, u), "unlock:1", "lock unlock:1 unlock:1", "wait", "twait:5"]))
        out.append(std(sc, T))
    for i in range(N(T, 40, 250)): # waiters and notifiers
        sc = CG("wake%d" % i, rnd); m = team(sc, rnd.randint(2, 4)); w = []
        for a, x in m[1:] if rnd.random() < .7 else m[:-1]:
            sc.seq(a, x, rnd.choice(["lock wait get:0 unlock", "lock wait unlock lock wait unlock", "lock twait:%d unlock" % rnd.choice([10, 100]), "lock twait:50 twait:50 unlock", "lock wait n1 unlock"])); w.append(a)
        for a, x in m:
            if a in w: continue
            for r in range(rnd.randint(1, 3)):
                j = sc.op(a, "lock", x)
                if rnd.random() < .6: sc.after(a, j, (rnd.choice(w), 2))
                sc.seq(a, x, rnd.choice(["set:0:%d n1 unlock" % r, "na unlock", "n1 unlock n1", "unlock na", "n1 n1 unlock", "unlock n1"]))
        out.append(std(sc, T))
    for i in range(N(T, 50, 300)): # predicates
        sc = CG("pred%d" % i, rnd); m = team(sc, rnd.randint(2, 4)); s = m.pop(rnd.randrange(len(m)))
        for a, x in m:
            for r in range(rnd.randint(1, 2)):
                v = rnd.randint(0, 2)
                sc.seq(a, x, "lock " + rnd.choice(["waitp:0:%d" % v, "twaitp:%d:0:%d" % (rnd.choice([0, 10, 10, 200]), v), "twaitp:30:1:%d" % v, "waitp:1:%d" % v]) + " get:0 unlock")
        for r in range(rnd.randint(2, 4)):
            sc.seq(*s, rnd.choice(["lock set:0:%d na unlock" % (r + 1), "lock set:0:%d unlock na" % rnd.randint(0, 2), "lock set:1:%d n1 unlock" % rnd.randint(0, 2), "lock n1 unlock", "lock set:0:%d unlock n1" % rnd.randint(0, 2),
                                   "lock twait:%d unlock" % rnd.choice([3, 10, 11, 40])]))
        # waking up for no reason is something plain waits may show, predicate waits may not
        out.append(std(sc, T, sp=0 if any(o[0] == "twait" for o in sc.ops[s[0] - 1]) else 4))
    for i in range(N(T, 30, 150)): # creating, opening, closing
        sc = CG("open%d" % i, rnd); a = sc.actor(); s = sc.cv("cvs", a); b = sc.actor(); s2 = sc.cv("cvs", b); c = sc.actor(); k = sc.cv("cvc", c)
        sc.seq(a, s, rnd.choice(["new lock unlock close", "new close new del", "new new close close", "new lock close unlock del", "new lock del new lock unlock", "lock new del lock"]))
        sc.seq(b, s2, rnd.choice(["new", "new lock unlock del", "new close new lock unlock", "new del new del"]))
        sc.seq(c, k, rnd.choice(["new lock unlock", "new new lock unlock close", "lock n1 new na del", "new close lock unlock del new"]))
        if rnd.random() < .6: sc.after(b, 1, (a, rnd.randint(0, len(sc.ops[a - 1]))))
        if rnd.random() < .6: sc.after(c, 1, (a, rnd.randint(0, len(sc.ops[a - 1]))))
        sc.seq(b, s2, "close"); sc.op(b, "names", 0, 1, 0, after=[(a, len(sc.ops[a - 1]))])
        out.append(std(sc, T, 40, 60))
    for i in range(N(T, 12, 60)): # long times, many endpoints
        sc = CG("long%d" % i, rnd); n = rnd.choice([2, 3, 5]); m = team(sc, n); s = m.pop(rnd.randrange(n)); t = [61000, 2200000, 4300000, 90000000, 300000000, 999][i % 6]
        for a, x in m: sc.seq(a, x, "lock " + rnd.choice(["twait:%d" % t, "twait:10 twait:%d" % t, "twaitp:%d:0:1" % t]) + " get:0 unlock")
        if rnd.random() < .6: sc.seq(*s, "lock set:0:1 na unlock")
        out.append(std(sc, T, 10, 15))
    for i in range(N(T, 15, 80)): # handles of one whose process is gone are still there when its successor works
        sc = CG("left%d" % i, rnd); m = team(sc, 2); (p, x), (c, k) = m; q = sc.actor(); y = sc.cv("cvs", q, force=1); d = sc.actor(); z = sc.cv("cvc", d); h = rnd.random() < .4
        sc.seq(c, k, "lock" if h else "lock unlock"); n = len(sc.ops[c - 1]); sc.op(p, "kill", after=[(c, n)])
        sc.op(q, "new", y, after=[(0, p)]); sc.op(d, "new", z, after=[(q, 1)]); sc.seq(q, y, "lock set:0:5")
        sc.op(c, "nop", after=[(q, 3), (d, 1)]); o = "unlock" if h else rnd.choice(["lock set:1:7 unlock", "lock na unlock", "close", "del", "lock twait:20 unlock", "n1"]); sc.seq(c, k, o); n = len(sc.ops[c - 1])
        sc.seq(d, z, "lock get:0 twaitp:50:1:1 unlock"); sc.op(q, "get", y, 0, after=[(c, n)]); sc.seq(q, y, "unlock lock set:1:1 na unlock"); out.append(sc.explore("pct", 3, 12))
    for i in range(N(T, 20, 100)): # a crash at any point; a new one is forced
        sc = CG("dead%d" % i, rnd); m = team(sc, rnd.randint(2, 3)); v = rnd.choice(m)[0]
        for a, x in m:
            sc.seq(a, x, rnd.choice(["lock set:0:1 na unlock", "lock wait unlock", "lock twait:20 unlock", "lock waitp:0:1 unlock", "lock unlock close", "lock del"]))
        if v != m[0][0]: r = sc.actor(m[0][0]); sc.op(r, "kill", 0, after=[(0, v)])
        q = sc.actor(); y = sc.cv("cvs", q, force=1); sc.op(q, "new", y, after=[(0, m[0][0])])
        d = sc.actor(); z = sc.cv("cvc", d); sc.op(d, "new", z, after=[(q, 1)])
        sc.seq(q, y, "lock set:2:1 na unlock lock waitp:3:1 unlock"); sc.seq(d, z, "lock waitp:2:1 set:3:1 na unlock")
        sc.explore("crash", v, 2 if T == "quick" else 6, 150 if T == "quick" else 1500)
        out.append(sc)
    return out

def registry():
    W = lambda k: [("MCCondVar", "MCCondVar.cfg", w + k) for w in ("plain", "timed", "pred", "life", "crash")]
    return {"C19": dict(make=c19, trace="CondVarTrace", budget=70000, worlds=W("") + [("MCCondVar", "MCCondVarLive.cfg", "tiny")], deep=W("2")[:3])}

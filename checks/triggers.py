"""Scenarios for producers and consumers (C15 - C18)."""
from core import Scenario

class TG(Scenario):
    def __init__(self, sid, rnd, base="T"):
        super().__init__(sid, timed=True)
        self.rnd = rnd; self.n1 = self.name("ns", base); self.verb = 3 if rnd.random() < .1 else 0

    def prod(self, p, **k): return self.obj("prod", k.pop("name", self.n1), p, rows=0, cols=0, verbose=self.verb, **k)
    def cons(self, p, **k): return self.obj("cons", k.pop("name", self.n1), p, rows=0, cols=0, verbose=self.verb, **k)

    def seq(self, a, x, ops):
        """e.g. "new run trig wack:2:0 wait:100 wna:0:1" """
        for o in ops.split():
            o, *p = o.split(":"); self.op(a, o, x, *[int(i) for i in p])
        return self

    def after(self, a, i, *deps):
        """operation i (from 1) of actor a waits for deps"""
        o = self.ops[a - 1][i - 1]; self.ops[a - 1][i - 1] = (o[0], o[1], o[2], o[3] + list(deps))

def std(sc, T, one=30, pct=60, depth=4, sp=True):
    k = 1 if T == "quick" else 4
    sc.explore("one", one * k).explore("pct", depth, pct * k, *([5] if sp else []))
    return sc

def N(T, q, t): return q if T == "quick" else t

def ms(rnd): return rnd.choice([0, 0, -1, 5, 50, 1000])

def stepper(rnd, sc, nc, rounds, lock=True):
    """a producer and nc consumers going through rounds of trigger and acknowledgement"""
    p = sc.actor(); x = sc.prod(p); sc.seq(p, x, "new run"); cs = []
    for _ in range(nc):
        a = sc.actor(); k = sc.cons(a); sc.seq(a, k, "new run"); cs.append((a, k))
    for r in range(rounds):
        i = sc.op(p, "trig", x)
        if r == 0: sc.after(p, i, *[(a, 2) for a, _ in cs])
        sc.seq(p, x, "wack:%d:%d" % (nc, rnd.choice([0, 0, 50, 1000])))
        for a, k in cs:
            if rnd.random() < .6: sc.seq(a, k, "wna:%d:%d" % (rnd.choice([0, 0, 1000]), rnd.choice([1, 1, 1, 0])))
            else: sc.seq(a, k, "wait:%d ack" % rnd.choice([0, 0, 1000]))
    return p, x, cs

def c15(rnd, T):
    out = []
    for i in range(N(T, 40, 250)):
        sc = TG("step%d" % i, rnd); stepper(rnd, sc, rnd.randint(1, 3), rnd.randint(1, 3)); out.append(std(sc, T))
    for i in range(N(T, 40, 250)): # triggers at any pace: outstanding ones are reported
        sc = TG("pace%d" % i, rnd); p = sc.actor(); x = sc.prod(p); sc.seq(p, x, "new run")
        nt = rnd.randint(1, 4); n0 = rnd.choice([0, 0, 1])
        if n0: sc.seq(p, x, "trig")
        cs = []
        for _ in range(rnd.randint(1, 2)):
            a = sc.actor(); k = sc.cons(a); sc.seq(a, k, "new run"); cs.append(a)
            for _ in range(rnd.randint(1, nt + 1)): sc.seq(a, k, rnd.choice(["wait:0", "wait:5", "wait:100", "wna:0:1", "wna:20:1"]))
        for t in range(nt):
            j = sc.op(p, "trig", x)
            if t == 0: sc.after(p, j, *[(a, 2) for a in cs])
            elif rnd.random() < .7: a = rnd.choice(cs); sc.after(p, j, (a, min(len(sc.ops[a - 1]), 2 + t)))
        out.append(std(sc, T))
    for i in range(N(T, 15, 80)): # the consumer is back for the next producer
        sc = TG("again%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c)
        sc.seq(p, x, "new run trig trig close new run trig"); sc.seq(c, k, "new run wait:0 wait:0 close run wait:0 wait:10")
        sc.after(p, 3, (c, 2)); sc.after(p, 4, (c, 3)); sc.after(p, 5, (c, 5)); sc.after(c, 6, (p, rnd.choice([5, 6, 7]))); sc.after(p, 8, (c, 6))
        out.append(std(sc, T))
    for i in range(N(T, 4, 20)): # many consumers, many triggers
        sc = TG("many%d" % i, rnd); stepper(rnd, sc, *[(5, 2), (1, 30), (3, 8), (2, 20)][i % 4]); out.append(sc.explore("pct", 3, N(T, 3, 30)))
    return out

def c16(rnd, T):
    out = []
    for i in range(N(T, 70, 400)): # acknowledgements at any pace
        sc = TG("ack%d" % i, rnd); p = sc.actor(); x = sc.prod(p); nc = rnd.randint(1, 3); cs = []; total = 0
        for _ in range(nc):
            a = sc.actor(); k = sc.cons(a); n = rnd.randint(1, 3); total += n
            sc.seq(a, k, "new run " + "ack " * n); cs.append(a)
        sc.seq(p, x, "new run"); left = total
        while left > 0 and rnd.random() < .9:
            n = rnd.randint(1, min(3, left)); left -= n
            sc.seq(p, x, "wack:%d:%d" % (n, ms(rnd)))
        if rnd.random() < .4: sc.seq(p, x, "wack:%d:%d" % (rnd.choice([0, 1, 2, -1]), rnd.choice([5, 50, 0])))
        out.append(std(sc, T))
    for i in range(N(T, 20, 100)):
        sc = TG("rounds%d" % i, rnd); stepper(rnd, sc, rnd.randint(2, 3), rnd.randint(1, 2)); out.append(std(sc, T))
    for i in range(N(T, 4, 20)): # many at once
        sc = TG("mass%d" % i, rnd); p = sc.actor(); x = sc.prod(p); sc.seq(p, x, "new run"); nc, n = [(5, 1), (2, 12), (1, 30), (4, 4)][i % 4]
        for _ in range(nc): a = sc.actor(); k = sc.cons(a); sc.seq(a, k, "new run " + "ack " * n)
        h = rnd.randint(1, nc * n - 1); sc.seq(p, x, "wack:%d:0 wack:%d:%d wack:1:20" % (h, nc * n - h, rnd.choice([0, 1000]))); out.append(sc.explore("pct", 3, N(T, 4, 30)))
    return out

def c17(rnd, T):
    out = []
    for i in range(N(T, 50, 300)): # timeouts of all kinds, events before, at and after them
        sc = TG("time%d" % i, rnd); p = sc.actor(); x = sc.prod(p); nc = rnd.randint(1, 2); cs = []
        sc.seq(p, x, "new run")
        for _ in range(nc):
            a = sc.actor(); k = sc.cons(a); cs.append(a)
            sc.seq(a, k, "new run " + " ".join(rnd.choice(["wait:10", "wait:100", "wait:0", "wna:10:1", "wna:100:0", "wna:0:1", "ack"]) for _ in range(rnd.randint(2, 4))))
        for t in range(rnd.randint(2, 5)):
            o = rnd.choice(["trig", "trig", "wack:1:10", "wack:2:100", "wack:1:1", "wack:1:0"]); sc.seq(p, x, o)
            if rnd.random() < .5: a = rnd.choice(cs); sc.after(p, len(sc.ops[p - 1]), (a, rnd.randint(2, len(sc.ops[a - 1]))))
        out.append(std(sc, T, 40, 80))
    for i in range(N(T, 15, 80)): # nothing ever happens
        sc = TG("quiet%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c); t = rnd.choice([1, 10, 250, 5000])
        sc.seq(p, x, "new run wack:1:%d wack:2:%d trig" % (t, rnd.choice([t, 1]))); sc.seq(c, k, "new run wait:%d wait:%d wna:%d:1 wait:0" % (t, rnd.choice([1, 20]), t))
        sc.after(p, 5, (c, 5)) if rnd.random() < .6 else None
        out.append(std(sc, T, 30, 40))
    for i in range(N(T, 15, 80)): # the callback's verdict
        sc = TG("cb%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c)
        sc.seq(p, x, "new run trig wack:1:%d trig wack:1:0" % rnd.choice([0, 20])); sc.after(p, 3, (c, rnd.randint(2, 3)))
        sc.seq(c, k, "new run " + "".join("wna:%d:%d " % (rnd.choice([0, 30]), rnd.choice([0, 1, 7])) for _ in range(3)))
        out.append(std(sc, T, 30, 40))
    for i in range(N(T, 12, 60)): # a minute, an hour, ten days
        sc = TG("long%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c); t = [61000, 2200000, 4300000, 90000000, 300000000, 999][i % 6]; u = rnd.choice([t, 10])
        sc.seq(p, x, "new run wack:1:%d" % t); sc.seq(c, k, "new run wait:%d wna:%d:1" % (u, t))
        if rnd.random() < .6: sc.seq(p, x, "trig wack:1:%d" % t)
        if rnd.random() < .4: sc.after(p, 3, (c, 3))
        out.append(std(sc, T, 10, 10))
    return out

def c18(rnd, T):
    out = []
    for i in range(N(T, 40, 250)): # any order of lifecycle operations
        sc = TG("life%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c)
        ops = ["run", "run", "trig", "wack:1:20", "close", "del", "new"]
        sc.seq(p, x, rnd.choice(["new", "new", "trig new"]) + " " + " ".join(rnd.choice(ops) for _ in range(rnd.randint(2, 6))))
        sc.seq(c, k, rnd.choice(["new", "new", "wait:1 new", "new wait:1 ack wna:5:1"]) + " " +
               " ".join(rnd.choice(["run", "run", "wait:20", "ack", "wna:20:1", "close", "del", "new"]) for _ in range(rnd.randint(2, 6))))
        if rnd.random() < .5: sc.seq(p, x, "close"); sc.op(p, "names", 0, 1, 2); sc.op(p, "fds", 0)
        if rnd.random() < .5: sc.seq(c, k, "close"); sc.op(c, "fds", 0)
        out.append(std(sc, T, 40, 60))
    for i in range(N(T, 20, 100)): # rival producers
        sc = TG("rival%d" % i, rnd); p = sc.actor(); x = sc.prod(p); q = sc.actor(); y = sc.prod(q); c = sc.actor(); k = sc.cons(c)
        sc.seq(p, x, "new run trig wack:1:0 trig wack:1:0"); sc.seq(q, y, rnd.choice(["new del new del", "new new new", "new run close", "new"])); sc.seq(c, k, "new run wna:0:1 wna:0:1")
        sc.after(p, 3, (c, 2))
        if rnd.random() < .5: sc.seq(p, x, "close"); sc.after(q, len(sc.ops[q - 1]), (p, 7)); sc.seq(q, y, "run")
        out.append(std(sc, T, 40, 60))
    for i in range(N(T, 15, 80)): # a new producer after closing
        sc = TG("next%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c); d = sc.actor(); k2 = sc.cons(d)
        sc.seq(p, x, "new run trig wack:1:0 close new run trig wack:1:0 close"); sc.op(p, "names", 0, 1, 2)
        sc.seq(c, k, "new run wna:0:1 close"); sc.after(p, 3, (c, 2))
        sc.seq(d, k2, "new run wna:0:1 close"); sc.after(d, 2, (p, rnd.choice([5, 6]))); sc.after(p, 8, (d, 2))
        out.append(std(sc, T, 40, 60))
    for i in range(N(T, 15, 80)): # ... and the same consumer again
        sc = TG("same%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c); n = rnd.randint(1, 3)
        sc.seq(p, x, "new run " + "trig wack:1:0 " * n + "close new run trig wack:1:0 trig close"); sc.op(p, "names", 0, 1, 2)
        sc.seq(c, k, "new run " + "wna:0:1 " * n + "close" + rnd.choice([" run", " run", " wait:1 ack run", " del new run"]) + " wna:0:1 wait:0 close"); sc.after(p, 3, (c, 2))
        r = next(j for j, o in enumerate(sc.ops[c - 1]) if j > 2 + n and o[0] == "run") + 1
        sc.after(c, r, (p, 2 + 2 * n + rnd.choice([1, 3]))); sc.after(p, 2 * n + 6, (c, r))
        out.append(std(sc, T, 40, 60))
    for i in range(N(T, 15, 80)): # a consumer of the producer that crashed is still there
        sc = TG("left%d" % i, rnd); p = sc.actor(); x = sc.prod(p); c = sc.actor(); k = sc.cons(c); q = sc.actor(); y = sc.prod(q, force=1); d = sc.actor(); l = sc.cons(d); n = rnd.randint(0, 1)
        sc.seq(p, x, "new run" + " trig" * n); sc.seq(c, k, "new run"); sc.after(p, 2 + n, (c, 2)) if n else None; sc.op(p, "kill", after=[(c, 2)])
        sc.op(q, "new", y, after=[(0, p)]); sc.seq(q, y, "run"); sc.op(d, "new", l); sc.op(d, "run", l, after=[(q, 2)])
        o = rnd.choice(["ack", "ack ack", "wait:20 ack", "wait:5", "close", "del", "wna:10:1", "close run"]); sc.op(c, "nop", after=[(d, 2)]); sc.seq(c, k, o); m = 3 + len(o.split())
        w = rnd.random() < .8
        sc.op(q, "wack", y, 1, 30, after=[(c, m)] if w and "run" not in o else [(d, 2)]); sc.seq(q, y, "trig wack:1:0 trig wack:2:40 close"); sc.op(q, "names", 0, 1, 2)
        sc.op(d, "wait", l, 200); sc.seq(d, l, "ack wna:0:1 close"); out.append(sc.explore("pct", 3, 12))
    for i in range(N(T, 40, 250)): # a crash at any point, recovery with new consumers
        sc = TG("crash%d" % i, rnd); nc = rnd.randint(1, 2); p, x, cs = stepper(rnd, sc, nc, rnd.randint(1, 2))
        v = rnd.choice([p, p, cs[0][0]])
        if rnd.random() < .4: sc.seq(p, x, rnd.choice(["close", "del", "close new run"]))
        if v != p: # ... and then of its producer, too
            r = sc.actor(p); sc.op(r, "kill", 0, after=[(0, v)])
        q = sc.actor(); y = sc.prod(q, force=1); sc.seq(q, y, "new run trig wack:1:%d" % rnd.choice([0, 100]))
        # (other consumers are still there, maybe stuck)
        sc.after(q, 1, (0, p))
        c = sc.actor(); k = sc.cons(c); sc.seq(c, k, "new run wna:0:1 close"); sc.after(c, 2, (q, rnd.choice([1, 2]))); sc.after(q, 3, (c, 2))
        if rnd.random() < .5: sc.seq(q, y, "trig close"); sc.op(q, "names", 0, 1, 2)
        sc.explore("crash", v, 2 if T == "quick" else 6, 150 if T == "quick" else 1500)
        out.append(sc)
    return out

def registry():
    W = dict(C15=["duo", "pair"], C16=["acks", "pair"], C17=["timed", "pair"], C18=["life", "crash"])
    L = dict(C15=["duo"], C16=["acks"], C17=["duo", "acks"], C18=[])   # liveness
    D = dict(C15=["timed", "pair"], C16=["timed", "pair"], C17=["timed", "pair"], C18=[])
    F = dict(C15=c15, C16=c16, C17=c17, C18=c18)
    return {p: dict(make=F[p], trace="TriggerTrace", budget=90000 if p == "C18" else None,
                    worlds=[("MCTrigger", "MCTrigger.cfg", w) for w in W[p]] + [("MCTrigger", "MCTriggerLive.cfg", w) for w in L[p]],
                    deep=[("MCTrigger", "MCTriggerLive.cfg", w) for w in D[p]]) for p in F}

"""Scenarios for the bridge between tensors and topics (C26, C27)."""
import strings
from core import Scenario

def N(T, q, t): return q if T == "quick" else t
DTS = [2, 3, 1, 0]      # library's type of the announced code

class BG(Scenario):
    WORDS = ["", "a", "joint_1", "\u00e9t\u00e9", "x" * 1024, "abcd", "abcde", "four score", "\u4e2d\u6587" * 7]
    def __init__(s, sid, rnd, dt=None, lay=None, strs=False, q=None, ros2=None):
        super().__init__(sid); s.rnd, s.v, s.strs_ = rnd, 0, strs
        s.q = rnd.choice([1, 1, 1, 2, 3]) if q is None else q; s.ros2 = rnd.randrange(2) if ros2 is None else ros2
        s.dt = 2 if strs else rnd.randrange(4) if dt is None else dt; s.lay = 1 if strs else rnd.choice([1, 1, 0]) if lay is None else lay
        base = rnd.choice(["T", "T", "some.tensor", "Data"]); s.src, s.dst = s.name("A", base), s.name("to_A", base)
        s.other = s.name(*rnd.choice([("B", base), ("A", base + "2"), ("A", "NRows")]))
        if strs:
            for w in s.WORDS: s.str_(w)
        s.python = True; s.trace = "BridgeTrace"
    def verb(s): return s.rnd.choice([0, 0, 0, 3])
    def fwd(s, a, nm=None, **k):
        k = dict(dict(dt=s.dt, lay=s.lay, safe=1, rows=s.q, cols=s.ros2, verbose=s.verb()), **k); return s.obj("tos" if s.strs_ else "tor", nm or s.src, a, **k)
    def rcv(s, a, nm=None, strs=None, **k):
        k = dict(dict(rows=s.q, cols=s.ros2, verbose=s.verb()), **k); return s.obj("frs" if (s.strs_ if strs is None else strs) else "frr", nm or s.dst, a, **k)
    def topic(s, a, nm=None, dt=None, strs=None): return s.obj("top", nm or s.src, a, dt=s.dt if dt is None else dt, lay=7 if (s.strs_ if strs is None else strs) else 1, rows=s.q, cols=s.ros2)
    def srv(s, a, rows, cols, nm=None, **k):
        s.shape = rows, cols
        k = dict(dict(dt=s.dt, lay=s.lay, safe=1, rows=1 if s.strs_ else rows, cols=cols, verbose=s.verb()), **k); return s.obj("sts" if s.strs_ else "srv", nm or s.src, a, **k)
    def cli(s, a, nm=None, dt=None, **k): return s.obj("stc" if s.strs_ else "cli", nm or s.dst, a, dt=s.dt if dt is None else dt, lay=k.pop("lay", 1), safe=k.pop("safe", 1), verbose=s.verb(), **k)
    def fill(s, a, x, after=None):
        r = s.rnd; rows, cols = s.shape
        if s.strs_:
            p = r.randrange(cols); m = r.randint(1, cols - p); s.op(a, "wl", x, p, *[r.randrange(len(s.WORDS)) for _ in range(m)], after=after)
        else:
            n, m = (rows, cols) if r.random() < .5 else (r.randint(1, rows), r.randint(1, cols)); row, col = r.randint(0, rows - n), r.randint(0, cols - m)
            s.v += n * m; s.op(a, "w", x, row, col, n, m, s.v, r.choice([0, 1, 1]), 0, after=after)
    def start(s, a, x):
        s.op(a, "new", x); s.op(a, "attach" if s.objs[x - 1]["k"] == "cli" else "run", x)
    def get(s, a, k, rows=None, cols=None):
        rows, cols = rows or s.shape[0], cols or s.shape[1]
        if s.strs_: s.op(a, "rl", k, 0, cols)
        else: s.op(a, "r", k, 0, 0, rows, cols, 0)
    def look(s, a, t, ks=(1, 2, 3, 4)):
        for k in ks: s.op(a, "tl", t, k)
    def dims(s): return s.rnd.choice([(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 5)])

def c26(rnd, T):
    out = []
    for i in range(N(T, 160, 900)): # one after the other
        sc = BG("fwd%d" % i, rnd, strs=i % 4 == 3); a = sc.actor(); rows, cols = sc.dims(); s = sc.srv(a, rows, cols, safe=rnd.random() < .8); f = sc.fwd(a, safe=rnd.random() < .8); t = sc.topic(a)
        if rnd.random() < .1: sc.op(a, rnd.choice(["tupd", "trun", "tclose"]), f)
        sc.start(a, s)
        if rnd.random() < .6: sc.fill(a, s)
        sc.op(a, "new", f)
        if rnd.random() < .1: sc.op(a, rnd.choice(["tupd", "tclose"]), f)
        if rnd.random() < .2: sc.look(a, t)
        sc.op(a, "trun", f); sc.look(a, t)
        for _ in range(rnd.randint(2, 6)):
            if rnd.random() < .7: sc.fill(a, s)
            sc.op(a, "tupd", f)
            if rnd.random() < .7: sc.look(a, t, [4])
        if rnd.random() < .2: sc.op(a, "trun", f); sc.look(a, t)
        if rnd.random() < .3: # another tensor, and another forwarder of it
            o = sc.topic(a, sc.other); sc.look(a, o)
            u = sc.srv(a, 2, 2, sc.other); g = sc.fwd(a, sc.other); sc.start(a, u); sc.fill(a, u); sc.op(a, "new", g); sc.op(a, "trun", g); sc.op(a, "tupd", g); sc.look(a, o); sc.look(a, t)
            sc.shape = rows, cols
        if rnd.random() < .5:
            sc.op(a, *rnd.choice([("tclose", f), ("close", s)]))
            for _ in range(rnd.randint(1, 3)): sc.op(a, "tupd", f); sc.look(a, t, [4])
        out.append(sc.explore("pct", 1, 1))
    for i in range(N(T, 60, 300)): # while the tensor is being written, held, or only starts
        sc = BG("par%d" % i, rnd, strs=i % 4 == 3, dt=rnd.choice([0, 1, 2, 2])); a, b = sc.actor(), sc.actor(); rows, cols = sc.dims(); s = sc.srv(a, rows, cols); f = sc.fwd(b); t = sc.topic(b)
        sc.start(a, s); sc.op(b, "new", f); sc.op(b, "trun", f)
        for _ in range(rnd.randint(1, 3)): sc.op(b, "tupd", f); sc.look(b, t, [4])
        for _ in range(rnd.randint(1, 4)): sc.fill(a, s)
        if rnd.random() < .3 and not sc.strs_: sc.op(a, "acq", s); sc.op(a, rnd.choice(["rel", "rel", "close"]), s)
        if rnd.random() < .3: sc.op(a, "close", s)
        if rnd.random() < .3: c = sc.actor(); k = sc.cli(c, sc.src, lay=sc.lay); sc.start(c, k); sc.fill(c, k); sc.fill(c, k)
        out.append(sc.explore("one", 24).explore("pct", 3, 40))
    return out

def numbers(sc, n, dt): sc.v += n; return [(sc.v + i) % (2 if dt == 3 else 100000) for i in range(n)]

def c27(rnd, T):
    out = []
    for i in range(N(T, 200, 1000)): # messages from elsewhere
        code = i % 4; dt = DTS.index(code) if False else [3, 2, 0, 1][code]
        sc = BG("rcv%d" % i, rnd, dt=dt); a = sc.actor(); rows, cols = sc.dims(); sc.shape = rows, cols; t = sc.topic(a); f = sc.rcv(a, force=rnd.randrange(2)); k = sc.cli(a, dt=dt if rnd.random() < .9 else rnd.randrange(4))
        meta = [(1, rows), (2, cols), (3, code)]; rnd.shuffle(meta)
        if rnd.random() < .1: sc.op(a, rnd.choice(["spin", "frun", "fupd", "fclose"]), f)
        early = rnd.randrange(4)
        for m in meta[:early]: sc.op(a, "tp", t, *m)
        if early == 3 and rnd.random() < .5: sc.op(a, "tp", t, 4, *numbers(sc, rows * cols, dt))
        sc.op(a, "new", f); sc.op(a, "nsub", f)
        if rnd.random() < .4: sc.op(a, "frun", f)
        if rnd.random() < .3: sc.op(a, "fupd", f)
        for m in meta[early:]:
            if m[0] == 3 and rnd.random() < .15: sc.op(a, "tp", t, 3, rnd.choice([4, -1, 100]))
            sc.op(a, "tp", t, *m)
            if rnd.random() < .3: sc.op(a, "spin", f); sc.op(a, "frun", f)
        sc.op(a, "spin", f); sc.op(a, "frun", f)
        if rnd.random() < .15: sc.op(a, "fclose", f)
        sc.op(a, "nsub", f); sc.op(a, "new", k)
        if rnd.random() < .85: sc.op(a, "fupd", f)
        sc.op(a, "isrun", k)
        sc.att = len(sc.ops[a - 1])
        for j in range(rnd.randint(3, 7)):
            x = rnd.random()
            if x < .55:
                n = rows * cols
                if rnd.random() < .2: n = rnd.choice([n + 1, max(0, n - 1), 0, 2 * n])
                sc.op(a, "tp", t, 4, *numbers(sc, n, dt))
            elif x < .63: kk = rnd.choice([1, 2, 3]); sc.op(a, "tp", t, kk, rnd.choice([dict(meta)[kk], rnd.randint(0, 4)]))
            elif x < .7: sc.op(a, "frun", f)
            if rnd.random() < .8: sc.op(a, "spin", f)
            if rnd.random() < .8: sc.op(a, "fupd", f)
            if j == 0 and sc.objs[k - 1]["dt"] == dt and ("fclose", f, [], []) not in sc.ops[a - 1] or False: sc.op(a, "attach", k)
            sc.get(a, k)
        if rnd.random() < .5:
            sc.op(a, "fclose", f); sc.op(a, "nsub", f); sc.op(a, "tp", t, 4, *numbers(sc, rows * cols, dt)); sc.op(a, rnd.choice(["spin", "fupd", "frun"]), f); sc.op(a, rnd.choice(["fupd", "fclose"]), f); sc.get(a, k)
            if rnd.random() < .5: # and another one
                g = sc.rcv(a); sc.op(a, "new", g); sc.op(a, "spin", g); sc.op(a, "frun", g); sc.op(a, "spin", g); sc.op(a, "fupd", g)
        out.append(sc.explore("pct", 1, 1))
    for i in range(N(T, 60, 300)): # from tensor to tensor
        sc = BG("both%d" % i, rnd, strs=i % 3 == 2, lay=1); a, b, c = sc.actor(), sc.actor(), sc.actor(); rows, cols = rnd.choice([(1, 1), (1, 3), (2, 2), (3, 2)]); s = sc.srv(a, rows, cols); f = sc.fwd(a); r = sc.rcv(b); k = sc.cli(c)
        sc.start(a, s); sc.fill(a, s); sc.op(a, "new", f); sc.op(a, "trun", f); meta = len(sc.ops[a - 1])
        for _ in range(rnd.randint(1, 3)): sc.fill(a, s); sc.op(a, "tupd", f)
        sc.op(b, "new", r)
        if rnd.random() < .5: sc.op(b, "spin", r); sc.op(b, "frun", r)
        if rnd.random() < .8: sc.op(b, "spin", r, after=[(a, meta)])
        for _ in range(2): sc.op(b, "frun", r); sc.op(b, "spin", r); sc.op(b, "fupd", r)
        sc.op(b, "fupd", r, after=[(a, len(sc.ops[a - 1]))])
        sc.op(b, "spin", r); sc.op(b, "frun", r); sc.op(b, "spin", r); sc.op(b, "fupd", r); n = len(sc.ops[b - 1])
        if rnd.random() < .3: sc.op(b, "fclose", r)
        sc.start(c, k)
        for _ in range(rnd.randint(1, 2)): sc.get(c, k)
        if rnd.random() < .3 and not sc.strs_: sc.op(c, "acq", k); sc.get(c, k); sc.op(c, "rel", k)
        sc.op(c, "nop", 0, after=[(b, n)]); sc.get(c, k)
        out.append(sc.explore("one", 20).explore("pct", 3, 30))
    return out

def registry():
    W = lambda *ws: [("MCBridge", "MCBridge.cfg", w) for w in ws]
    R = lambda f, *ws: dict(make=f, python=True, trace="BridgeTrace", worlds=W(*ws), deep=W("odd", "both2"), budget=90000)
    return {"C26": R(c26, "fwd", "both"), "C27": R(c27, "rcv", "both")}

"""Scenarios for the Python bindings (C22 - C25): the scenarios of the C++ classes
played through Python, arbitrary arrays, and the classes that exist in Python only."""
import tensors, triggers, strings
from core import Scenario

def N(T, q, t): return q if T == "quick" else t

def offered(scs, share=1.0, rnd=None, direct=False):
    """the scenarios without the operations that Python does not offer"""
    out = []
    for sc in scs:
        if rnd and rnd.random() > share: continue
        sc.python = True
        for a, ops in enumerate(sc.ops):
            for i, (o, x, p, after) in enumerate(ops):
                k = sc.objs[x - 1]["k"] if x else ""
                if o == "wna": ops[i] = ("wait", x, p[:1], after)
                elif o in ("issrv", "view", "own") or (o == "ncl" and k == "stc"): ops[i] = ("isrun", x, [], after) if x and k not in ("prod", "cons") else ("nop", 0, [], after)
                elif o == "rl" and p[1] == 0: ops[i] = ("rl", x, [p[0], 1], after)
        if direct:
            for o in sc.objs:
                if o["k"] in ("srv", "cli") and rnd.random() < .3: o["verbose"] += 16
        # (a schedule costs more here)
        sc.explores = [shrink(e) for e in sc.explores]
        out.append(sc)
    return out

def shrink(e):
    t = e.split()
    if t[0] == "one": t[1] = str(max(1, int(t[1]) // 4))
    if t[0] == "pct": t[2] = str(max(1, int(t[2]) // 4))
    return " ".join(t)

# ------------------------------------------------------------------ C22
def array(rnd, rows, cols, dt, lay, wr):
    """arguments of aw / ar: an array of any kind"""
    n, m = rnd.randint(1, rows), rnd.randint(1, cols)
    if rnd.random() < .05: n, m = rnd.choice([(0, m), (n, 0), (rows + 1, m), (n, cols + 1)])
    row, col = rnd.randint(0, max(0, rows - n)), rnd.randint(0, max(0, cols - m))
    if rnd.random() < .12: row, col = rnd.choice([(-1, col), (row, -1), (rows - n + 1, col), (row, cols - m + 1), (rows, 0), (0, cols), (-2147483648, 0), (2147483647, col)])
    adt, nd, mis, part, wrt = dt, 2, 0, 0, 1
    k = rnd.random()
    if k < .10: adt = rnd.choice([i for i in range(15) if i != dt])
    elif k < .16: nd = rnd.choice([0, 1, 3, 4])
    elif k < .20: mis = rnd.randint(1, 7)
    elif k < .24: part = rnd.randint(1, 3)
    elif k < .30: wrt = 0
    size = [4, 8, 4, 1][adt] if adt < 4 else 4
    if size == 1 or n < 2 or m < 1: part = 0
    elif part: part = rnd.choice([q for q in (1, 2, 3) if q % size])
    # two strides, so that no two elements are the same one
    kind = rnd.random()
    inner = rnd.choice([1, 1, 1, 2, 3, -1, -1, -2]); gap = rnd.choice([0, 0, 1, 2, 5])
    a, b = (n, m) if kind < .5 or (kind < .8) == (lay == 1) else (m, n)  # (a: the outer one)
    if lay == 0 and kind < .5: a, b = m, n
    outer = (abs(inner) * max(b, 1) + gap) * rnd.choice([1, 1, 1, 1, -1])
    rowouter = (a, b) == (n, m) if n != m else (kind < .8) == (lay == 1)
    s0, s1 = (outer, inner) if rowouter else (inner, outer)
    if n == m or n == 0 or m == 0:
        if rnd.random() < .75: s0, s1 = (outer, inner) if lay == 1 else (inner, outer)
    if wr and rnd.random() < .06: s0, s1 = rnd.choice([(0, s1), (s0, 0), (0, 0)])       # a broadcast
    if rnd.random() < .04 and (n <= 1 or m <= 1): s0, s1 = rnd.choice([(s0, 100 if n > 1 else s1), (100 if n == 1 else s0, s1), (s0, 0 if m == 1 else s1), (0 if n == 1 else s0, s1)])
    xs = [i * s0 + j * s1 for i in range(max(n, 1)) for j in range(max(m, 1))]
    if n and m and not wr and len(set(xs)) < n * m: return array(rnd, rows, cols, dt, lay, wr)
    off = -min(xs) + rnd.choice([0, 0, 1, 3]); ln = off + max(xs) + 1 + rnd.choice([0, 1, 4])
    return [row, col, n, m, rnd.randint(-50, 1000), rnd.choice([1, 1, 1, 3]), adt, nd, off, s0, s1, ln, mis, part, wrt]

def c22(rnd, T):
    out = []
    for i in range(N(T, 320, 1600)):
        sc = tensors.Gen("arr%d" % i, rnd); a = sc.actor(); rows, cols = rnd.choice([(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 4), (4, 5)])
        sc.dt, sc.lay = i % 4, i // 4 % 2
        s = sc.srv(a, rows, cols, safe=rnd.randrange(2)); k = sc.cli(a, safe=rnd.randrange(2))
        for o in sc.objs: o["verbose"] += 16 * (rnd.random() < .4)
        sc.seq(a, s, rnd.choice(["new run", "new run w", "new run w stop run"]), rows, cols); sc.seq(a, k, "new attach")
        for _ in range(rnd.randint(8, 16)):
            x = rnd.choice([s, k]); wr = rnd.random() < .5; p = array(rnd, rows, cols, sc.dt, sc.lay, wr)
            sc.op(a, "aw" if wr else "ar", x, *p)
            if rnd.random() < .4: sc.r(a, rnd.choice([s, k]), rows, cols)
            if rnd.random() < .08: sc.seq(a, rnd.choice([s, k]), rnd.choice(["isrun", "dims", "info"]))
        sc.r(a, s, rows, cols)
        if rnd.random() < .3: # and without a server
            sc.seq(a, *rnd.choice([(k, "detach"), (s, "stop"), (k, "close"), (s, "close")]))
            for x in (s, k):
                wr = rnd.random() < .5; sc.op(a, "aw" if wr else "ar", x, *array(rnd, rows, cols, sc.dt, sc.lay, wr))
        out.append(sc.explore("pct", 1, 1))
    for i in range(N(T, 24, 200)): # at the same time
        sc = tensors.Gen("par%d" % i, rnd); rows, cols = rnd.choice([(2, 2), (3, 2), (1, 3)]); a, b = sc.actor(), sc.actor()
        s = sc.srv(a, rows, cols); k = sc.cli(b); sc.seq(a, s, "new run w", rows, cols); sc.seq(b, k, "new attach")
        for x, y in ((a, s), (b, k)):
            for _ in range(rnd.randint(2, 4)):
                wr = rnd.random() < .5
                if rnd.random() < .7: sc.op(x, "aw" if wr else "ar", y, *array(rnd, rows, cols, sc.dt, sc.lay, wr))
                else: sc.seq(x, y, rnd.choice(["w", "r", "acq rel", "pw", "pr"]), rows, cols)
        out.append(sc.explore("one", 12).explore("pct", 3, 12))
    scs = []
    for f, share in (("C01", .15), ("C02", .25), ("C04", .25), ("C05", .3), ("C06", .15), ("C07", .06), ("C09", .25), ("C13", .15)):
        for sc in tensors.FAMILIES[f](rnd, "quick"):
            if sc.id != "collide" and rnd.random() < (2 * share if T == "quick" else 1): sc.id = f + sc.id; scs.append(sc)
    for sc in out: sc.python = True
    out += offered(scs, rnd=rnd, direct=True)
    for sc in out:
        for o in sc.objs: o["verbose"] += 32    # (elements that use all bits)
    return out

# ------------------------------------------------------------------ C23
def take(rnd, T, fams):
    out = []
    for fam, trace, share in fams:
        for sc in fam(rnd, "quick"):
            if rnd.random() < (share if T == "quick" else 1): sc.id = fam.__name__ + sc.id; sc.trace = trace; out.append(sc)
    return out

def c23(rnd, T):
    out = offered(take(rnd, T, [(triggers.c15, "TriggerTrace", .5), (triggers.c16, "TriggerTrace", .5), (triggers.c17, "TriggerTrace", .5), (triggers.c18, "TriggerTrace", .5),
                                (strings.c20, "StringTrace", .6), (strings.c21, "StringTrace", .5)]))
    for i in range(N(T, 30, 200)): # strings that are text and strings that are not
        sc = strings.SG("text%d" % i, rnd); n = rnd.randint(1, 5); a, xs = strings.pair(sc, n)
        good = [sc.str_(t.encode()[:1024]) for t in ("", "a", "\u00e9t\u00e9", "\u4e2d\u6587" * 20, "\U0001f600" * 256, "x" * 1024, "a" * 1023)]
        bad = [sc.str_(b) for b in (b"\xff", b"ab\xc3", b"\xed\xa0\x80", b"ok\x80" * 30, "\u4e2d".encode() * 340 + b"abc\xe4")]
        for _ in range(rnd.randint(8, 20)):
            x = rnd.choice(xs); p = rnd.randrange(n); m = rnd.randint(1, n - p + (rnd.random() < .1))
            if rnd.random() < .5: strings.put(sc, a, x, p, [rnd.choice(good if rnd.random() < .8 else bad) for _ in range(m)])
            else: strings.get(sc, a, x, p, m)
        sc.op(a, "rl", rnd.choice(xs), 0, n); sc.trace = "StringTrace"; sc.python = True
        out.append(sc.explore("pct", 1, 1))
    return out

# ------------------------------------------------------------------ C24
class VG(Scenario):
    def __init__(s, sid, rnd, rows, cols, dt=None, safe=None):
        super().__init__(sid); s.rnd, s.rows, s.cols, s.v = rnd, rows, cols, 0
        s.n1 = s.name("ns", "V"); s.dt = rnd.randrange(4) if dt is None else dt; s.safe = (rnd.random() < .75) if safe is None else safe
        s.python = True; s.trace = "ViewTrace"
    def view(s, a, srv, **k):
        k.setdefault("safe", int(s.safe)); k.setdefault("dt", s.dt)
        return s.obj("vws" if srv else "vwc", s.n1, a, lay=1, rows=s.rows if srv else 0, cols=s.cols if srv else 0, verbose=s.rnd.choice([0, 0, 0, 3]), **k)
    def new(s, a, x, after=None, tor=None, fill=None):
        r = s.rnd; has = r.randrange(2) if fill is None else fill
        s.op(a, "new", x, has, r.randint(-9, 60) if has else 0, r.choice([0, 0, 1, 2, 2, 3]) if tor is None else tor, after=after)
    def val(s, n=1): s.v += n; return s.v
    def block(s, wild=.12):
        r = s.rnd; n, m = r.randint(1, s.rows), r.randint(1, s.cols); row, col = r.randint(0, s.rows - n), r.randint(0, s.cols - m)
        if r.random() < wild: n, m, row, col = r.choice([(n, m, -1, col), (n, m, row, -1), (n, m, s.rows - n + 1, col), (n, m, row, s.cols - m + 1), (s.rows + 1, m, 0, col), (n, s.cols + 1, row, 0), (n, m, s.rows, 0), (n, m, 0, s.cols + 3), (0, m, row, col), (n, 0, row, col)])
        return row, col, n, m
    def cell(s, wild=.12):
        r = s.rnd; row, col = r.randrange(s.rows), r.randrange(s.cols)
        return r.choice([(s.rows, col), (row, s.cols), (-1, col), (row, -1), (-s.rows, col), (s.rows + 5, -7)]) if r.random() < wild else (row, col)
    def some(s, a, x, ops, wild=.12):
        r = s.rnd; o = r.choice(ops.split())
        flat = r.random() < wild / 2
        if o in ("vw", "vwr"): b = s.block(wild); s.op(a, o, x, *b, s.val(b[2] * b[3]), r.choice([0, 1, 1]), 8 + r.randrange(6) if flat else r.randrange(6))
        elif o in ("vr", "vrr"): s.op(a, o, x, *s.block(wild), 8 + r.randrange(6) if flat else r.randrange(6))
        elif o in ("vs", "vsr"): s.op(a, o, x, *s.cell(wild), s.val(), 8 + r.randrange(3) if flat else r.randrange(4))
        elif o in ("vrs", "vrsr"): s.op(a, o, x, *s.cell(wild))
        elif o in ("sy", "syr"): s.op(a, o, x, *s.block(wild), r.randrange(2))
        elif o == "sa": s.op(a, o, x, r.randrange(2), r.randrange(2))
        elif o in ("mset", "gset"): s.op(a, o, x, r.randrange(s.rows), r.randrange(s.cols), s.val())
        elif o == "gsy": s.op(a, o, x, r.randrange(2))
        else: s.op(a, o, x)

VALL = "vw vwr vs vsr vr vrr vrs vrsr sy syr sa tz vw vs vr sy sa mset mir vrs"
VLOC = "mir tmir mset gget gset gsy gsy has isrun dims"
def c24(rnd, T):
    out = []; dims = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 4), (4, 3)]
    for i in range(N(T, 200, 1000)): # one after the other: all operations, all positions and shapes
        sc = VG("seq%d" % i, rnd, *dims[i % 7], dt=i // 7 % 4); a = sc.actor(); s = sc.view(a, True, force=rnd.randrange(2)); k = sc.view(a, False)
        if rnd.random() < .1: sc.some(a, rnd.choice([s, k]), VALL)
        sc.new(a, s)
        if rnd.random() < .15: sc.some(a, s, VALL + " " + VLOC)
        sc.op(a, "run", s); sc.new(a, k)
        if rnd.random() < .15: sc.some(a, k, VALL + " " + VLOC)
        sc.op(a, "run", k); sc.op(a, "mir", k)
        for _ in range(rnd.randint(10, 18)):
            x = rnd.choice([s, k]); sc.some(a, x, VALL if rnd.random() < .7 else VLOC)
            if rnd.random() < .3: sc.op(a, "mir", x)
        if rnd.random() < .35: # held
            x, y = rnd.choice([(s, k), (k, s), (s, s)]); sc.op(a, "acq", x)
            for _ in range(rnd.randint(1, 4)): sc.some(a, y, "vw vs vr vrs sy mir" if sc.safe else VALL)
            sc.op(a, "rel", x); sc.some(a, y, VALL)
        if rnd.random() < .3: sc.op(a, "ncl", rnd.choice([s, k]))
        if rnd.random() < .5: # closed
            x = rnd.choice([s, k]); sc.op(a, rnd.choice(["close", "close", "del"]), x)
            for _ in range(rnd.randint(2, 5)): sc.some(a, rnd.choice([s, k]), VALL + " isrun isrun mir")
            if rnd.random() < .5: sc.op(a, "run", k) if x == k else sc.op(a, "isrun", s)
        else: sc.op(a, "sa", k, 1, 1); sc.op(a, "mir", k); sc.op(a, "vr", s, 0, 0, sc.rows, sc.cols, 0)
        out.append(sc.explore("pct", 1, 1))
    for i in range(N(T, 50, 250)): # a client starting while the server does, and everything at the same time
        sc = VG("par%d" % i, rnd, *rnd.choice(dims[:5]), safe=True); a, b = sc.actor(), sc.actor(); s = sc.view(a, True); k = sc.view(b, False)
        sc.new(a, s); sc.op(a, "run", s); sc.new(b, k); sc.op(b, "run", k)
        for _ in range(rnd.randint(2, 4)): sc.some(a, s, VALL, .04); sc.some(b, k, VALL, .04)
        if rnd.random() < .3: sc.op(a, rnd.choice(["close", "del"]), s)
        else: sc.op(a, "vr", s, 0, 0, sc.rows, sc.cols, 0)
        sc.op(b, "vr", k, 0, 0, sc.rows, sc.cols, 0)
        out.append(sc.explore("one", 30).explore("pct", 3, 50))
    for i in range(N(T, 24, 120)): # starting: the fill value is there when run returns
        sc = VG("start%d" % i, rnd, *rnd.choice(dims[:4]), safe=True); a = sc.actor(); s = sc.view(a, True); sc.new(a, s, fill=1); sc.op(a, "run", s); sc.op(a, "vr", s, 0, 0, sc.rows, sc.cols, 0)
        for _ in range(rnd.randint(1, 2)):
            b = sc.actor(); k = sc.view(b, False); sc.new(b, k); sc.op(b, "run", k); sc.op(b, "vr", k, 0, 0, sc.rows, sc.cols, 0)
            if rnd.random() < .5: sc.op(b, "vr", k, 0, 0, sc.rows, sc.cols, 0)
        out.append(sc.explore("one", 60).explore("pct", 3, 80))
    for i in range(N(T, 24, 120)): # retrying while somebody holds the tensor, or nobody is there any more
        sc = VG("retry%d" % i, rnd, *rnd.choice(dims[:4]), safe=True); a, b = sc.actor(), sc.actor(); s = sc.view(a, True); k = sc.view(b, False)
        sc.new(a, s); sc.op(a, "run", s); sc.new(b, k); sc.op(b, "run", k)
        kind = rnd.random()
        sc.op(a, "acq", s)
        if rnd.random() < .5: sc.some(a, s, "vw vs vr vrs sy", 0)
        sc.op(a, rnd.choice(["rel", "rel", "rel", "close"]) if kind < .8 else "nop", s if kind < .8 else 0)
        sc.some(a, s, VALL, 0)
        for _ in range(rnd.randint(1, 3)): sc.some(b, k, "vwr vsr vrr vrsr syr sa tz", 0)
        sc.op(b, "mir", k)
        out.append(sc.explore("one", 30).explore("pct", 3, 50))
    for i in range(N(T, 10, 60)): # three
        sc = VG("three%d" % i, rnd, *rnd.choice(dims[:4]), safe=True); a, b, c = sc.actor(), sc.actor(), sc.actor(); s = sc.view(a, True); k = sc.view(b, False); l = sc.view(c, False)
        for p, x in ((a, s), (b, k), (c, l)):
            sc.new(p, x, tor=0); sc.op(p, "run", x)
            for _ in range(rnd.randint(1, 3)): sc.some(p, x, VALL, .02)
            sc.op(p, "vr", x, 0, 0, sc.rows, sc.cols, 0)
        out.append(sc.explore("one", 24).explore("pct", 3, 40))
    return out

# ------------------------------------------------------------------ C25
class DG(Scenario):
    WORDS = ["q", "v", "joint torque", "", "\u03c4_1", "a" * 60, "f contact", "dd"]
    def __init__(s, sid, rnd, safe=True):
        super().__init__(sid); s.rnd, s.v, s.safe = rnd, 0, safe
        s.n1 = s.name(rnd.choice(["ns", "other"]), "debug_data")
        k = rnd.choice([1, 2, 2, 3, 3, 4]); s.ids = rnd.sample(range(8), k); s.dims = [rnd.choice([1, 1, 2, 2, 3, 0]) for _ in s.ids]
        if not sum(s.dims): s.dims[-1] = 2
        s.cols = rnd.choice([1, 1, 2, 3])
        for w in s.WORDS: s.str_(w)
        s.python = True; s.trace = "DictTrace"
    def dic(s, a, srv, **k):
        return s.obj("dcs" if srv else "dcc", s.n1, a, dt=0, lay=1, safe=int(s.safe), rows=sum(s.dims) if srv else 0, cols=s.cols if srv else 0, verbose=s.rnd.choice([0, 0, 0, 3]), **k)
    def new(s, a, x, after=None): s.op(a, "new", x, *([len(s.ids)] + s.ids + s.dims if s.objs[x - 1]["k"] == "dcs" else []), after=after)
    def write(s, a, x, wild=.12, retry=None):
        r = s.rnd; i = r.randrange(len(s.ids)); nm = s.ids[i]; n, m = s.dims[i], s.cols; mode = r.choice([0, 0, 0, 1, 2, 3, 4, 6])
        if n == 0: n = 1        # (never fits)
        elif r.random() < .15: n, m = r.randint(1, n), r.randint(1, m)
        if r.random() < wild:
            k = r.randrange(6)
            if k == 0: nm = r.choice([j for j in range(9) if j not in s.ids])
            elif k == 1: n += r.randint(1, 2)
            elif k == 2: m += 1
            elif k == 3: mode = r.choice([8, 9])
            elif k == 4: n, m = r.choice([(0, m), (n, 0)]); mode = 0
            else: n = sum(s.dims) + r.randrange(2)
        if mode < 8 and n == 1 and r.random() < .3: mode = 7 if m == 1 and r.random() < .5 else 5
        s.v += n * m; s.op(a, "dw", x, nm, s.v, r.choice([0, 1, 1]), n, m, mode, r.randrange(2) if retry is None else retry)
    def some(s, a, x, wild=.12, ops="dw dw dw ds ds dg dg dnames ddims"):
        r = s.rnd; o = r.choice(ops.split())
        if o == "dw": s.write(a, x, wild)
        elif o == "ds": s.op(a, o, x, r.randrange(2))
        elif o == "dg": s.op(a, o, x, r.choice(s.ids) if r.random() > wild else r.choice([j for j in range(9) if j not in s.ids]))
        else: s.op(a, o, x)
    def whole(s, a, x):
        s.op(a, "ds", x, 1)
        for i in s.ids: s.op(a, "dg", x, i)

def c25(rnd, T):
    out = []
    for i in range(N(T, 160, 800)): # one after the other
        sc = DG("seq%d" % i, rnd, safe=rnd.random() < .8); a = sc.actor(); s = sc.dic(a, True, force=rnd.randrange(2)); ks = [sc.dic(a, False) for _ in range(rnd.choice([1, 1, 2]))]
        if rnd.random() < .1: sc.some(a, rnd.choice([s] + ks))
        sc.new(a, s)
        if rnd.random() < .1: sc.some(a, s)
        sc.op(a, "run", s)
        if rnd.random() < .4: sc.write(a, s, 0)
        for k in ks:
            sc.new(a, k)
            if rnd.random() < .1: sc.some(a, k)
            sc.op(a, "run", k); sc.op(a, "dnames", k); sc.op(a, "ddims", k)
        if rnd.random() < .3: sc.op(a, "dg", ks[0], rnd.choice(sc.ids))
        for _ in range(rnd.randint(8, 14)): sc.some(a, rnd.choice([s] + ks))
        if rnd.random() < .3 and sc.safe:
            x, y = rnd.choice([(s, ks[0]), (ks[0], s), (s, s)]); sc.op(a, "acq", x)
            for _ in range(rnd.randint(1, 3)):
                if rnd.random() < .5: sc.write(a, y, .1, 0)
                else: sc.op(a, "ds", y, 0)
            sc.op(a, "rel", x)
        for x in [s] + ks: sc.whole(a, x)
        if rnd.random() < .5:
            x = rnd.choice([s] + ks); sc.op(a, rnd.choice(["close", "close", "del"]), x)
            for _ in range(rnd.randint(1, 4)): sc.some(a, rnd.choice([s] + ks))
            if x == s and rnd.random() < .6: # and another one
                t = sc.dic(a, True); sc.new(a, t); sc.op(a, "run", t); sc.write(a, t, 0); sc.whole(a, t)
        out.append(sc.explore("pct", 1, 1))
    for i in range(N(T, 40, 200)): # starting in any order, and using at the same time
        sc = DG("start%d" % i, rnd); a = sc.actor(); s = sc.dic(a, True); sc.new(a, s); sc.op(a, "run", s)
        for _ in range(rnd.choice([0, 1, 2])): sc.some(a, s, .03)
        for _ in range(rnd.choice([1, 1, 2])):
            b = sc.actor(); k = sc.dic(b, False); sc.new(b, k); sc.op(b, "run", k); sc.op(b, "dnames", k); sc.op(b, "ddims", k); sc.write(b, k, 0)
            for _ in range(rnd.choice([0, 1, 2])): sc.some(b, k, .03)
            sc.whole(b, k)
        sc.whole(a, s)
        out.append(sc.explore("one", 40).explore("pct", 3, 60))
    return out

def registry():
    S = [("MCString", "MCString.cfg", w) for w in ("data", "life")]; G = [("MCTrigger", "MCTrigger.cfg", w) for w in ("duo", "timed")]
    V = [("MCView", "MCView.cfg", w) for w in ("fill", "data", "mirror", "retry")]
    D = [("MCDict", "MCDict.cfg", w) for w in ("start", "blocks")]
    return {"C25": dict(make=c25, python=True, trace="DictTrace", worlds=D, deep=[("MCDict", "MCDict.cfg", "blocks2")], budget=90000), "C24": dict(make=c24, python=True, trace="ViewTrace", worlds=V, deep=[("MCView", "MCView.cfg", "data2")], budget=90000), "C23": dict(make=c23, python=True, trace="StringTrace", worlds=S + G, deep=[("MCString", "MCString.cfg", "data2"), ("MCTrigger", "MCTrigger.cfg", "pair")], budget=90000),
            "C22": dict(make=c22, python=True, trace="PyTrace", worlds=[("MCPyTensor", "MCPyTensor.cfg", w) for w in ("rowm", "colm")],
                        deep=[("MCPyTensor", "MCPyTensor.cfg", w) for w in ("rowm2", "colm2")], budget=90000)}

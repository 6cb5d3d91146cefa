"""Scenarios for C14: every block at every position of small tensors, and a
sample of larger ones, through every element type, layout and kind of argument."""
from tensors import Gen

def boxes(rows, cols):
    return [(r, c, n, m) for r in range(-1, rows + 1) for c in range(-1, cols + 1) for n in range(1, rows + 2) for m in range(1, cols + 2)]

def rwcase(sc, a, s, k, b, rows, cols):
    rnd = sc.rnd; x, y = rnd.choice([(s, k), (k, s), (s, s), (k, k)])
    row, col, n, m = b
    sc.w(a, x, n, m, row, col); sc.r(a, y, rows, cols); sc.r(a, rnd.choice([x, y]), n, m, row, col)

def c14(rnd, T):
    out = []; big = 3 if T == "quick" else 4
    def cases(tag, rows, cols, bs, dt, lay):
        for i in range(0, len(bs), 50):
            sc = Gen("%s_%dx%d_%d%d_%d" % (tag, rows, cols, dt, lay, i), rnd); sc.dt, sc.lay = dt, lay
            a = sc.actor(); s = sc.srv(a, rows, cols, safe=rnd.randrange(2)); k = sc.cli(a, safe=rnd.randrange(2))
            sc.seq(a, s, "new run"); sc.seq(a, k, "new attach"); sc.w(a, s, rows, cols)
            for b in bs[i:i + 50]: rwcase(sc, a, s, k, b, rows, cols)
            out.append(sc)
    for rows in range(1, big + 1):
        for cols in range(1, big + 1):
            bs = boxes(rows, cols)
            for dt in range(4):
                for lay in range(2):
                    cases("all", rows, cols, [b for b in bs if T != "quick" or rnd.random() < .9], dt, lay)
    for i in range(60 if T == "quick" else 400):
        rows, cols = rnd.choice([(rnd.randint(1, 12), rnd.randint(1, 12)), (1, rnd.randint(5, 40)), (rnd.randint(5, 40), 1)])
        bs = []
        for _ in range(12):
            n, m = rnd.randint(1, rows), rnd.randint(1, cols); b = [rnd.randint(0, rows - n), rnd.randint(0, cols - m), n, m]
            if rnd.random() < .3:
                q = rnd.randrange(6)
                if q == 0: b[0] = rows - n + rnd.randint(1, 3)
                elif q == 1: b[1] = cols - m + rnd.randint(1, 3)
                elif q == 2: b[rnd.randrange(2)] = -rnd.randint(1, 3)
                elif q == 3: b[rnd.randrange(2)] = rnd.choice([2147483000, -2147483000, 65536, 1 << 24])
                elif q == 4: b[rnd.randrange(2)] = rnd.choice([rows, cols])
                else: b[2:] = [m, n]
            bs.append(tuple(b))
        cases("big%d" % i, rows, cols, bs, rnd.randrange(4), rnd.randrange(2))
    for i in range(40 if T == "quick" else 200): # views of ordinary matrices
        sc = Gen("view%d" % i, rnd); a = sc.actor()
        rows, cols = rnd.randint(1, 5), rnd.randint(1, 5); bs = boxes(rows, cols); rnd.shuffle(bs)
        for b in bs[:60]:
            row, col, n, m = b
            if rnd.random() < .05: n = -n
            elif rnd.random() < .05: m = -m
            elif rnd.random() < .05: n = 0
            sc.op(a, "view", 0, rnd.randrange(4), rnd.randrange(2), rows, cols, row, col, n, m)
        out.append(sc)
    return out

def registry():
    return {"C14": dict(make=c14, worlds=[("MCBlocks", "MCBlocks.cfg", "blocks3"), ("MCBlocks", "MCBlocks.cfg", "blocks4")], trace="TensorTrace", rounds=3)}

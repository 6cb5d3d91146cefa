#!/usr/bin/env python3
"""Which parts of the specification does nothing recorded, or no world, ever need?
coverage.py <dir> PID...: runs the checks with TLC's coverage written to dir (kept between runs);
coverage.py <dir>: prints, for every module of the specification, the expressions that were
never evaluated (a) in validating recorded executions (*Trace modules) and (b) in the worlds (MC modules)."""
import glob, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = sys.argv[1]; os.makedirs(d, exist_ok=True)
for p in sys.argv[2:]:
    subprocess.run(["python3", os.path.join(V, "checks", "run.py"), p, "quick"], env=dict(os.environ, VP_COVERAGE=d))
if len(sys.argv) > 2: sys.exit()
spot = re.compile(r"^\s*\|*<?(?:\w+ )?line (\d+), col (\d+) to line (\d+), col (\d+) of module (\w+)(?: \([^)]*\))?>?: ([\d:,]+)")
for kind in ("Trace", "MC"):
    count = {}
    for f in glob.glob(os.path.join(d, "*.txt")):
        if (kind == "MC") != os.path.basename(f).startswith("MC"): continue
        t = open(f).read(); i = t.rfind("The coverage statistics at")
        for l in t[i:].split("\n"):
            m = spot.match(l)
            if m:
                k = (m[5], int(m[1]), int(m[2]), int(m[3]), int(m[4])); n = int(m[6].replace(",", "").split(":")[-1]); count[k] = count.get(k, 0) + n
    zero = sorted(k for k, n in count.items() if n == 0)
    reached = {(k[0], k[1], k[3], k[4]) for k, n in count.items() if n}      # (an arm of a CASE is counted as a whole, or not)
    zero = [k for k in zero if (k[0], k[1], k[3], k[4]) not in reached]
    zero = [k for k in zero if not any(o != k and o[0] == k[0] and (o[1], o[2]) <= (k[1], k[2]) and (k[3], k[4]) <= (o[3], o[4]) for o in zero)]
    print("==== %s: %d spots, %d never reached" % (kind, len(count), len(zero)))
    for m, a, b, c, e in zero:
        L = open(os.path.join(V, "spec", m + ".tla")).read().split("\n")
        print("%s:%d  %s" % (m, a, (L[a - 1][b - 1:e] if a == c else L[a - 1][b - 1:] + " ...")))

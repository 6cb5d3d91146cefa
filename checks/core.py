"""Scenarios, exploration of the real code, and validation of the recorded
executions against the TLA+ specifications (TLC)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = os.environ.get("VERIF_CM", "")
NCPU = os.cpu_count() or 4

def find_community():
    for p in glob.glob("/opt/veriftools/tla/*.jar"):
        if "ommunity" in p:
            return p
    return ""

class CheckError(Exception):
    pass

class Scenario:
    """what exists and what every actor does"""
    def __init__(self, sid, timed=False):
        self.id, self.timed = sid, timed
        self.names, self.actors, self.objs, self.ops, self.strs, self.explores = [], [], [], [], [], []
        self.python, self.trace = False, None   # trace: the module that judges its executions

    def name(self, ns, base):
        self.names.append((ns, base)); return len(self.names)

    def actor(self, proc=None):
        """proc: process number from 1"""
        self.actors.append(len(self.actors) + 1 if proc is None else proc)
        self.ops.append([]); return len(self.actors)

    def obj(self, kind, name, proc, dt=2, lay=1, safe=1, force=0, rows=2, cols=2, verbose=0):
        self.objs.append(dict(k=kind, nm=name, proc=proc, dt=dt, lay=lay, safe=safe, force=force, rows=rows, cols=cols, verbose=verbose))
        return len(self.objs)

    def str_(self, b):
        if isinstance(b, str): b = b.encode()
        if b in self.strs: return self.strs.index(b)
        self.strs.append(b); return len(self.strs) - 1

    def op(self, actor, o, x=0, *a, after=None):
        self.ops[actor - 1].append((o, x, list(a), list(after or []))); return len(self.ops[actor - 1])

    def explore(self, *e):
        self.explores.append(" ".join(str(i) for i in e)); return self

    def text(self, explores=None):
        L = ["scenario " + self.id]
        if self.timed: L.append("timed")
        for i, (ns, b) in enumerate(self.names): L.append("name %d %s %s" % (i + 1, ns or "-", b or "-"))
        for p in self.actors: L.append("actor %d" % (p - 1))
        for i, s in enumerate(self.strs): L.append("str %d %s" % (i, s.hex() or "-"))
        for i, o in enumerate(self.objs):
            L.append("obj %d %s %d %d %d %d %d %d %d %d" % (i + 1, o["k"], o["nm"], o["dt"], o["lay"], o["safe"], o["force"], o["rows"], o["cols"], o["verbose"]))
        for i, ops in enumerate(self.ops):
            for o, x, a, after in ops:
                L.append("op %d %s %s %d %s" % (i + 1, ",".join("%d:%d" % t for t in after) or "-", o, x, " ".join(map(str, a))))
        for e in (self.explores if explores is None else explores): L.append("explore " + e)
        L.append("end")
        return "\n".join(L) + "\n"

    def json(self):
        d = dict(id=self.id, nnames=len(self.names), procs=self.actors, strs=[len(s) for s in self.strs],
                    objs=[dict(k=o["k"], nm=o["nm"], proc=o["proc"], dt=o["dt"], lay=o["lay"], safe=bool(o["safe"]),
                               force=bool(o["force"]), rows=o["rows"], cols=o["cols"]) for o in self.objs])
        if self.python:
            d["text"] = [text(s) for s in self.strs]
            topics = [(ns[3:] if ns.startswith("to_") else ns, b) for ns, b in self.names]     # (see harness/ros.py)
            d["tids"] = [topics.index(t) + 1 for t in topics]
        return d

def text(b):
    try: b.decode(); return True
    except UnicodeDecodeError: return False

# ------------------------------------------------------------------ building
def build(work, python=False):
    out = os.path.join(work, "build")
    if python: os.environ.update(VP_PYPKG=out, VP_PYOPS=os.path.join(VERIF, "harness"))
    r = subprocess.run([os.path.join(VERIF, "harness", "pybuild.sh" if python else "build.sh"), REPO, out], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the harness does not build:\n" + (r.stdout + r.stderr)[-4000:])
    return os.path.join(out, "driver")

# ------------------------------------------------------------------ exploring
def explore(driver, scenarios, work, seed, tag="x"):
    f = os.path.join(work, tag + ".scn")
    with open(f, "w") as h:
        for s in scenarios: h.write(s.text())
    pre = os.path.join(work, tag + ".out")
    r = subprocess.run([driver, "explore", f, pre, str(NCPU), str(seed)], capture_output=True, text=True)
    if r.returncode: raise CheckError("exploration failed: " + r.stdout + r.stderr)
    m = re.search(r"executions (\d+) deaths (\d+)", r.stdout)
    execs = int(m.group(1))
    traces = {}
    for w in range(NCPU):
        p = "%s.%d" % (pre, w)
        if not os.path.exists(p): continue
        for line in open(p, errors="replace"):
            if not line.startswith("T "): continue
            f = [t.strip() for t in line[2:].split(" | ", 2)]
            if len(f) != 3: continue        # (the rest of what an execution that overwrote the heap said)
            sid, desc, ev = f
            traces.setdefault(sid, {}).setdefault(ev, desc)
        os.unlink(p)
    return execs, traces

def parse_event(tok, sc, ip):
    ms = None
    if "@" in tok: tok, t = tok.split("@"); ms = int(t)
    k = tok[0]
    if k == "c":
        a = int(tok[1:]); o, x, args, _ = sc.ops[a - 1][ip[a - 1]]; ip[a - 1] += 1
        e = dict(t="c", a=a, op=dict(o=o, x=x, a=args))
    elif k == "r":
        a, s, v = tok[1:].split(":")
        e = dict(t="r", a=int(a), s=s, v=[int(i) for i in v.split(",")] if v else [])
    elif k == "x": e = dict(t="x", a=int(tok[1:]))
    elif k == "i": e = dict(t="i", a=int(tok[1:]))
    elif k == "j":
        a, kind = tok[1:].split(":"); e = dict(t="j", a=int(a), s=kind)
    elif k == "J": e = dict(t="J")
    elif k == "S": e = dict(t="s", v=[int(i) for i in tok[2:].split(".") if i])
    elif k == "F": e = dict(t="F", s=tok[2:])
    else: raise CheckError("unknown event " + tok)
    if ms is not None: e["ms"] = ms
    return e

def forest(scenarios, traces):
    """merges the traces of every scenario into a tree"""
    trees = []
    for sc in scenarios:
        nodes = [dict(p=-1, k=[], e=dict(t="root"), tok="")]
        via = [None]; kids = [{}]; ips = [[0] * len(sc.actors)]
        for ev, desc in traces.get(sc.id, {}).items():
            n = 0
            for tok in ev.split():
                c = kids[n].get(tok)
                if c is None:
                    ip = list(ips[n])
                    try: e = parse_event(tok, sc, ip)
                    except (ValueError, IndexError, CheckError):
                        tok = "F:garbled"; e = dict(t="F", s="garbled")     # an execution that overwrote the record of what it did
                        if tok in kids[n]: break
                    c = len(nodes); nodes.append(dict(p=n, k=[], e=e, tok=tok)); via.append(desc); kids.append({}); ips.append(ip)
                    nodes[n]["k"].append(c); kids[n][tok] = c
                n = c
                if tok == "F:garbled": break
        trees.append((sc, nodes, via))
    return trees

def path_tokens(nodes, i):
    t = []
    while i > 0: t.append(nodes[i]["tok"]); i = nodes[i]["p"]
    return t[::-1]

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, work, env=None, workers="1", xmx="2g", extra=(), timeout=None, tag=None):
    meta = tempfile.mkdtemp(dir=work, prefix="tlc")
    jar = TLA + ":" + find_community()
    cmd = ["java", "-Xmx" + xmx, "-Xss16m", "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta, "-cp", jar, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", workers, "-config", cfg, *extra, module]
    e = dict(os.environ); e.update(env or {})
    cov = os.environ.get("VP_COVERAGE")     # (see tools/coverage.py)
    if cov: cmd[-1:-1] = ["-coverage", "100"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=SPEC, timeout=timeout)
        out = r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    if cov:
        with open(os.path.join(cov, "%s.%s.txt" % (module, os.path.basename(meta))), "w") as h: h.write(out)
    return out

def states_of(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    return (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)

def validate(trees, work, module="TensorTrace", strip=lambda e: e, xmx="3g"):
    """returns (generated, distinct, rejections); a rejection is (scenario, nodes, via, node):
    the execution up to the node's parent is explained by the specification, the node is not"""
    trees = [t for t in trees if len(t[1]) > 1]
    order = sorted(range(len(trees)), key=lambda i: -len(trees[i][1]))
    bins = [[0, []] for _ in range(min(NCPU, max(1, len(trees))))]
    for i in order:
        b = min(bins, key=lambda b: b[0]); b[0] += len(trees[i][1]) + 50; b[1].append(i)
    jobs = []
    for bi, (_, idx) in enumerate(bins):
        if not idx: continue
        scs, roots, nodes, back = [], [], [], []
        for i in idx:
            sc, nd, via = trees[i]; off = len(nodes)
            scs.append(sc.json()); roots.append(off + 1)
            for j, x in enumerate(nd):
                nodes.append(dict(p=x["p"] + off + 1, k=[c + off + 1 for c in x["k"]], e=strip(x["e"]), s=len(scs))); back.append((i, j))
        f = os.path.join(work, "%s.%d.json" % (module, bi))
        json.dump(dict(scenarios=scs, roots=roots, nodes=nodes), open(f, "w"))
        jobs.append((f, back))
    def run(job):
        f, back = job
        return tlc(module + ".tla", os.path.join(SPEC, module + ".cfg"), work, env={"TRACES": f}, xmx=xmx), back
    gen = dist = 0; rej = []
    with ThreadPoolExecutor(len(jobs) or 1) as ex:
        for out, back in ex.map(run, jobs):
            m = re.search(r'<<\s*"UNEXPLAINED",\s*\{([^}]*)\}\s*>>', out)
            if not m or "Model checking completed" not in out:
                raise CheckError("TLC failed on the recorded executions:\n" + out[-3000:])
            g, d = states_of(out); gen += g; dist += d
            for s in m.group(1).replace("\n", " ").split(","):
                if s.strip():
                    i, j = back[int(s) - 1]; rej.append((*trees[i], j))
    return gen, dist, rej

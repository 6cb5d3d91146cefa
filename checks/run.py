#!/usr/bin/env python3
"""run.py <property> [quick|thorough] - decides one property for the code in /repo.

1. the harness is built from the current tree;
2. TLC checks the specification exhaustively in the small worlds the property is about;
3. the code is executed: scenarios x schedules (x crash points, signals, refused calls);
4. TLC decides of every distinct recorded execution whether the specification explains it;
5. what it does not explain is executed once more and, if it happens again, reported."""
from concurrent.futures import ThreadPoolExecutor
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import *

def registry():
    import tensors
    P = {}
    for p, f in tensors.FAMILIES.items():
        P[p] = dict(make=f, worlds=[("MCTensor", "MCTensor.cfg", w) for w in tensors.WORLDS[p]], trace="TensorTrace")
    for mod in ("blocks", "triggers", "condvars", "strings", "python", "bridge"):
        if os.path.exists(os.path.join(VERIF, "checks", mod + ".py")):
            P.update(__import__(mod).registry())
    return P

def model(worlds, work, tier, out):
    """exhaustive checking of the specification"""
    def one(w):
        module, cfg, world = w
        text = open(os.path.join(SPEC, cfg)).read().replace("@WORLD@", world)
        if tier == "thorough" and os.path.exists(os.path.join(SPEC, cfg + ".thorough")):
            text = open(os.path.join(SPEC, cfg + ".thorough")).read().replace("@WORLD@", world)
        f = os.path.join(work, "%s_%s_%s" % (module, world, cfg)); open(f, "w").write(text)
        o = tlc(module + ".tla", f, work, workers="4" if tier == "quick" else "8", xmx="6g", timeout=700)
        g, d = states_of(o)
        ok = "Model checking completed. No error has been found" in o
        out.append(dict(module=module, world=world, generated=g, distinct=d, ok=ok, output=o if not ok else ""))
    with ThreadPoolExecutor(3 if tier == "quick" else 1) as ex: list(ex.map(one, worlds))

def sample(traces, scs, seed, budget):
    """keeps the executions within what TLC can judge in time: all that end badly, a sample of the others"""
    size = lambda e: e.count(" ") + 1
    total = sum(size(e) for t in traces.values() for e in t)
    if total <= budget: return traces, 1.0
    share = budget / total; out = {}
    for s, t in traces.items():
        keep = {}
        for e, d in t.items():
            if " F:" in " " + e or (zlib.crc32(("%d %s" % (seed, e)).encode()) & 0xffff) / 65536.0 < share: keep[e] = d
        out[s] = keep
    return out, share

def findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) scenario=(\S+) (.*)", l)
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out

def confirm(driver, sc, plan, tokens, work):
    """executes once more; the execution that was not explained must happen again"""
    f = os.path.join(work, "confirm.scn"); open(f, "w").write(sc.text([]))
    r = subprocess.run([driver, "replay", f, sc.id] + plan.split(), capture_output=True, text=True, env=dict(os.environ, VP_QUIET="1"), timeout=120)
    lines = [l for l in r.stdout.strip().split("\n") if l]
    return bool(lines) and lines[-1].split()[:len(tokens)] == tokens

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = registry()[pid]
    if "main" in P: return P["main"](pid, tier, seed)
    t0 = time.time(); work = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
    try: return decide(pid, P, tier, seed, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(pid, P, tier, seed, work, t0):
    models = []; th = threading.Thread(target=model, args=(P["worlds"] + (P.get("deep", []) if tier == "thorough" else []), work, tier, models)); th.start()
    driver = build(work, P.get('python', False))
    th.join()
    for m in models:
        if not m["ok"]: raise CheckError("the specification itself fails in world %s:\n%s" % (m["world"], m["output"][-6000:]))
    execs = 0; ntr = nnodes = gen = dist = 0; bad = []; samples = []; share = []
    rounds = 1 if tier == "quick" else P.get("rounds", 6)
    deadline = t0 + (240 if tier == "quick" else 780)
    nsc = 0
    for rd in range(rounds):
        rnd = random.Random("%s %d %d" % (pid, seed, rd))
        scs = P["make"](rnd, tier); nsc += len(scs)
        ex, tr = explore(driver, scs, work, seed * 1000 + rd); execs += ex
        tr, sh = sample(tr, scs, seed, (P.get("budget") or 110000) * (1 if tier == "quick" else 6)); share.append(sh)
        f = forest(scs, tr)
        # executions that end in a crash, hang or misuse of the system need no model
        trees = []
        for sc, nodes, via in f:
            ntr += sum(1 for x in nodes if not x["k"]); nnodes += len(nodes)
            bad += [(sc, nodes, via, j) for j, x in enumerate(nodes) if x["e"]["t"] == "F"]
            trees.append((sc, nodes, via))
        if not samples:
            for sc, nodes, via in (f[0], f[len(f) // 2], f[-1]):
                leaf = max(range(len(nodes)), key=lambda j: (not nodes[j]["k"], j))
                samples.append(dict(scenario=sc.text([]), plan=via[leaf], events=" ".join(path_tokens(nodes, leaf))))
        for module in sorted({t[0].trace or P["trace"] for t in trees}):
            g, d, rej = validate([t for t in trees if (t[0].trace or P["trace"]) == module], work, module); gen += g; dist += d; bad += rej
        if bad or time.time() + (time.time() - t0) / (rd + 1) > deadline: break
    known = findings(pid); hit = {}; viol = []; unsure = 0
    for sc, nodes, via, j in bad:
        k = [w for s, w in known if s == sc.id]
        if k: hit[k[0]] = 1; continue
        if len(viol) >= 3 or unsure >= 6: continue
        tokens = path_tokens(nodes, j)
        if not any(confirm(driver, sc, via[j], tokens, work) for _ in range(2)): unsure += 1; continue
        viol.append((sc, nodes, via, j, tokens))
    for w in hit: print("KNOWN-FINDING: property=%s %s" % (pid, w))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(states=sum(m["distinct"] for m in models) + dist, transitions=sum(m["generated"] for m in models) + gen,
                            traces_validated_against_impl=ntr, samples=samples,
                            model_worlds=[{k: m[k] for k in ("module", "world", "generated", "distinct")} for m in models],
                            scenarios=nsc, executions=execs, trace_events=nnodes, validation_states=dist, validation_transitions=gen,
                            share_of_distinct_executions_validated=round(min(share), 3), known_findings_seen=len(hit), unconfirmed=unsure),
              assumptions=["the virtual POSIX world of the harness behaves like Linux", "worlds and scenarios are small"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        sc, nodes, via, j, tokens = min(viol, key=lambda v: len(v[4]))
        rp = os.path.join(VERIF, "evidence", "%s.violation" % pid)
        with open(rp, "w") as h:
            h.write(sc.text([]) + ("# python\n" if P.get("python") else "") + "\n# plan: %s\n# (checks/replay.sh %s runs it)\n# execution; the last event is not possible in the specification:\n# %s\n" % (via[j], rp, " ".join(tokens)))
        print("not explained by the specification: scenario %s\n  %s" % (sc.id, " ".join(tokens)))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
    if unsure and not viol: raise CheckError("executions that were not explained did not repeat")
    print("%s: held; %d executions, %d distinct traces (%d events) explained, %.0f s" % (pid, execs, ntr, nnodes, time.time() - t0))
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr); sys.exit(3)

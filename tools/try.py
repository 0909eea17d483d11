#!/usr/bin/env python3
"""Developer helper: try.py GROUP MODULE|ENTRY.. [--deep] [--timeout N] [--preempt N]: run harnesses without the rest."""
import concurrent.futures as cf, os, re, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
a = sys.argv[1:]
opt = {}
for k in ("--timeout", "--preempt", "--atomic", "--max_steps"):
    if k in a:
        i = a.index(k); opt[k[2:]] = int(a[i + 1]); del a[i:i + 2]
deep = "--deep" in a
a = [x for x in a if x != "--deep"]
g = a[0]
names = []
for m in a[1:]:
    p = os.path.join(V, "harness", g, "src", "h", m + ".rs")
    if os.path.exists(p):
        names += re.findall(r"(?m)^ *fn ([a-z0-9_]+)\(\) \{", open(p).read().split("harnesses!")[1])
    else:
        names.append(m)
os.makedirs(check.WORK, exist_ok=True)
t0 = time.time()
try:
    exe = check.build_hopsym(); ll = check.build_ir(g)
except check.NoVerdict as e:
    t = str(e)
    i = t.find("error"); print(t[max(0, i):][:5000]); sys.exit(1)
print("built %.1f s" % (time.time() - t0))
os.makedirs(check.WORK + "/try", exist_ok=True)
def one(n):
    h = {"entry": n, "group": g}
    if "timeout" in opt: h["timeout"] = h["thorough_timeout"] = opt["timeout"]
    if "max_steps" in opt: h["max_steps"] = opt["max_steps"]
    if "atomic" in opt: h["atomic"] = opt["atomic"]
    if "preempt" in opt: h["preempt"] = opt["preempt"]
    return n, check.hopsym(exe, ll, h, "thorough" if deep else "quick", check.WORK + "/try/%s.json" % n)
with cf.ThreadPoolExecutor(8) as ex:
    for f in cf.as_completed([ex.submit(one, n) for n in names]):
        n, o = f.result()
        if "fatal" in o:
            print("%-26s FATAL %s" % (n, o["fatal"])); continue
        print("%-26s %s paths=%d inf=%d sw=%d asserts=%d(smt %d) q=%d %.1fs(solver %.1f) covers=%s %s" % (
            n, "ok " if not o["violations"] and not o["errors"] else "BAD", o["paths"], o["infeasible"], o["switches"], o["asserts"], o["assert_queries"], o["queries"],
            o["wall_s"], o["solver_s"], o["covers"], o["errors"] or ""))
        for v in o["violations"][:4]:
            print("    V", v["kind"], v["msg"], "|", v["at"][:300], v["inputs"][:24], v["sched"][:40])
        sys.stdout.flush()

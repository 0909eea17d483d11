#!/usr/bin/env python3
"""Decide one property (or several) for the working tree of /repo.

    check.py P01                quick tier
    check.py P01 --tier thorough
    check.py --all [--tier ..]  every claimed property
    check.py --bless            record which cover points each harness reaches
    check.py --replay FILE      run a recorded counterexample natively

Exit codes: 0 the property held on everything explored, 1 a violation (with a
line "VIOLATION property=<id> replay=<path>"), 2 no verdict (build failure,
timeout, unreached cover points, counterexample that does not replay).
"""
import concurrent.futures as cf
import fcntl
import glob
import itertools
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HV_REPO", "/repo")
WORK = os.environ.get("HV_WORK", os.path.join(V, ".work"))
sys.path.insert(0, V)
from registry import PROPERTIES, GROUPS, ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ)
ENV.update(
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_INCREMENTAL="0",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="",
    CI="true",
)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
    ENV.pop(k, None)


class NoVerdict(Exception):
    pass


def run(cmd, cwd, env=None, what=""):
    e = dict(ENV)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise NoVerdict("%s failed:\n%s" % (what or cmd[0], r.stderr[-6000:]))
    return r.stdout


def sync(src, dst, edit=None):
    """Copy a source directory, keeping the times of files that are the same."""
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            a, b = os.path.join(root, f), os.path.join(dst, rel, f)
            with open(a, "rb") as h:
                data = h.read()
            if edit:
                data = edit(f, data)
            old = None
            if os.path.exists(b):
                with open(b, "rb") as h:
                    old = h.read()
            if old != data:
                with open(b, "wb") as h:
                    h.write(data)


def build_hopsym():
    run(["cargo", "build", "--release", "--offline", "--locked", "-q"], os.path.join(V, "hopsym"),
        {"CARGO_TARGET_DIR": os.path.join(WORK, "hopsym")}, "building hopsym")
    return os.path.join(WORK, "hopsym", "release", "hopsym")


def tokio_src():
    """Where the source of the tokio that /repo uses is."""
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for base in (home, "/root/.cargo", "/usr/local/cargo"):
        found = sorted(glob.glob(os.path.join(base, "registry", "src", "*", "tokio-0.2.*")))
        if found:
            return found[-1]
    raise NoVerdict("no source of tokio 0.2")


def include_main(m):
    """The text of a program's main.rs, with a main function that a harness can call."""
    path = m.group(1)
    try:
        with open(path) as f:
            t = f.read()
    except OSError as e:
        raise NoVerdict("no source of a program: %s" % e)
    t = re.sub(r"(?m)^\s*#!\[.*\]\s*$", "", t)
    t = re.sub(r"(?m)^((?:async )?fn main\b)", r"pub \1", t)
    return re.sub(r"(?m)^((?:pub(?:\([^)]*\))? )?mod (\w+);)", lambda k: '#[path = "%s"]\n%s' % (
        next((q for q in (os.path.join(os.path.dirname(path), k.group(2) + s) for s in (".rs", "/mod.rs"))
              if os.path.exists(q)), ""), k.group(1)), t)


def group_src(group):
    def edit(name, data):
        if name in ("Cargo.toml",) or name.endswith(".rs"):
            t = data.decode()
            t = t.replace('"../hs"', '"%s/harness/hs"' % V)
            t = t.replace('"../../harness/hs"', '"%s/harness/hs"' % V)
            t = t.replace('"/repo/', '"%s/' % REPO)
            t = t.replace('"/verif/', '"%s/' % V)
            t = t.replace('"/TOKIO"', '"%s"' % tokio_src())
            t = re.sub(r'(?m)^//INCLUDE "(.*)"$', include_main, t)
            data = t.encode()
        return data

    # models may sit on top of the crate they stand for
    sync(os.path.join(V, "model"), os.path.join(WORK, "models"), edit)
    dst = os.path.join(WORK, "src", group)
    sync(os.path.join(V, "harness", group), dst, edit)
    return dst


def patches(group, model):
    out = []
    for name, path, always in GROUPS[group].get("models", []):
        if model or always:
            out += ["--config", 'patch.crates-io.%s.path="%s/models/%s"' % (name, WORK, path)]
    return out


def build_ir(group):
    src = group_src(group)
    td = os.path.join(WORK, "ir-" + group)
    deps = os.path.join(td, "sym", "deps")
    msg = run(["cargo"] + patches(group, True) + ["rustc", "--lib", "--profile", "sym", "--offline",
               "--message-format=human", "--", "--emit=llvm-ir"], src,
              {"CARGO_TARGET_DIR": td, "RUSTFLAGS": "-C no-vectorize-loops -C no-vectorize-slp -A warnings --cap-lints allow"},
              "compiling %s to LLVM IR" % group)
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("hv_%s-" % group) and f.endswith(".ll")]
    if not lls:
        raise NoVerdict("no IR for " + group)
    return max(lls, key=os.path.getmtime)


def build_replay(group, model):
    src = group_src(group + "" )
    kind = "model" if model else "real"
    # a copy of its own: the lock file differs between the two variants
    own = os.path.join(WORK, "src-" + kind, group)
    sync(src, own)
    td = os.path.join(WORK, "native-%s-%s" % (kind, group))
    run(["cargo"] + patches(group, model) + ["build", "--bin", "replay", "--features", "native", "--offline", "-q"],
        own, {"CARGO_TARGET_DIR": td, "RUSTFLAGS": "-A warnings --cap-lints allow"}, "compiling %s natively" % group)
    return os.path.join(td, "debug", "replay")


TSAN = threading.Lock()


def build_replay_atomic(group):
    """The native replayer with every atomic operation a scheduling point: calls
    inserted by -Zsanitizer=thread, bound to harness/hs/tsan.c."""
    with TSAN:
        td = os.path.join(WORK, "native-atomic-" + group)
        os.makedirs(td, exist_ok=True)
        rt = os.path.join(td, "tsan.o")
        run(["gcc", "-O1", "-w", "-c", os.path.join(V, "harness", "hs", "tsan.c"), "-o", rt], V, {}, "compiling tsan.c")
        build_replay(group, True)
        run(["cargo"] + patches(group, True) + ["build", "--bin", "replay", "--features", "native", "--offline", "-q",
             "--target", "x86_64-unknown-linux-gnu"], os.path.join(WORK, "src-model", group),
            {"CARGO_TARGET_DIR": td, "RUSTC_BOOTSTRAP": "1",
             "RUSTFLAGS": "-A warnings --cap-lints allow -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer "
                          "-Clink-arg=" + rt}, "compiling %s for schedules" % group)
        return os.path.join(td, "x86_64-unknown-linux-gnu", "debug", "replay")


def native_atomic(group, h, x, tier, path):
    """Find the schedule of a counterexample on the native code: the scheduling
    points of the two need not line up one to one, so switches are placed anew."""
    try:
        exe = build_replay_atomic(group)
    except NoVerdict as e:
        return "diverged", None, str(e), None
    base = replay_text(h, dict(x, sched=None), tier)

    def one(i, sw):
        t = base + "switches %s\n" % " ".join("%d:%d" % w for w in sw)
        p = "%s.a%d" % (path, i)
        kind, notes, last = native(exe, h, t, p, 10)
        n = YIELDS.get(p, 0)
        os.remove(p)
        return kind, last, n, t

    threads = 3
    kind, last, n, t = one(0, [])
    todo = [[]]
    if kind == "violated":
        return kind, None, last, t
    t0 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        for depth in (1, 2, 3):
            grid = list(itertools.combinations(range(1, n + 10), depth))
            jobs = ([(k, c) for k, c in zip(ks, cs)] for ks in grid for cs in itertools.product(range(threads), repeat=depth))
            while time.time() - t0 < 100:
                block = list(itertools.islice(jobs, 400))
                if not block:
                    break
                for kind, last, n2, t in ex.map(one, range(len(block)), block):
                    if kind == "violated" and last.endswith(x["msg"]) or kind == "crash":
                        return kind, None, last, t
    return "done", None, "no schedule found", None


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def hopsym(exe, ll, h, tier, out):
    t = h.get("timeout", 150) if tier == "quick" else h.get("thorough_timeout", 840)
    cmd = [exe, "--ll", ll, "--entry", h["entry"], "--out", out, "--atomic-yield", str(h.get("atomic", 0)),
           "--timeout", str(t), "--samples", str(h.get("samples", 12)),
           "--preempt", str(h.get("preempt", 3)), "--max-steps", str(h.get("max_steps", 30_000_000)),
           "--audit", "20" if tier == "quick" else "300"]
    if tier == "thorough":
        cmd.append("--deep")
        if "deep_preempt" in h:
            cmd[cmd.index("--preempt") + 1] = str(h["deep_preempt"])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t + 420,
                           preexec_fn=limits, env=ENV)
    except subprocess.TimeoutExpired:
        return {"entry": h["entry"], "fatal": "hopsym did not stop"}
    if r.returncode not in (0, 1, 2) or not os.path.exists(out):
        return {"entry": h["entry"], "fatal": "hopsym ended with %s: %s" % (r.returncode, r.stderr[-1500:])}
    with open(out) as f:
        return json.load(f)


def replay_text(h, x, tier):
    t = "harness %s\ninputs %s\n" % (h["entry"], " ".join("%d:%d" % (w, v) for w, v in x["inputs"]))
    if x.get("sched"):
        t += "sched %s\n" % " ".join(map(str, x["sched"]))
    if tier == "thorough":
        t += "deep\n"
    return t


YIELDS = {}


def native(exe, h, text, path, timeout=30):
    with open(path, "w") as f:
        f.write(text)
    scratch = path + ".d"
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([exe, h["entry"], path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, cwd=scratch, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "hang", None, "HANG no end within %d s" % timeout
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    notes, last = None, ""
    for l in r.stdout.splitlines():
        if l.startswith("YIELDS"):
            YIELDS[path] = int(l.split()[1])
        elif l.startswith("NOTES"):
            notes = [int(v) for v in l.split()[1:]]
        elif l.strip():
            last = l
    kind = {0: "done", 10: "violated", 11: "assumption", 12: "diverged"}.get(r.returncode, "crash")
    if kind == "crash":
        last = "CRASH exit %s %s" % (r.returncode, r.stderr[-300:].replace("\n", " "))
    return kind, notes, last


def known_findings():
    out = []
    p = os.path.join(V, "known-findings")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) harness=(\S+) msg=\"([^\"]*)\" (.*)$", l)
            if m:
                out.append(m.groups())
    return out


def covers_file():
    p = os.path.join(V, "covers.json")
    return json.load(open(p)) if os.path.exists(p) else {}


class Session:
    """Builds shared by the properties checked in one invocation."""

    def __init__(self, groups, kinds):
        self.t0 = time.time()
        os.makedirs(WORK, exist_ok=True)
        self.lock = open(os.path.join(WORK, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.err = {}
        self.ll, self.real, self.model = {}, {}, {}
        with cf.ThreadPoolExecutor(8) as ex:
            fs = {ex.submit(build_hopsym): ("exe", None)}
            for g in groups:
                group_src(g)
            for g in groups:
                fs[ex.submit(build_ir, g)] = ("ll", g)
                if (g, False) in kinds:
                    fs[ex.submit(build_replay, g, False)] = ("real", g)
                if (g, True) in kinds:
                    fs[ex.submit(build_replay, g, True)] = ("model", g)
            for f in cf.as_completed(fs):
                k, g = fs[f]
                r = f.result()
                if k == "exe":
                    self.exe = r
                else:
                    getattr(self, k)[g] = r
        self.build_s = time.time() - self.t0

    def replayer(self, h):
        g = h["group"]
        return (self.real if h.get("real", True) else self.model)[g]


def check(session, pid, tier, bless=None):
    t0 = time.time()
    prop = PROPERTIES[pid]
    hs = [h for h in prop["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    outdir = os.path.join(WORK, "out", pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    evdir = os.environ.get("HV_EVIDENCE", os.path.join(V, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    results = {}
    order = sorted(hs, key=lambda h: -h.get("cost", 1))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(hopsym, session.exe, session.ll[h["group"]], h, tier,
                        os.path.join(outdir, h["entry"] + ".json")): h for h in order}
        for f in cf.as_completed(fs):
            results[fs[f]["entry"]] = f.result()
    problems, confirmed, knownhits = [], [], []
    known = [k for k in known_findings() if k[0] == pid]
    want = covers_file()
    validated = mismatched = 0
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for h in hs:
            o = results[h["entry"]]
            if "fatal" in o:
                problems.append("%s: %s" % (h["entry"], o["fatal"]))
                continue
            for i, x in enumerate(o["samples"]):
                p = os.path.join(outdir, "%s.s%d" % (h["entry"], i))
                if h.get("atomic"):  # the scheduling points are others natively: without switches
                    t = replay_text(h, dict(x, sched=None), tier) + "switches\n"
                else:
                    t = replay_text(h, x, tier)
                jobs.append(("s", h, x, ex.submit(native, session.replayer(h), h, t, p)))
            for i, x in enumerate(o["violations"]):
                p = os.path.join(outdir, "%s.v%d" % (h["entry"], i))
                jobs.append(("v", h, x, ex.submit(native, session.replayer(h), h, replay_text(h, x, tier), p)))
        for k, h, x, f in jobs:
            kind, notes, last = f.result()
            if k == "s":
                if kind == "done" and (notes == x["notes"] or h.get("atomic")):
                    validated += 1
                else:
                    mismatched += 1
                    problems.append("%s: a path of the encoding does not agree with the native run: %s (%s, notes %s, expected %s, inputs %s)" % (
                        h["entry"], kind, last, notes, x["notes"], x["inputs"]))
            else:
                if h.get("atomic") and kind not in ("violated", "crash") and x["sched"]:
                    kind, notes, last, x["native_text"] = native_atomic(
                        h["group"], h, x, tier, os.path.join(outdir, "%s.at" % h["entry"]))
                if kind == "done" and h.get("real", True) and "self-deadlock" in x["msg"]:
                    # whether two keys share a shard depends on the random state of their map; in the model all do
                    x["model"] = True
                    kind, notes, last = native(build_replay(h["group"], True), h, replay_text(h, x, tier),
                                               os.path.join(outdir, "%s.m" % h["entry"]))
                ok = kind in ("violated", "crash") or (x["kind"] == "hang" and kind == "hang") or kind == "hang"
                if not ok:
                    problems.append("%s: counterexample not confirmed natively: %s %s (%s %s) inputs %s sched %s at %s" % (
                        h["entry"], x["kind"], x["msg"], kind, last, x["inputs"], x["sched"], x["at"]))
                    continue
                k2 = [q for q in known if q[1] == h["entry"] and q[2] == x["msg"]]
                if k2:
                    knownhits.append((h, x, last, k2[0]))
                else:
                    confirmed.append((h, x, last))
    for h in hs:
        o = results[h["entry"]]
        if "fatal" in o:
            continue
        for e, n in o["errors"].items():
            problems.append("%s: %s (%d)" % (h["entry"], e, n))
        if o["paths"] == 0 and not o["violations"]:
            problems.append("%s: no complete path" % h["entry"])
        if bless is not None and not o["violations"] and not o["errors"]:
            bless[h["entry"]] = sorted(o["covers"])
        elif not o["violations"] and not o["errors"]:
            for c in want.get(h["entry"], []):
                if not o["covers"].get(c):
                    problems.append("%s: cover point not reached: %s" % (h["entry"], c))
            if not want.get(h["entry"]):
                problems.append("%s: no recorded cover points" % h["entry"])
    # report
    for h, x, last, k in {q[3]: q for q in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    rc = 0
    vio = []
    seen = set()
    for i, (h, x, last) in enumerate(confirmed):
        key = (h["entry"], x["kind"], x["msg"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(evdir, "%s-%s-%d.replay" % (pid, h["entry"], len(vio)))
        with open(path, "w") as f:
            at = x.get("native_text")
            f.write("property %s\ngroup %s\nmodel %d\n" % (pid, h["group"], 2 if at else 0 if h.get("real", True) and not x.get("model") else 1))
            f.write(at or replay_text(h, x, tier))
            f.write("# %s: %s\n# at %s\n# native: %s\n" % (x["kind"], x["msg"], x["at"], last))
        vio.append({"harness": h["entry"], "kind": x["kind"], "message": x["msg"], "at": x["at"],
                    "inputs": x["inputs"], "schedule": x["sched"], "native": last, "replay": path})
        print("%s %s: %s %s (native: %s)" % (pid, h["entry"], x["kind"], x["msg"], last))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, V)))
        rc = 1
    if problems:
        for p in problems[:20]:
            print("%s: %s" % (pid, p), file=sys.stderr)
        rc = rc or 2
    write_evidence(session, pid, prop, tier, hs, results, validated, mismatched, vio, problems, time.time() - t0, evdir)
    n = sum(r.get("paths", 0) for r in results.values())
    q = sum(r.get("queries", 0) + (r.get("audit") or {}).get("queries", 0) for r in results.values())
    a = sum(r.get("asserts", 0) for r in results.values())
    print("%s %s: %d harnesses, %d paths, %d assertions, %d solver queries, %d native validations, %.1f s%s" % (
        pid, ["held", "VIOLATED", "no verdict"][rc], len(hs), n, a, q, validated, time.time() - t0,
        "" if not problems else ", %d problem(s)" % len(problems)))
    sys.stdout.flush()
    return rc


def write_evidence(session, pid, prop, tier, hs, results, validated, mismatched, vio, problems, wall, evdir):
    ok = [r for r in results.values() if "fatal" not in r]
    tot = lambda k: sum(r.get(k, 0) for r in ok)
    funcs = {}
    for r in ok:
        for n, b, t in r["functions"]:
            o = funcs.get(n, (0, 0))
            funcs[n] = (max(o[0], b), t)
    crates = ("hop_engine", "hop_internal_metrics", "hop_internal_timer", "hop_cli", "hop::", "server", "hop_server")
    mine = {n: v for n, v in funcs.items() if any(c in n for c in crates)}
    per = []
    for h in hs:
        r = results[h["entry"]]
        if "fatal" in r:
            per.append({"harness": h["entry"], "fatal": r["fatal"]})
            continue
        per.append({
            "harness": h["entry"], "paths": r["paths"], "forks": r["forks"], "thread_switches": r["switches"],
            "infeasible_paths": r["infeasible"], "instructions": r["instructions"],
            "assertions": r["asserts"], "assertions_decided_by_smt": r["assert_queries"],
            "assertions_decided_by_rewriting": r["asserts"] - r["assert_queries"],
            "smt_queries": r["queries"], "smt_cache_hits": r["cache_hits"], "sat": r["sat"], "unsat": r["unsat"],
            "unknown": r["unknown"], "solver_s": r["solver_s"], "max_query_s": r["max_query_s"],
            "wall_s": r["wall_s"], "covers": r["covers"], "bounds": r["bounds"],
            "rewrites": r.get("audit"),
            "errors": r["errors"], "preemption_bound": h.get("preempt", 3) if r["switches"] else None,
        })
    samples = []
    for h in hs:
        r = results[h["entry"]]
        for x in r.get("samples", [])[:1]:
            samples.append({"harness": h["entry"], "inputs_of_one_path": x["inputs"][:40], "schedule": x["sched"][:60],
                            "observed": x["notes"][:40]})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12] or ["none"],
            "explanation": "states: complete symbolic paths (each stands for all inputs that take it); transitions: "
                           "LLVM IR instructions executed symbolically; traces: sampled paths re-run natively on the "
                           "real crates with equal observations. Every path was explored to its end unless errors say otherwise.",
            "technique": "symbolic execution of the LLVM IR that rustc produces for the working tree, decided by Z3",
            "assertions": tot("asserts"),
            "assertions_decided_by_smt": tot("assert_queries"),
            "assertions_decided_by_rewriting": tot("asserts") - tot("assert_queries"),
            "rewrites_made": sum((r.get("audit") or {}).get("rewrites", 0) for r in ok),
            "rewrites_proved_by_smt": sum((r.get("audit") or {}).get("valid", 0) for r in ok),
            "rewrites_not_checked_in_time": sum((r.get("audit") or {}).get("open", 0) for r in ok),
            "rewrite_proof_queries": sum((r.get("audit") or {}).get("queries", 0) for r in ok),
            "rewrite_proof_s": round(sum((r.get("audit") or {}).get("s", 0) for r in ok), 3),
            "smt_queries": tot("queries"),
            "smt_sat": tot("sat"), "smt_unsat": tot("unsat"), "smt_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3),
            "solver": ok[0]["z3"] if ok else "",
            "functions_encoded": len(mine),
            "functions_encoded_all": len(funcs),
            "functions": [{"name": n, "blocks": "%d/%d" % v} for n, v in sorted(mine.items())][:400],
            "bounds": prop["bounds"],
            "outside": prop["outside"],
            "harnesses": per,
            "mismatches": mismatched,
            "problems": problems[:50],
            "build_s": round(session.build_s, 2),
            "exhaustive": False,
        },
        "assumptions": ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": round(wall + session.build_s, 3),
        "violations": len(vio),
    }
    if vio:
        ev["coverage"]["violations"] = vio
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def needed(pids, tier):
    groups, kinds = [], set()
    for p in pids:
        for h in PROPERTIES[p]["harnesses"]:
            if h["group"] not in groups:
                groups.append(h["group"])
            kinds.add((h["group"], not h.get("real", True)))
    return groups, kinds


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a and a[0] == "--replay":
        kv = {}
        for l in open(a[1]):
            w = l.split(None, 1)
            if w and not l.startswith("#"):
                kv[w[0]] = w[1].strip() if len(w) > 1 else ""
        model = kv["model"] != "0"
        s = Session([kv["group"]], {(kv["group"], model)})
        h = {"entry": kv["harness"], "group": kv["group"], "real": not model}
        t = "".join("%s %s\n" % (k, kv[k]) for k in ("inputs", "sched", "switches", "deep") if k in kv)
        exe = build_replay_atomic(kv["group"]) if kv["model"] == "2" else s.replayer(h)
        k, n, last = native(exe, h, t, os.path.join(WORK, "replay.in"))
        print(k, last)
        return 0 if k == "done" else 1
    bless = None
    if "--bless" in a:
        a.remove("--bless")
        bless = covers_file()
    pids = list(PROPERTIES) if "--all" in a else [x for x in a if not x.startswith("-")]
    if "--setup" in a:
        pids = list(PROPERTIES)
    try:
        s = Session(*needed(pids, tier))
        if "--setup" in a:
            print("built in %.1f s" % s.build_s)
            return 0
        rc = 0
        for p in pids:
            r = check(s, p, tier, bless)
            rc = 1 if 1 in (r, rc) else max(r, rc)
    except NoVerdict as e:
        print("no verdict: %s" % e, file=sys.stderr)
        return 2
    if bless is not None:
        with open(os.path.join(V, "covers.json"), "w") as f:
            json.dump(bless, f, indent=1, sort_keys=True)
            f.write("\n")
    return rc


if __name__ == "__main__":
    sys.exit(main())

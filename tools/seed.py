#!/usr/bin/env python3
"""seed.py SPEC.py: make a planted bug from a spec and confirm it in a scratch copy of /repo.
SPEC.py defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (rust main.rs), DEPS (Cargo dependency lines), NEEDS, BREAKS."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedcopy"
DEMO_SH = r'''#!/bin/bash
# builds the program beside this file against /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
d=$(mktemp -d) || exit 3
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/demo.toml" > "$d/Cargo.toml"
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q 2>&1
rc=$?
cd / && find "$d" -delete
exit $rc
'''


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                       executable="/bin/bash")
    return r.returncode, r.stdout


def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", COPY).replace(". /opt/vp/env.sh", ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target" % COPY)
    open("/tmp/seedtest.sh", "w").write(t)
    rc, out = sh("bash /tmp/seedtest.sh /tmp/seedtest.json", COPY)
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/seedtest.json"))
    def flat(x):
        for k in ("stable", "passed", "tests", "passing"):
            if isinstance(x, dict) and isinstance(x.get(k), list):
                return set(x[k])
        return set(x if isinstance(x, list) else [k for k, v in x.items() if v in (True, "pass", "passed", "ok")])
    miss = sorted(flat(base) - flat(got))
    return len(flat(base)), miss, out


def main():
    s = runpy.run_path(sys.argv[1])
    d = os.path.join(V, "seeded", s["ID"])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if not os.path.exists(COPY):
        subprocess.check_call(["cp", "-a", "/repo", COPY])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .", COPY)
    os.makedirs(d, exist_ok=True)
    for n, t in s.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    if "FILES" not in s:
        open(os.path.join(d, "demo.rs"), "w").write(s["DEMO"])
        open(os.path.join(d, "demo.toml"), "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\n' + s.get("DEPS", 'hop-engine = { path = "@REPO@/engine" }\n'))
    open(os.path.join(d, "demo.sh"), "w").write(s.get("DEMO_SH", DEMO_SH))
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc0, o0 = sh("bash %s/demo.sh" % d, COPY)
    base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    for f, a, b in s["EDITS"]:
        p = os.path.join(COPY, f)
        t = open(p).read()
        assert t.count(a) == 1, "%s: %d matches of %r" % (f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.check_output(["git", "-C", COPY, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    # lines changed must be of the original repository
    mine = 0
    for f, a, b in s["EDITS"]:
        orig = subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], stdout=subprocess.PIPE, text=True).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine += sum(1 for l in removed if l.strip() and l not in orig.splitlines())
    n, miss, out = tests()
    rc1, o1 = sh("bash %s/demo.sh" % d, COPY)
    print("%s: demo unchanged %d, patched %d; tests %d missing %s; changed lines not original: %d" % (s["ID"], rc0, rc1, n, miss[:3], mine))
    if rc0:
        print(o0[-1500:])
    if rc1 == 0 or miss:
        print(out[-1500:] if miss else o1[-800:])
    else:
        print("   ", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    sh("git checkout -q -- .", COPY)


main()

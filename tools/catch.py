#!/usr/bin/env python3
"""catch.py [ID..]: run each planted bug's check (or all checks with --all) against a patched scratch copy of /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/catchcopy"


def main():
    a = sys.argv[1:]
    every = "--all" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    if not os.path.exists(COPY):
        subprocess.check_call(["git", "clone", "-q", "/repo", COPY])
    env = dict(os.environ, HV_REPO=COPY, HV_WORK="/tmp/catchwork", HV_EVIDENCE="/tmp/catchevidence", VERIF_TIER="quick", VERIF_SEED="1")
    claimed = {p["property"] if "property" in p else p["id"] for p in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
    for i in ids:
        d = os.path.join(V, "seeded", i)
        subprocess.check_call("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git apply %s/patch.diff" % d, shell=True, cwd=COPY)
        p = json.load(open(d + "/meta.json"))["property"]
        r = subprocess.run([sys.executable, os.path.join(V, "check.py")] + (["--all"] if every else [p]), env=env, cwd=V,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "rror" in l]
        print("%-28s %s rc=%d claimed=%s | %s" % (i, p, r.returncode, p in claimed, " | ".join(lines)[:4000]), flush=True)
        subprocess.check_call("git checkout -q -- .", shell=True, cwd=COPY)


main()

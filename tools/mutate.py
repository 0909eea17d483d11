#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--n N] [--seed S] [--files REGEX] [--cap SECONDS]: small changes to /repo's sources, one at a time in a scratch copy;
those that build and pass the stable tests are shown to the checks of the properties about that file."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/mut"
COPY = D + "/repo"
MAP = [
    (r"engine/src/command/request/(builder|mod)", "P04 P01 P08 P18 P26"),
    (r"engine/src/command/request/", "P03 P02 P01 P18 P27"),
    (r"engine/src/command/response/context", "P07 P06 P05 P28"),
    (r"engine/src/command/response/", "P05 P08 P07 P18"),
    (r"engine/src/command/impl/(increment|decrement)", "P09 P10 P17 P19 P21"),
    (r"engine/src/command/impl/(set|get)", "P11 P17 P20 P16"),
    (r"engine/src/command/impl/append", "P12 P17 P20"),
    (r"engine/src/command/impl/(delete|rename)", "P13 P17 P20"),
    (r"engine/src/command/impl/(exists|is|type|keys|length)", "P14 P17 P20"),
    (r"engine/src/command/impl/(echo|stats)", "P15 P18"),
    (r"engine/src/command/", "P08 P18"),
    (r"engine/src/hop.rs", "P33 P21 P18 P15 P20"),
    (r"engine/src/metrics", "P21 P15 P22 P23"),
    (r"engine/src/state", "P32 P11 P12 P10 P09 P13 P14 P17 P08 P19 P20 P05"),
    (r"engine/src/session", "P23 P24 P15"),
    (r"engine/src/pubsub", "P24"),
    (r"engine/src", "P08 P18 P11"),
    (r"lib/metrics", "P22 P21"),
    (r"lib/timer", "P25"),
    (r"client/src/backend/server", "P28"),
    (r"client/src/backend", "P26 P30"),
    (r"client/src/", "P26 P28 P30"),
    (r"cli/lib/src/parse", "P29 P30"),
    (r"cli/lib", "P30"),
    (r"cli/bin", "P31"),
    (r"server/", "P27"),
]
VARIANTS = {
    "KeyType": "Boolean Bytes Float Integer List Map Set String".split(),
    "DispatchError": "ArgumentRetrieval KeyNonexistent KeyTypeDifferent KeyTypeInvalid KeyTypeRequired KeyTypeUnexpected KeyUnspecified PreconditionFailed".split(),
    "CommandId": "Append Decrement DecrementBy Delete Echo Exists Get Increment IncrementBy Is Keys Length Rename Set Stats Type".split(),
}
SWAPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
         (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), ("true", "false"), ("false", "true"), ("if !", "if "), (".is_some()", ".is_none()"),
         (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"), ("wrapping_add", "wrapping_sub"), ("wrapping_sub", "wrapping_add"),
         ("saturating_sub", "wrapping_sub"), ("checked_add", "checked_sub"), ("to_be_bytes", "to_le_bytes"), ("from_be_bytes", "from_le_bytes"),
         ("i64", "i32"), ("u32", "u16"), ("u16", "u8"), ("usize", "u8"), (" as u32", " as u16 as u32"), (" as u16", " as u8 as u16"),
         (" as usize", " as u8 as usize"), ("continue", "break"), ("break", "continue"), (".max(", ".min("), (".min(", ".max("), (".first()", ".last()"),
         (".iter()", ".iter().rev()"), (".iter()", ".iter().skip(1)"), (".extend(", ".extend_from_slice(&"), ("1..", "2.."), ("..=", ".."), ("unwrap_or_default", "unwrap"),
         ("|| ", "&& "), ("&key", "&[]"), ("key_from", "key_to"), ("key_to", "key_from"), ("Increment", "Decrement"), ("Decrement", "Increment"), ("SuccessfulCommands", "ErroredCommands"), ("is_empty()", "is_empty() == false")]


def sites(f):
    t = open(os.path.join("/repo", f)).read()
    end = t.find("#[cfg(test)]\nmod")
    end = len(t) if end < 0 else end
    out, at, comment = [], 0, False
    lines = t[:end].split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        code = not (s.startswith("//") or s.startswith("#") or s.startswith("use ") or not s or s.startswith("pub mod") or s.startswith("mod "))
        if code:
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), l):
                    if a in ("true", "false", "continue", "break", "u32", "u16", "i64", "usize") and re.search(r"\w$", l[:m.start()]):
                        continue
                    out.append((at + m.start(), at + m.end(), b))
            for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", l):
                n = int(m.group(1))
                out.append((at + m.start(), at + m.end(), str(n + 1)))
                if n:
                    out.append((at + m.start(), at + m.end(), str(n - 1)))
            for k, vs in VARIANTS.items():
                for m in re.finditer(r"\b%s::(\w+)" % k, l):
                    if m.group(1) in vs:
                        o = random.choice([x for x in vs if x != m.group(1)])
                        out.append((at + m.start(1), at + m.end(1), o))
            if s.endswith(";") and not s.startswith(("let ", "pub ", "const ", "static ", "}", "type ")):
                # one-line statements only
                if i and lines[i - 1].strip().endswith((";", "{", "}", "")):
                    j = l.index(s)
                    out.append((at + j, at + len(l), ""))
        at += len(l) + 1
    return t, out


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable="/bin/bash",
                         env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


def main():
    a = sys.argv[1:]
    opt = dict(n=100, seed=1, files=".", cap=10 ** 9)
    for k in opt:
        if "--" + k in a:
            i = a.index("--" + k)
            opt[k] = type(opt[k])(a[i + 1])
            del a[i:i + 2]
    random.seed(opt["seed"])
    if not os.path.exists(COPY):
        subprocess.check_call(["git", "clone", "-q", "/repo", COPY])
        sh("cp -a /repo/target %s/target" % COPY, D, 600)
    base = set()
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "passing"):
        if isinstance(b, dict) and isinstance(b.get(k), list):
            base = set(b[k])
    assert len(base) == 198, len(base)
    t = open("/opt/vp/test.sh").read().replace("/repo", COPY).replace(". /opt/vp/env.sh", ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target" % COPY)
    open(D + "/test.sh", "w").write(t)
    all_sites = []
    for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.rs"], text=True).split():
        if "tests" in f or "example" in f or "bench" in f or not re.search(opt["files"], f):
            continue
        all_sites += [(f, s) for s in sites(f)[1]]
    random.shuffle(all_sites)
    print("%d sites" % len(all_sites))
    done = set()
    if os.path.exists(a[0]):
        done = {tuple(json.loads(l)["id"]) for l in open(a[0])}
    t0 = time.time()
    left = opt["n"]
    for f, (x, y, r) in all_sites:
        if left <= 0 or time.time() - t0 > opt["cap"]:
            break
        if (f, x, y, r) in done:
            continue
        left -= 1
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", COPY, 60)
        src = sites(f)[0]
        open(os.path.join(COPY, f), "w").write(src[:x] + r + src[y:])
        line = src.count("\n", 0, x) + 1
        ls = (src[:x] + r + src[y:]).split("\n")[line - 1].strip()
        rec = {"id": [f, x, y, r], "line": line, "was": src.split("\n")[line - 1].strip(), "now": ls}
        rc, o = sh("cargo build --workspace --offline --locked -q 2>&1 | tail -3; exit ${PIPESTATUS[0]}", COPY, 300,
                   dict(os.environ, CARGO_TARGET_DIR=COPY + "/target"))
        if rc:
            rec["state"] = "no build"
        else:
            rc, o = sh("bash %s/test.sh %s/test.json" % (D, D), COPY, 240)
            try:
                got = json.load(open(D + "/test.json"))
                got = {k for k, v in got.items() if v in (True, "pass", "passed", "ok")} if not any(isinstance(got.get(k), list) for k in ("passed", "passing")) else set(got.get("passed") or got.get("passing"))
            except Exception:
                got = set()
            if rc == 99 or base - got:
                rec["state"] = "tests"
            else:
                rec["state"] = "survived"
                env = dict(os.environ, HV_REPO=COPY, HV_WORK=D + "/work", HV_EVIDENCE=D + "/evidence", VERIF_TIER="quick", VERIF_SEED="1")
                ps = next(p for m, p in MAP if re.search(m, f)).split()
                rec["checks"] = {}
                for p in ps:
                    rc, o = sh("python3 %s/check.py %s" % (V, p), V, 900, env)
                    v = [l for l in o.splitlines() if "VIOLATION" in l]
                    rec["checks"][p] = rc
                    if rc == 1:
                        rec["state"] = "caught"
                        rec["by"] = p
                        rec["what"] = o[-300:] if not v else v[0][:200]
                        break
                    if rc != 0:
                        rec["note"] = o[-600:]
        open(a[0], "a").write(json.dumps(rec) + "\n")
        print("%-9s %s:%d %s  =>  %s %s" % (rec["state"], f, line, rec["was"][:70], rec["now"][:70], rec.get("checks", "")), flush=True)


main()

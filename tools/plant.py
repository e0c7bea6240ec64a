#!/usr/bin/env python3
"""plant.py SPECS.py [ids...]   Makes /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo:
builds, stable tests pass, demo passes on the clean tree and fails with the change; then runs the property's check on it.
SPECS.py defines SEEDS = [dict(id, property, file, edits=[(old,new)...], needs, breaks, demo)].   --nocheck skips the check; --recheck uses existing patches."""
import sys, os, subprocess, json, shutil, re, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant"
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=gnu++20 -g -w %s -I include "$here/demo.cpp" %s -o "$tmp/demo" -pthread || exit 3
cd "$tmp" && timeout 60 ./demo
'''
def sh(cmd, cwd=None, timeout=600, env=None):
    try: r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", env=env)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
HDRS = "handle iterator range variant variant.inl writable".split()
def scratch(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C %s" % d)
def tests(d):
    rc, o = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug >/dev/null && ninja -C _build", d, env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
    if rc: return "does not build: " + o[-1500:]
    for h in HDRS:
        rc, o = sh("printf '#include <cstdlib>\\n#include <iostream>\\n#include \"%s.hpp\"\\nint main() { }\\n' | g++ -std=gnu++20 -isystem include -fsyntax-only -x c++ -" % h, d)
        if rc: return "header %s: %s" % (h, o[-800:])
    rc, o = sh("python3 /opt/vp/run_cases.py _build 2>/dev/null", d)
    ok = {l[5:] for l in o.splitlines() if l.startswith("PASS ")}
    bad = [s for s in STABLE if s not in ok]
    return "tests fail: %s" % bad if bad else None
def make(s):
    d = os.path.join(VERIF, "seeded", s["id"]); sc = os.path.join(SC, s["id"]); scratch(sc)
    edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    subprocess.run("git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=sc)
    for f, es in edits.items():
        p = os.path.join(sc, f); t = open(p, newline="").read(); crlf = "\r\n" in t
        for old, new in es:
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1: return "edit matches %d times: %s" % (t.count(old), old[:70])
            t = t.replace(old, new)
        open(p, "w", newline="").write(t)
    patch = subprocess.run(["git", "-C", sc, "diff"], stdout=subprocess.PIPE).stdout
    # only original lines may be changed
    for f in edits:
        bl = sh(["git", "-C", "/repo", "blame", "-s", f])[1].splitlines()
        cur = 0
        for l in subprocess.run(["git", "-C", sc, "diff", "-U0", f], stdout=subprocess.PIPE).stdout.decode(errors="replace").splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                for k in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                    if not bl[k-1].startswith("^51219ab"): print("   NOTE: line %d of %s is not original: %s" % (k, f, bl[k-1][:100]))
                if int(m[2] or 1) == 0: print("   NOTE: pure insertion after line %s of %s" % (m[1], f))
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(patch)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH % (s.get("flags", ""), s.get("srcs", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return None
def confirm(i):
    d = os.path.join(VERIF, "seeded", i); sc = os.path.join(SC, i); scratch(sc)
    rc, o = sh(["git", "apply", "--unsafe-paths", "--directory=" + sc, d + "/patch.diff"], "/")
    if rc: rc, o = sh("git init -q; git apply %s" % (d + "/patch.diff"), sc)
    if rc: return "patch does not apply: " + o
    e = tests(sc)
    if e: return e
    rc, o = sh([d + "/demo.sh"], "/repo")
    if rc: return "demo fails on the clean tree (%d): %s" % (rc, o[-1500:])
    rc, o = sh([d + "/demo.sh"], sc)
    if rc == 0: return "demo passes with the change"
    print("   demo with the change: rc %d %s" % (rc, o[-200:].strip().replace("\n", " / ")))
    if rc in (2, 3): return "demo does not compile with the change: " + o[-1500:]
    return None
def check(i):
    prop = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))["property"]
    env = dict(os.environ, SIM_REPO=os.path.join(SC, i), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    rc, o = sh([sys.executable, os.path.join(VERIF, "check.py"), prop], VERIF, 900, env)
    m = re.search(r"^class (\S+), seed", o, re.M)
    rec = os.path.join(VERIF, "tools", "caught.json"); r = json.load(open(rec)) if os.path.exists(rec) else {}
    r[i] = {"check": prop, "class": m[1] if m and rc == 1 else None}; json.dump(r, open(rec, "w"), indent=0, sort_keys=True)
    v = "CAUGHT" if rc == 1 and ("VIOLATION property=%s" % prop) in o else "MISSED rc=%d" % rc
    return v, "\n".join(o.strip().splitlines()[-3:])
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]; opts = [a for a in sys.argv[1:] if a.startswith("--")]
    if "--recheck" in opts: ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded"))); seeds = [{"id": i} for i in ids]
    else:
        sp = importlib.util.spec_from_file_location("specs", args[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        seeds = [s for s in m.SEEDS if len(args) < 2 or s["id"] in args[1:]]
    for s in seeds:
        print("== " + s["id"], flush=True)
        e = None if "--recheck" in opts else make(s)
        e = e or confirm(s["id"])
        if e:
            print("   REJECTED: " + e, flush=True)
            continue
        if "--nocheck" not in opts: v, o = check(s["id"]); print("   %s\n   %s" % (v, o.replace("\n", "\n   ")), flush=True)
        shutil.rmtree(os.path.join(SC, s["id"]), ignore_errors=True)

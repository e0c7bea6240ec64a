#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   -- one simulated check; see DESIGN.md.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken, with a minimised replay file.  Anything else: error."""
import sys, os, json, time, hashlib, subprocess, shutil, fcntl, struct, tempfile, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks_table import CHECKS

CXX = os.environ.get("CXX", "g++")
CFLAGS = ["-std=gnu++20", "-w", "-fno-pie"] + (["-g"] if os.environ.get("SIM_DEBUG") else [])   # SIM_DEBUG=1: with debug information
WRAP = ["memcpy", "memmove", "memset", "memcmp"]
NCPU = int(os.environ.get("SIM_CPUS") or max(1, min(8, os.cpu_count() or 1)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

def die(msg, code=2):
    print("ERROR: " + msg, flush=True); sys.exit(code)

def files_under(d):
    out = []
    for root, dirs, names in os.walk(d):
        dirs.sort()
        out += [os.path.join(root, n) for n in sorted(names)]
    return out

def build(pid, spec):
    """Builds every variant of the check from /repo's working tree; cached by the content of everything that goes in."""
    h = hashlib.sha256()
    ins = files_under(os.path.join(REPO, "include")) + files_under(os.path.join(REPO, "src")) + files_under(os.path.join(VERIF, "sim"))
    ins += [os.path.join(VERIF, "checks", spec["src"])] + [os.path.join(VERIF, "checks", x) for x in spec.get("extra", [])]
    for f in ins:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(json.dumps([spec, CFLAGS, WRAP, CXX], sort_keys=True).encode())
    key = h.hexdigest()[:20]
    base = os.path.join(VERIF, "build"); out = os.path.join(base, pid + "-" + key)
    os.makedirs(base, exist_ok=True)
    lock = open(os.path.join(base, ".lock-" + pid), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    bins = [os.path.join(out, v["name"]) for v in spec["variants"]]
    if os.path.exists(os.path.join(out, "ok")): return bins
    for old in os.listdir(base):
        if old.startswith(pid + "-") and os.path.isdir(os.path.join(base, old)): shutil.rmtree(os.path.join(base, old), ignore_errors=True)
    os.makedirs(out)
    cmds = []
    hr = hashlib.sha256()
    for f in files_under(os.path.join(VERIF, "sim")): hr.update(open(f, "rb").read())
    hr.update(json.dumps([CFLAGS, CXX]).encode())
    rt = os.path.join(base, "simrt-%s.o" % hr.hexdigest()[:20])    # the runtime is the same for every check
    rt_new = None if os.path.exists(rt) else "%s.%d" % (rt, os.getpid())
    if rt_new: cmds.append([CXX] + CFLAGS + ["-O2", "-fno-threadsafe-statics", "-x", "c++", "-c", os.path.join(VERIF, "sim/simrt.cpp"), "-o", rt_new])
    links = []
    for v in spec["variants"]:
        objs = [rt]
        defs = ["-D" + pid, '-DCHECK_ID="%s"' % pid] + ["-D" + d for d in spec.get("defs", []) + v.get("defs", [])]
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim")]
        srcs = [os.path.join(VERIF, "checks", spec["src"])] + [os.path.join(VERIF, "checks", x) for x in spec.get("extra", [])] + [os.path.join(REPO, x) for x in spec.get("repo_srcs", [])]
        for s in srcs:
            o = os.path.join(out, v["name"] + "-" + os.path.basename(s) + ".o"); objs.append(o)
            cmds.append([CXX] + CFLAGS + [v.get("opt", "-O1"), "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"] + spec.get("flags", []) + defs + inc + ["-c", s, "-o", o])
        links.append([CXX, "-no-pie"] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAP + spec.get("wrap", []))] + spec.get("ldflags", []) + ["-ldl", "-lpthread", "-o", os.path.join(out, v["name"])])
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="backslashreplace")) for c in cmds]
    for c, p in procs:
        o, _ = p.communicate()
        if p.returncode: shutil.rmtree(out, ignore_errors=True); die("the check does not compile against this tree: %s\n%s" % (" ".join(c), o[-4000:]))
    if rt_new: os.replace(rt_new, rt)
    for c in links:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="backslashreplace")
        if r.returncode: shutil.rmtree(out, ignore_errors=True); die("the check does not link: %s\n%s" % (" ".join(c), r.stdout[-4000:]))
    open(os.path.join(out, "ok"), "w").close()
    return bins

def env_for(boot):
    e = dict(os.environ); e["SIM_BOOT"] = str(boot); e.pop("LD_PRELOAD", None); e["LC_ALL"] = "C"; return e

# ------------------------------------------------------------------------------------------------- replay files
class Plan:
    def __init__(self, text):
        self.head = []; self.cfg = {}; self.ops = []; self.inj = []
        for l in text.splitlines():
            w = l.split()
            if not w or w[0] == "#": continue
            if w[0] == "cfg": self.cfg[w[1]] = int(w[2])
            elif w[0] == "op": self.ops.append([int(w[1]), int(w[2]), w[3]] + [int(x) for x in w[4:8]])
            elif w[0] == "inj": self.inj.append([int(w[1]), w[2], int(w[3]), int(w[4])])
            else: self.head.append(l)
    def copy(self):
        p = Plan(""); p.head = list(self.head); p.cfg = dict(self.cfg); p.ops = [list(o) for o in self.ops]; p.inj = [list(i) for i in self.inj]; return p
    def text(self, comments=()):
        out = ["# " + c for c in comments] + list(self.head)
        out += ["cfg %s %d" % kv for kv in sorted(self.cfg.items())]
        ids = {o[0] for o in self.ops}
        out += ["op " + " ".join(str(x) for x in o) for o in self.ops]
        out += ["inj " + " ".join(str(x) for x in i) for i in self.inj if i[0] in ids]
        return "\n".join(out) + "\n"
    def size(self): return (len(self.ops), len(self.inj), sum(abs(x) for o in self.ops for x in o[3:]) + sum(i[2] + abs(i[3]) for i in self.inj))

def run_replay(binary, path, boot):
    try: r = subprocess.run([binary, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", timeout=200, env=env_for(boot))
    except subprocess.TimeoutExpired: return ("error", "-", "-", "timeout")
    m = re.search(r"^RESULT (\S+) (\S+) (\S+) \d+ \| (.*)$", r.stdout, re.M)
    return m.groups() if m else ("error", "-", "-", r.stdout[-300:])

def minimise(binary, plan, boot, cls, budget):
    """Delta debugging over operations and injections, then arguments; the violation class is kept."""
    tmp = tempfile.NamedTemporaryFile("w", suffix=".plan", dir=os.path.join(VERIF, "build"), delete=False); tmp.close()
    t0 = time.time(); runs = [0]
    def bad(p):
        if time.time() - t0 > budget: return False
        runs[0] += 1
        open(tmp.name, "w").write(p.text())
        r = run_replay(binary, tmp.name, boot); return r[0] == "violation" and r[1] == cls
    def ddmin(items, make):
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n); changed = False; i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                if bad(make(cand)): items = cand; changed = True
                else: i += size
                if time.time() - t0 > budget: return items
            if size == 1 and not changed: break
            n = 2 if changed and size > 1 else min(len(items) if items else 1, n * 2)
        return items
    cur = plan.copy()
    for rnd in range(3):
        before = cur.size()
        def with_inj(l): p = cur.copy(); p.inj = l; return p
        cur.inj = ddmin(cur.inj, with_inj)
        def with_ops(l): p = cur.copy(); p.ops = l; return p
        cur.ops = ddmin(cur.ops, with_ops)
        ids = {o[0] for o in cur.ops}; cur.inj = [i for i in cur.inj if i[0] in ids]
        for o in range(len(cur.ops)):
            for k in range(3, 7):
                while True:
                    v = cur.ops[o][k]
                    for nv in ([0, 1] if abs(v) > 1 else [0]) + ([v // 2] if abs(v) > 3 else []) + ([v - 1] if 1 < v <= 40 else []):
                        if nv == v or abs(nv) >= abs(v): continue
                        p = cur.copy(); p.ops[o][k] = nv
                        if bad(p): cur = p; break
                    else: break
        for i in range(len(cur.inj)):
            while cur.inj[i][2] > 0:
                v = cur.inj[i][2]
                for nv in sorted({0, v // 2, v - 1}):
                    p = cur.copy(); p.inj[i][2] = nv
                    if bad(p): cur = p; break
                else: break
        if cur.size() == before or time.time() - t0 > budget: break
    os.unlink(tmp.name)
    return cur, runs[0]

# ------------------------------------------------------------------------------------------------- main
def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS: die("usage: check.py PROPERTY [--replay FILE]", 64)
    pid = sys.argv[1]; spec = CHECKS[pid]
    t_start = time.time()
    bins = build(pid, spec)
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        txt = open(sys.argv[3]).read()
        boot = int((re.search(r"^# boot (\d+)", txt, re.M) or [0, 1])[1]); var = (re.search(r"^# variant (\S+)", txt, re.M) or [0, spec["variants"][0]["name"]])[1]
        b = bins[[v["name"] for v in spec["variants"]].index(var)]
        if "-v" in sys.argv: subprocess.run([b, "--replay", sys.argv[3], "-v"], env=env_for(boot))
        r = run_replay(b, sys.argv[3], boot); print("RESULT %s class=%s hash=%s %s" % r)
        if r[0] == "violation": print("VIOLATION property=%s replay=%s" % (pid, sys.argv[3])); sys.exit(1)
        sys.exit(0 if r[0] == "ok" else 2)
    t_build = time.time() - t_start
    thorough = TIER == "thorough"
    total = int(spec.get("thorough_runs" if thorough else "quick_runs", 4000000 if thorough else 120000))
    limit = float(spec.get("thorough_secs" if thorough else "quick_secs", 3000 if thorough else 150))
    limit = float(os.environ.get("SIM_SECS", limit)); total = int(os.environ.get("SIM_RUNS", total))
    base = (SEED % (1 << 24)) << 32
    tmpd = tempfile.mkdtemp(prefix="run-" + pid + "-", dir=os.path.join(VERIF, "build"))
    jobs = []; nv = len(bins)
    wsum = sum(v.get("weight", 1) for v in spec["variants"])
    workers = max(NCPU, nv)
    # each worker: one variant, one seed range, one pre-main entropy value
    per_variant = []
    for vi, v in enumerate(spec["variants"]): per_variant.append(max(1, round(workers * v.get("weight", 1) / wsum)))
    lo = base; t_run = time.time()
    for vi, nw in enumerate(per_variant):
        vruns = int(total * spec["variants"][vi].get("weight", 1) / wsum); each = max(1, vruns // nw)
        for w in range(nw):
            boot = 1 + w + 16 * vi + 1000 * (SEED % 1000); hf = os.path.join(tmpd, "h%d" % len(jobs))
            p = subprocess.Popen([bins[vi], "--explore", str(lo), str(lo + each), str(limit), hf, "4"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", env=env_for(boot))
            jobs.append(dict(p=p, vi=vi, lo=lo, hi=lo + each, boot=boot, hf=hf)); lo += each
    agg = {}; fired = {}; probes = {}; viols = []; errs = []
    for j in jobs:
        out, _ = j["p"].communicate(); done = False
        for l in out.splitlines():
            w = l.split(" ")
            if w[0] == "STAT": agg[w[1]] = agg.get(w[1], 0) + float(w[2])
            elif w[0] == "FIRED": fired[w[1]] = fired.get(w[1], 0) + int(w[2])
            elif w[0] == "PROBE": probes[w[1]] = probes.get(w[1], 0) + int(w[2])
            elif w[0] == "VIOL": viols.append((int(w[1]), w[2], w[3], l.split(" | ", 1)[1], j))
            elif w[0] == "ERR": errs.append(l)
            elif w[0] == "DONE": done = True
        if not done: errs.append("a worker ended early (status %s)" % j["p"].returncode)
    explore_s = time.time() - t_run
    # determinism audit: a sample of seeds again, in other processes, in the other order of workers
    audited = mismatches = 0; t_a = time.time()
    n_audit = 60 if thorough else 12
    rec = {}
    for j in jobs:
        data = open(j["hf"], "rb").read() if os.path.exists(j["hf"]) else b""
        j["recs"] = [struct.unpack_from("<QQ", data, 16 * i) for i in range(len(data) // 16)]
    for k in range(0 if viols else 2):     # with a violation, its exact replay is the audit
        ps = []
        for j in jobs:
            if len(j["recs"]) < 2: continue
            off = (len(j["recs"]) // 2) * k; n = min(n_audit, len(j["recs"]) - off)
            ps.append((j, off, n, subprocess.Popen([bins[j["vi"]], "--hashes", str(j["lo"] + off), str(j["lo"] + off + n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", env=env_for(j["boot"]))))
        for j, off, n, p in ps:
            out, _ = p.communicate()
            for l in out.splitlines():
                w = l.split(); i = int(w[0]) - j["lo"]
                if i < len(j["recs"]) and not errs:
                    audited += 1
                    if int(w[2], 16) != j["recs"][i][0]: mismatches += 1
    # distinct runs
    seen = set(); nontrivial = set()
    for j in jobs:
        for h, f in j["recs"]:
            seen.add((j["vi"], h))
            if f: nontrivial.add((j["vi"], h))
    shutil.rmtree(tmpd, ignore_errors=True)
    if mismatches: print("NOTE: %d of %d audited runs were not reproduced in another process" % (mismatches, audited))
    # violations: gate, minimise, replay
    report = None; unrepro = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    order = []; byclass = {}
    for v in sorted(viols, key=lambda v: v[0]): byclass.setdefault(v[1], []).append(v)
    while any(byclass.values()):
        for c in sorted(byclass):
            if byclass[c]: order.append(byclass[c].pop(0))
    for seed, cls, hsh, msg, j in order[:12]:
        b = bins[j["vi"]]
        r = subprocess.run([b, "--hashes", str(seed), str(seed + 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", env=env_for(j["boot"])).stdout.split()
        if len(r) < 4 or r[1] != "1" or r[2] != hsh or r[3] != cls: unrepro += 1; continue
        text = subprocess.run([b, "--dump", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", env=env_for(j["boot"])).stdout
        plan, nmin = minimise(b, Plan(text), j["boot"], cls, float(os.environ.get("SIM_MIN") or (120 if thorough else 60)))
        path = os.path.join(VERIF, "replays", "%s-%d.replay" % (pid, seed))
        def write(extra): open(path, "w").write(plan.text(["property %s" % pid, "boot %d" % j["boot"], "variant %s" % spec["variants"][j["vi"]]["name"], "violation class %s" % cls, "found by seed %d, VERIF_SEED=%d; minimised in %d runs" % (seed, SEED, nmin)] + extra))
        write([])
        r1 = run_replay(b, path, j["boot"]); r2 = run_replay(b, path, j["boot"])
        if r1[0] == "violation" and r1 == r2:
            write(["%s" % r1[3], "replay: python3 check.py %s --replay %s" % (pid, os.path.basename(path))])
            report = (path, cls, r1[3], seed); break
        unrepro += 1
    runs = int(agg.get("runs", 0)); wall = time.time() - t_start
    samples = []
    for s in (jobs[0]["lo"], jobs[-1]["lo"]):
        j = jobs[0] if s == jobs[0]["lo"] else jobs[-1]
        t = subprocess.run([bins[j["vi"]], "--dump", str(s)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="backslashreplace", env=env_for(j["boot"])).stdout
        samples.append({"seed": s, "variant": spec["variants"][j["vi"]]["name"], "plan": t[:2500]})
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(nontrivial),
              "rule": "One case is one simulated run: a plan (operations, arguments, injected faults, thread switches, device piece sizes, clock and entropy behaviour) made from one seed and executed in its own process. It is non-trivial if at least one fault or thread switch actually fired in it; two cases are distinct if the hashes of their event logs (operations, outcomes, observed values, faults, switches) differ.",
              "samples": samples,
              "distinct_runs_by_event_hash": len(seen), "runs_without_fired_fault": int(agg.get("nofault", 0)),
              "seeds_per_hour": int(runs / max(explore_s, 1e-3) * 3600), "operations": int(agg.get("ops", 0)),
              "memory_access_steps_in_library_code": int(agg.get("steps", 0)), "scheduling_points": int(agg.get("yields", 0)), "thread_switches": int(agg.get("switches", 0)),
              "library_allocations": int(agg.get("allocs", 0)), "simulated_time_s": agg.get("simtime", 0),
              "faults_fired": {k: v for k, v in fired.items() if v}, "probes": probes,
              "probes_never_hit": [p for p in spec.get("expect_probes", []) if not probes.get(p)],
              "determinism_audit": {"runs_repeated_in_other_processes": audited, "mismatches": mismatches},
              "real_components": spec.get("real", ""), "stubbed_components": spec.get("stub", "heap (simulated arena with shadow), thread scheduling, clocks, entropy source, locks and one-time initialisation"),
              "explore_seconds": round(explore_s, 2), "build_seconds": round(t_build, 2), "workers": len(jobs)},
          "assumptions": spec.get("assumptions", []) + ["sampled, not exhaustive: a clean batch is evidence, not proof", "atomics hold sequentially consistent values: no stale reads are simulated; what they synchronise follows the memory orders given"],
          "wall_s": round(wall, 2), "violations": 1 if report else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d runs (%d distinct non-trivial), %d operations, faults fired %s, %d seeds/h, audit %d/%d, %.1fs" % (pid, runs, len(nontrivial), int(agg.get("ops", 0)), {k: v for k, v in fired.items() if v}, ev["coverage"]["seeds_per_hour"], audited - mismatches, audited, wall))
    if report:
        print("class %s, seed %d: %s" % (report[1], report[3], report[2])); print("VIOLATION property=%s replay=%s" % (pid, report[0]), flush=True); sys.exit(1)
    if viols: die("%d violation(s) seen, none reproduced in a fresh process: %s" % (len(viols), viols[0][3]), 3)
    if errs: die("simulator errors: " + "; ".join(errs[:4]), 4)
    if runs == 0: die("no run was executed", 5)
    sys.exit(0)

if __name__ == "__main__": main()

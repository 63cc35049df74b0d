#!/usr/bin/env python3
"""Runs the bounded-exhaustive exploration that decides one property.

  check.py <ID>                 quick tier (or VERIF_TIER)
  check.py <ID> --thorough
  check.py --replay <file>      rebuild and re-run the one job recorded in a replay file
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
BASE = ["-std=c++17", "-stdlib=libc++", "-w", "-fno-exceptions", "-fno-rtti", "-ffast-math", "-ftree-vectorize",
        "-I" + REPO, "-I" + os.path.join(HERE, "harness")]
BACKENDS = {
    "avx2": ["-O2", "-march=x86-64-v3"],
    "sse4": ["-O2", "-march=x86-64-v2"],
    "gen":  ["-O2", "-march=x86-64"],
    # portable emulation of the NEON intrinsics: runs the aarch64 code paths on this machine
    "neon": ["-O2", "-march=x86-64", "-U__SSE__", "-D__ARM_NEON=1", "-I" + os.path.join(HERE, "harness", "neon")],
    "neon64": ["-O2", "-march=x86-64", "-U__SSE__", "-D__ARM_NEON=1", "-D__aarch64__=1", "-I" + os.path.join(HERE, "harness", "neon")],
    "asan": ["-O1", "-g", "-march=x86-64-v3", "-fsanitize=address,array-bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "asangen": ["-O1", "-g", "-march=x86-64", "-fsanitize=address,array-bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
NPROC = os.cpu_count() or 4
JOBLIMIT = {"quick": 150, "thorough": 3000}
from props_config import CONFIG

FAST = bool(os.environ.get("VERIF_FAST"))   # development: leave at the first failing job
log_lock = threading.Lock()
def say(s):
    with log_lock:
        print(s, flush=True)

class Unit:
    def __init__(self, src, part, backend, flags, nocompile=""):
        self.src, self.part, self.backend, self.flags, self.nocompile = src, part, backend, flags, nocompile
    def key(self):
        return "%s.%d.%s" % (os.path.splitext(self.src)[0], self.part, self.backend)

def compile_unit(u, bdir):
    exe = os.path.join(bdir, u.key())
    cmd = [CXX] + BASE + BACKENDS[u.backend] + u.flags + ["-DPART=%d" % u.part, "-DBACKEND_%s" % u.backend,
           os.path.join(HERE, "harness", u.src), "-o", exe] + (["-lpthread"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return exe, r.returncode, r.stdout

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0",
           MALLOC_PERTURB_="165")

stop = threading.Event()   # set once enough jobs have failed: the verdict is settled
trouble = {"timeout": 0, "fail": 0}
def first_run(exe, job, tier, limit):
    if stop.is_set():
        return dict(rc=None, wall=0, states=0, transitions=0, traces=0, samples=[], fail="", key=job, digest=None, status="skipped")
    r = run_job(exe, job, tier, limit)
    if r["status"] in ("fail", "crash", "timeout"):
        if FAST:
            say("VIOLATION (fast mode) %s: %s" % (job, r["fail"])); os._exit(1)
        with log_lock:
            trouble["timeout" if r["status"] == "timeout" else "fail"] += 1
            if trouble["timeout"] >= 4 or trouble["fail"] >= 24: stop.set()
    return r

def run_job(exe, job, tier, limit):
    cmd = [exe, "--job", job] + (["--thorough"] if tier == "thorough" else [])
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=ENV, start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = "timeout"
    r = dict(rc=rc, wall=time.time() - t0, states=0, transitions=0, traces=0, samples=[], fail=None, key=job, digest=None)
    done = False
    for l in out.splitlines():
        if l.startswith("MCSTAT "):
            a = l.split(); r["states"], r["transitions"], r["traces"] = int(a[1]), int(a[2]), int(a[3])
        elif l.startswith("MCSAMPLE "): r["samples"].append(l[9:])
        elif l.startswith("MCDIGEST "): r["digest"] = l[9:]
        elif l.startswith("MCFAIL "):
            k, _, m = l[7:].partition(" | "); r["key"], r["fail"] = k, m
        elif l == "MCDONE": done = True
    if rc == 0 and done and r["fail"] is None:
        r["status"] = "ok"
    elif r["fail"] is not None:
        r["status"] = "fail"
    elif rc == "timeout":
        r["status"], r["fail"] = "timeout", "no result within %d s" % limit
    elif rc == -signal.SIGKILL:
        r["status"], r["fail"] = "killed", "killed from outside"
    else:
        tail = " ".join(x.strip() for x in err.strip().splitlines()[:12])[:1500]
        r["status"], r["fail"] = "crash", "abnormal end (rc=%s): %s" % (rc, tail)
    return r

def known(prop):
    res = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return res

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args: tier = "thorough"; args.remove("--thorough")
    if "--quick" in args: tier = "quick"; args.remove("--quick")
    if args and args[0] == "--replay":
        rep = json.load(open(args[1]))
        u = Unit(rep["src"], rep["part"], rep["backend"], rep["flags"])
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
        bdir = tempfile.mkdtemp(dir=os.path.join(HERE, "build"))
        try:
            exe, rc, out = compile_unit(u, bdir)
            if rc: print(out); return 1 if rep["job"] == "build" else 2
            if rep["job"] == "build": print("builds"); return 0
            r = run_job(exe, rep["job"], rep["tier"], 3000)
            print(r["status"], r["fail"] or "")
            return 0 if r["status"] == "ok" else 1
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
    prop = args[0]
    only = args[1] if len(args) > 1 else None
    conf = CONFIG[prop]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "build"))
    try:
        return run(prop, conf, tier, bdir, t0, only)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def run(prop, conf, tier, bdir, t0, only):
    units = []
    for h in conf["harness"]:
        for part in h.get("parts", [0]):
            for b in h.get("backends_thorough", h["backends"]) if tier == "thorough" else h["backends"]:
                units.append(Unit(h["src"], part, b, h.get("flags", []) + ["-D" + d for d in h.get("defs", [])], h.get("nocompile", "")))
    ok_jobs, bad, errors = [], [], []
    njobs = 0
    digests = {}
    viol = []
    pool = cf.ThreadPoolExecutor(NPROC)
    cpool = cf.ThreadPoolExecutor(NPROC)
    limit = JOBLIMIT[tier]
    compile_s = {}
    def do_compile(u):
        t = time.time()
        r = compile_unit(u, bdir)
        compile_s[u.key()] = time.time() - t
        return u, r
    pend = [cpool.submit(do_compile, u) for u in units]
    runs = []
    for f in cf.as_completed(pend):
        u, (exe, rc, out) = f.result()
        if rc and u.nocompile == "violation" and "error:" in out:
            viol.append((u, "build", dict(status="fail", fail="an operation the library declares cannot be instantiated: " + out[:1200].replace("\n", " "), key="build", rc=rc)))
            continue
        if rc and u.backend.startswith("neon"):
            say("note: %s does not build with the emulated NEON intrinsics and is left out: %s" % (u.key(), out[:300].replace("\n", " ")))
            continue
        if rc:
            errors.append("compile %s: %s" % (u.key(), out[-3000:]))
            continue
        l = subprocess.run([exe, "--list"] + (["--thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        names = [n for n in l.stdout.split("\n") if n]
        if l.returncode:
            errors.append("list %s: rc %s" % (u.key(), l.returncode))
        if not names and not l.returncode:
            errors.append("list %s: no jobs" % u.key())
        for n in names:
            if only and not re.search(only, u.key() + ":" + n): continue
            runs.append((u, exe, n, pool.submit(first_run, exe, n, tier, limit)))
    njobs = len(runs)
    S = T = R = 0
    samples = []
    suspects = []
    perjob = []
    for u, exe, n, f in runs:
        r = f.result()
        perjob.append((r["wall"], u.key(), n))
        if r["status"] == "skipped":
            continue
        if r["status"] == "ok":
            S += r["states"]; T += r["transitions"]; R += r["traces"]
            samples += ["%s/%s: %s" % (u.key(), n, s) for s in r["samples"][:1]]
            if r["digest"]: digests.setdefault((u.src, u.part, n), {})[u.backend] = r["digest"]
            ok_jobs.append(n)
        else:
            suspects.append((u, exe, n, r))
    # replay before report: every suspect is run again, alone
    kn = known(prop)
    hits = []
    suspects.sort(key=lambda x: x[3]["status"] == "timeout")
    for u, exe, n, r in suspects[:12]:
        if viol and (r["status"] == "timeout" or time.time() - t0 > 300): break
        again = None
        for attempt in range(3):
            lim = limit * 1.2 if r["status"] == "timeout" else limit
            if tier == "quick": lim = min(lim, max(60, 700 - (time.time() - t0)))
            again = run_job(exe, n, tier, lim)
            if again["status"] in ("fail", "crash", "timeout"): break
        if again["status"] == "ok":
            say("note: %s/%s failed once and passed when repeated: %s" % (u.key(), n, r["fail"]))
            S += again["states"]; T += again["transitions"]; R += again["traces"]
            continue
        if again["status"] == "killed":
            errors.append("%s/%s killed" % (u.key(), n)); continue
        if again["key"] in kn:
            hits.append((again["key"], kn[again["key"]])); continue
        viol.append((u, n, again))
    for (src, part, n), d in sorted(digests.items()):
        if len(set(d.values())) > 1:
            u = [x for x in units if x.src == src and x.part == part][0]
            viol.append((u, n, dict(status="fail", fail="outputs differ between back ends: %s" % d, key=n, rc=0)))
    for k, w in hits:
        say("KNOWN-FINDING: property=%s %s (%s)" % (prop, w, k))
    for u, n, r in viol[:5]:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, u.key(), re.sub(r"\W+", "_", n)))
        json.dump(dict(property=prop, src=u.src, part=u.part, backend=u.backend, flags=u.flags, job=n, tier=tier,
                       status=r["status"], counterexample=r["fail"],
                       how="python3 check.py --replay <this file>"), open(path, "w"), indent=1)
        say("counterexample %s/%s [%s]: %s" % (u.key(), n, r["status"], r["fail"]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    perjob.sort(reverse=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=conf.get("level", "model_checking"),
              coverage=dict(states=S, transitions=T, traces_validated_against_impl=R, samples=samples[::max(1, len(samples) // 16)][:16],
                            exhaustive=not errors and not viol and not only,
                            jobs=njobs, harness_builds=len(units), backends=sorted(set(u.backend for u in units)),
                            cross_backend_digests_compared=sum(1 for d in digests.values() if len(d) > 1),
                            bounds=conf["bounds"],
                            counting="states: distinct inputs/configurations/object states enumerated; transitions: calls of the real code whose outcome was compared with the oracle; traces_validated_against_impl: complete histories (configuration fixed, calls run to the end) executed on the real code"),
              assumptions=conf.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if os.environ.get("VERIF_VERBOSE"):
        for w, k, n in perjob[:15]: say("  %6.2fs %s %s" % (w, k, n))
        for k, w in sorted(compile_s.items(), key=lambda x: -x[1])[:10]: say("  compile %6.2fs %s" % (w, k))
    for e in errors: say("ERROR " + e)
    say("%s %s: jobs=%d states=%d transitions=%d traces=%d violations=%d wall=%.1fs" % (prop, tier, njobs, S, T, R, len(viol), wall))
    if viol: return 1
    if errors: return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())

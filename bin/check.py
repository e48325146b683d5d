#!/usr/bin/env python3
"""Runs the model checking jobs of one property.

usage: check.py <property> [quick|thorough] [--only CASE] [--keep]

Compiles the harness together with the sources of /repo's working tree in a
scratch directory, explores the bounded space in parallel shards, confirms
crashes and hangs by replaying the single case, and writes
evidence/<property>.json.  Exit status: 0 held, 1 violated.
"""
import sys, os, json, time, signal, threading, subprocess, tempfile, shutil, hashlib, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import jobs as J

NCPU = min(8, os.cpu_count() or 1)
OPT = ["-std=c++14", "-DNDEBUG", "-w", "-pipe"]
VARIANTS = {
    "fast": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address"],
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

class BuildError(Exception): pass

def build(jobs, scratch):
    """compile all objects of all jobs in parallel; returns {(harness, variant): exe}"""
    objs, exes = {}, {}
    cache = os.environ.get("VERIF_CACHE")
    key = tree_hash([REPO + "/src", VERIF + "/harness"]) if cache else ""
    inc = ["-I" + REPO + "/src/geomap", "-I" + REPO + "/src/cellimage", "-I" + REPO + "/src", "-I" + VERIF + "/harness"]
    for j in jobs:
        if j["variant"] == "py": continue
        ex = (j["harness"], j["variant"])
        flags = OPT + VARIANTS[j["variant"]] + j.get("flags", [])
        lst = []
        for s in [VERIF + "/harness/" + j["harness"]] + [REPO + "/" + x for x in j["sources"]]:
            k = hashlib.sha256(json.dumps([s, flags, key]).encode()).hexdigest()[:24]
            o = os.path.join(cache or scratch, k + ".o")
            objs[o] = ["g++"] + flags + inc + ["-c", s, "-o"]
            lst.append(o)
        if ex not in exes:
            exes[ex] = (os.path.join(scratch, "exe%d" % len(exes)), lst, flags, j.get("libs", []))
    def comp(o):
        if cache and os.path.exists(o): return None
        t = o + ".%d.tmp.o" % os.getpid()
        r = sh(objs[o] + [t])
        if r.returncode: return r.stdout.decode(errors="replace")
        os.rename(t, o)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(comp, list(objs)):
            if e: raise BuildError(e)
    res = {}
    if any(j["variant"] == "py" for j in jobs): res.update(build_python(jobs, scratch))
    for k, (exe, lst, flags, libs) in exes.items():
        r = sh(["g++"] + flags + lst + libs + ["-o", exe])
        if r.returncode and b"undefined reference" in r.stdout:
            # code may have moved to another file: add the other sources of the
            # same directories that compile, as an archive (used only if needed)
            extra = more_objects(k, jobs, flags, inc, scratch)
            if extra:
                lib = exe + ".a"
                sh(["ar", "rcs", lib] + extra)
                r = sh(["g++"] + flags + lst + [lib] + libs + ["-o", exe])
        if r.returncode: raise BuildError(r.stdout.decode(errors="replace"))
        res[k] = exe
    return res

PYTHON = "/usr/bin/python3"
def build_python(jobs, scratch):
    """the extension module and the Python code of the project, built the way the project builds them; {(harness, "py"): command}"""
    info = json.loads(subprocess.run([PYTHON, "-c", "import sysconfig, numpy, vigra, json, sys; print(json.dumps([sysconfig.get_paths()['include'], numpy.get_include(), vigra.vigranumpycore.__file__, '%d%d' % sys.version_info[:2]]))"], stdout=subprocess.PIPE, check=True).stdout)
    pyinc, npinc, vnc, ver = info
    flags = ["-std=gnu++14", "-O2", "-w", "-pipe", "-fPIC", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DAVOID_DUPLICATE_DEFINITION_FROM_VIGRANUMPYCORE", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION", "-Dgeomap_EXPORTS",
             "-I" + REPO + "/src/python_bindings", "-I" + REPO + "/src/geomap", "-I" + REPO + "/src", "-I" + pyinc, "-I" + npinc]
    cache = os.environ.get("VERIF_CACHE"); key = tree_hash([REPO + "/src"]) if cache else ""
    import glob
    cm = open(REPO + "/src/python_bindings/CMakeLists.txt").read() if os.path.exists(REPO + "/src/python_bindings/CMakeLists.txt") else ""
    src = {os.path.basename(f): f for d in ("geomap", "python_bindings") for f in glob.glob(REPO + "/src/%s/*.cxx" % d)}
    names = [n for n in J.PYSRC if n in src] + [n for n in sorted(src) if n not in J.PYSRC and re.search(r"\b%s\b" % re.escape(n), cm)]
    tdir = os.path.join(scratch, "py"); os.makedirs(tdir)
    def comp(n):
        k = hashlib.sha256(json.dumps([src[n], flags, key]).encode()).hexdigest()[:24]
        o = os.path.join(cache or scratch, k + ".o")
        if cache and os.path.exists(o): return o, None
        t = o + ".%d.tmp.o" % os.getpid()
        r = sh(["g++"] + flags + ["-c", src[n], "-o", t])
        if r.returncode: return o, r.stdout.decode(errors="replace")
        os.rename(t, o); return o, None
    names.sort(key=lambda n: -os.path.getsize(src[n]))
    with cf.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(comp, names))
    for o, e in res:
        if e: raise BuildError(e)
    r = sh(["g++", "-shared", "-o", tdir + "/geomap.so"] + [o for o, e in res] + ["-Wl,-rpath," + os.path.dirname(vnc), vnc, "-lboost_python" + ver, "-lvigraimpex"])
    if r.returncode: raise BuildError(r.stdout.decode(errors="replace"))
    r = sh([PYTHON, "-W", "ignore", HERE + "/convert.py", REPO + "/python", tdir + "/py3"])
    if r.returncode: raise BuildError(r.stdout.decode(errors="replace"))
    return {(j["harness"], "py"): [PYTHON, "-W", "ignore", VERIF + "/harness/" + j["harness"]] for j in jobs if j["variant"] == "py"}

def more_objects(key, jobs, flags, inc, scratch):
    own = set(x for j in jobs if (j["harness"], j["variant"]) == key for x in j["sources"])
    dirs = set(os.path.dirname(x) for x in own) or {"src/geomap", "src/cellimage"}
    cand = []
    for d in sorted(dirs):
        for b, ds, fs in sorted(os.walk(REPO + "/" + d)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(b, f), REPO)
                if re.search(r"\.(cxx|cpp|cc|c)$", f) and p not in own: cand.append(p)
    def comp(i):
        o = os.path.join(scratch, "more-%s-%d.o" % (key[1], i))
        return o if sh(["g++"] + flags + inc + ["-c", REPO + "/" + cand[i], "-o", o]).returncode == 0 else None
    with cf.ThreadPoolExecutor(NCPU) as ex: return [o for o in ex.map(comp, range(len(cand))) if o]

def env(scratch):
    e = dict(os.environ)
    e["PYTHONPATH"] = ":".join(scratch + "/py" + x for x in ("", "/py3/utils", "/py3/maputils"))
    e["PYTHONDONTWRITEBYTECODE"] = "1"; e["PYTHONHASHSEED"] = "0"; e["OPENBLAS_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0"
    e["LC_ALL"] = "C.UTF-8"
    return e

def limits(variant):
    def f():
        import resource
        if variant != "asan": resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    return f

LOCK, STOP, RUNNING = threading.Lock(), threading.Event(), set()
FOUND, TIMERS = [], []
def stop():
    """enough is known: end all running explorations"""
    with LOCK:
        STOP.set()
        for p in RUNNING: p.kill()

def run(exe, prop, tier, job, shard, n, scratch, only=None, watchdog=None):
    exe = exe if isinstance(exe, list) else [exe]
    tag = "%s-%s-%s-%d%s" % (os.path.basename(exe[-1]), job.get("part", ""), job["variant"], shard, "-only" if only else "")
    out, cur, log = (os.path.join(scratch, tag + x) for x in (".out", ".cur", ".log"))
    cmd = exe + ["--prop", prop, "--tier", tier, "--out", out, "--cur", cur, "--shard", "%d/%d" % (shard, n)]
    if job.get("part"): cmd += ["--part", job["part"]]
    if only: cmd += ["--only", only]
    if watchdog: cmd += ["--watchdog", str(watchdog)]
    with open(log, "wb") as lf:
        with LOCK:
            if STOP.is_set(): return dict(rc="stopped", recs=[], cur="", tail="", cmd=cmd, asan="")
            p = subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env(scratch), preexec_fn=limits(job["variant"]), cwd=scratch); RUNNING.add(p)
        rc = p.wait()
        with LOCK: RUNNING.discard(p)
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except ValueError: pass
    c = b""
    if os.path.exists(cur): c = open(cur, "rb").read().split(b"\0")[0]
    tail = open(log, "rb").read()[-6000:].decode(errors="replace")
    if any(r.get("done") for r in recs): tail = ""
    m = re.search(r"ERROR: AddressSanitizer[^\n]*", tail)
    return dict(rc=rc, recs=recs, cur=c.decode(errors="replace"), tail=tail, cmd=cmd, asan=m.group(0) if m else "")

def load_known():
    p = os.path.join(VERIF, "known_findings.txt"); r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) case=(\S+) :: (.*)", l)
            if m: r.append(m.groups())
    return r

def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    only = args[args.index("--only") + 1] if "--only" in args else None
    tier = "thorough" if "thorough" in args else "quick"
    if not [a for a in args if a in ("quick", "thorough")]: tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = J.PROPS[prop]
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    os.makedirs(base, exist_ok=True)
    if os.environ.get("VERIF_CACHE"): os.makedirs(os.environ["VERIF_CACHE"], exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
    viols, counters, samples, parts, done, errors = [], {}, [], {}, 0, []
    try:
        try:
            exes = build(jobs, scratch)
        except BuildError as e:
            sys.stderr.write(str(e)[-6000:] + "\n"); print("build of the check failed"); return 2
        tb = time.time() - t0
        tasks = []
        for j in jobs:
            n = j.get("shards", NCPU)
            if only: n = 1
            for s in range(n): tasks.append((j, s, n))
        def one(t):
            j, s, n = t
            exe = exes[(j["harness"], j["variant"])]
            r = run(exe, prop, tier, j, s, n, scratch, only=only)
            if STOP.is_set(): return t, dict(r, recs=[x for x in r["recs"] if x.get("viol") or x.get("done")])
            if not any(x.get("done") for x in r["recs"]):
                case = r["cur"].split(" ")[0]
                # confirm: replay that case alone, with a longer limit
                c = run(exe, prop, tier, j, s, 1, scratch, only=case, watchdog=250) if case else r
                if any(x.get("done") for x in c["recs"]):
                    r2 = run(exe, prop, tier, j, s, n, scratch, watchdog=250)
                    if any(x.get("done") for x in r2["recs"]): return t, r2
                    r = r2; case = r["cur"].split(" ")[0]; c = r2
                if STOP.is_set(): return t, dict(r, recs=[x for x in r["recs"] if x.get("viol")])
                hang = any(x.get("hang") for x in c["recs"]) or c["rc"] == -signal.SIGPROF
                kind = "hang" if hang else "crash"
                if hang: stop()       # (others are likely to hang, too)
                r["recs"] = [x for x in r["recs"] if x.get("viol")]
                r["recs"].append(dict(viol=True, sig=kind, case=case, detail="%s (exit status %s) %s at: %s" % (kind, c["rc"], c["asan"], c["cur"] or r["cur"]), log=c["tail"]))
            if any(x.get("viol") for x in r["recs"]):
                FOUND.append(t)
                if tier == "quick" and time.time() - t0 > 400: stop()
            return t, r
        def late():
            if FOUND: stop()
        if tier == "quick":
            for at in (400, 600, 800):
                w = threading.Timer(at, late); w.daemon = True; w.start(); TIMERS.append(w)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for t, r in ex.map(one, tasks):
                j = t[0]; name = "%s:%s" % (j.get("part") or "main", j["variant"])
                for x in r["recs"]:
                    if x.get("viol"):
                        x["job"] = name; x["cmd"] = r["cmd"]; viols.append(x)
                    if x.get("done"):
                        done += 1
                        p = parts.setdefault(name, {})
                        for k, v in x["counters"].items(): p[k] = p.get(k, 0) + v
                        for s in x["samples"]:
                            if s not in samples and len([q for q in samples if q.startswith(name)]) < 6: samples.append(name + " " + s)
    finally:
        if "--keep" not in args: shutil.rmtree(scratch, ignore_errors=True)
    for name, p in parts.items():
        for k, v in p.items(): counters[k] = counters.get(k, 0) + v
    known = load_known()
    new, kn = [], {}
    for v in viols:
        for (kp, ks, kc, kd) in known:
            if kp == prop and re.fullmatch(ks, v["sig"]) and re.fullmatch(kc, v["case"]): kn.setdefault(kd, v); break
        else: new.append(v)
    for d in kn: print("KNOWN-FINDING: property=%s %s" % (prop, d))
    wall = time.time() - t0
    cov = dict(states=counters.get("states", 0), transitions=counters.get("transitions", 0),
               traces_validated_against_impl=counters.get("traces", 0), samples=samples[:12],
               exhaustive=(not new and done == len(tasks) and not only), bounds=spec["bounds"].get(tier, spec["bounds"].get("quick")),
               per_part=parts, shards_completed=done, shards=len(tasks), build_s=round(tb, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []) + J.COMMON_ASSUMPTIONS,
              wall_s=round(wall, 2), violations=len(new))
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    rp = VERIF + "/evidence/%s.replay.txt" % prop
    if not only and os.path.exists(rp): os.remove(rp)
    if new:
        new.sort(key=lambda v: (len(v["detail"]), v["case"]))
        with open(rp, "w") as f:
            for v in new[:20]:
                f.write("job:    %s\nsig:    %s\ncase:   %s\nwhat:   %s\nreplay: python3 /verif/bin/check.py %s %s --only '%s'\n" % (v["job"], v["sig"], v["case"], v["detail"], prop, tier, v["case"]))
                if v.get("log"): f.write("log:\n%s\n" % v["log"])
                f.write("\n")
        v = new[0]
        print("%s: %d violation(s); first: [%s] %s: %s" % (prop, len(new), v["sig"], v["case"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if done != len(tasks):
        print("internal error: %d of %d shards finished" % (done, len(tasks))); return 2
    if not counters.get("transitions"):
        print("internal error: nothing explored"); return 2
    print("%s held: %d states, %d transitions, %d traces in %.1fs (build %.1fs)" % (prop, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], wall, tb))
    return 0

if __name__ == "__main__": sys.exit(main())

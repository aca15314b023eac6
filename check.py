#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property on /repo's working tree.

Builds the real sources of /repo with the model-checking engine and the harness of the property, explores, writes
evidence/<property>.json.  exit 0: held, 1: violated (VIOLATION line), 3: no answer."""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CACHE = os.path.join(BUILD, "cache")
KNOWN = os.path.join(ROOT, "known_findings.txt")
REPLAYS = os.path.join(ROOT, "replays")

# property -> thread-pool sizes for the quick and the thorough tier
RPC = dict(quick=[1, 2], thorough=[1, 2, 3])
ONE = dict(quick=[1], thorough=[1])
CONF = {c: RPC for c in "C01 C02 C03 C04 C05 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22".split()}
CONF.update({c: ONE for c in "C06 C07 C19 C23 C24".split()})
EDEFS = {"C07": ("-DVMC_BIG",)}
PARTS = {"c04": 8}  # harnesses compiled in parts
TOTAL = dict(quick=150, thorough=2400)  # seconds of exploration per property, a safety net: the bounds end it earlier

CXX = ["clang++", "-std=c++17", "-g", "-fno-omit-frame-pointer", "-w"]
# memcpy, memmove and memset have to stay builtins: they are instrumented as such
NOBUILTIN = ["-fno-builtin-" + f for f in "memcmp bcmp strlen strcmp strncmp strcpy strncpy strcat strdup malloc free calloc realloc printf snprintf".split()]
UNDER_TEST = NOBUILTIN + ["-O1", "-fsanitize=thread", "-DNDEBUG", "-DVEIGAR_STATIC", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]

ASSUME = [
    "the engine's kernel model of POSIX shared memory, named semaphores, condition variables, mutexes and clocks is faithful (checked against the real kernel by C24's conformance runs)",
    "sequential consistency: interleavings are explored at synchronisation operations, data races are detected instead of explored",
    "compiled with clang -O1 and assertions off, pool sizes %s instead of 3",
]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def files(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


def compile_all(jobs):
    """jobs: (out, command).  Compiles what is not in the cache."""
    def one(j):
        out, cmd = j
        if os.path.exists(out):
            return None
        tmp = out + ".%d.tmp" % os.getpid()
        p = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
        if p.returncode:
            return " ".join(cmd) + "\n" + p.stderr[-4000:]
        os.rename(tmp, out)
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        print("BUILD FAILED\n" + errs[0])
        sys.exit(3)


def build(harness, pools, edefs=()):
    os.makedirs(CACHE, exist_ok=True)
    repo_h = tree_hash(files(REPO + "/src") + files(REPO + "/include"))
    eng_h = tree_hash(files(ROOT + "/engine"))
    har_h = tree_hash(glob.glob(ROOT + "/harness/*.h") + [ROOT + "/harness/%s.cpp" % harness, ROOT + "/engine/vmc.h"])
    ver = subprocess.check_output(["clang++", "--version"], text=True) + str(CXX + UNDER_TEST)
    inc = ["-I" + REPO + "/include"]

    def key(*a):
        return hashlib.sha256("\0".join([ver, REPO, *a]).encode()).hexdigest()[:24]

    parts = range(PARTS.get(harness, 1))
    hobjs = ["%s/%s-%d-%s.o" % (CACHE, harness, k, key(repo_h, har_h)) for k in parts]
    eobj = "%s/engine-%s.o" % (CACHE, key(eng_h, str(edefs)))
    jobs = [(o, CXX + UNDER_TEST + inc + ["-DPART=%d" % k, "-I" + ROOT + "/engine", "-iquote", REPO + "/src", "-c", ROOT + "/harness/%s.cpp" % harness]) for k, o in enumerate(hobjs)]
    jobs += [(eobj, CXX + ["-fno-builtin", "-O2", *edefs, "-c", ROOT + "/engine/engine.cpp"])]
    bins = {}
    link = []
    for t in pools:
        objs = []
        d = ["-DVEIGAR_%s_THREAD_NUMBER=%d" % (n, t) for n in ("DISPATCHER", "SEND_CALL", "SEND_RESPONSE")]
        for f in sorted(glob.glob(REPO + "/src/*.cpp")):
            o = "%s/r-%s-%s.o" % (CACHE, os.path.basename(f), key(repo_h, str(d)))
            jobs.append((o, CXX + UNDER_TEST + inc + d + ["-c", f]))
            objs.append(o)
        vt = "%s/vt%d.cpp" % (CACHE, t)
        with open(vt, "w") as fp:
            fp.write("int VT = %d;\n" % t)
        b = "%s/%s%d-%s" % (CACHE, harness, t, key(repo_h, har_h, eng_h, str(edefs)))
        bins[t] = b
        link.append((b, ["clang++", "-no-pie", "-rdynamic", *hobjs, eobj, *objs, vt, "-pthread", "-ldl"]))
    # the longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[1][-1]))
    compile_all(jobs)
    compile_all(link)
    return bins


def real_kernel(prop, tier):
    """The operation sequences of C24 on the real kernel: binds the engine's kernel model to it."""
    h = tree_hash(files(REPO + "/src") + files(REPO + "/include") + [ROOT + "/harness/prim.h", ROOT + "/harness/c24_real.cpp"])
    cmd = ["clang++", "-std=c++17", "-O1", "-w", "-DNDEBUG", "-DVEIGAR_STATIC", "-I" + REPO + "/include", "-iquote", REPO + "/src"]
    jobs, objs = [], []
    for f in [ROOT + "/harness/c24_real.cpp"] + sorted(glob.glob(REPO + "/src/*.cpp")):
        o = "%s/real-%s-%s.o" % (CACHE, os.path.basename(f), hashlib.sha256((REPO + h).encode()).hexdigest()[:24])
        jobs.append((o, cmd + ["-c", f]))
        objs.append(o)
    compile_all(jobs)
    b = CACHE + "/c24_real-" + hashlib.sha256((REPO + h).encode()).hexdigest()[:24]
    compile_all([(b, ["clang++", *objs, "-pthread", "-lrt"])])
    prefix = "vmc%d_" % os.getpid()
    try:
        p = subprocess.run([b, "4" if tier == "thorough" else "3", prefix], capture_output=True, text=True, timeout=300)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 3, str(e)
    finally:
        for f in glob.glob("/dev/shm/%s*" % prefix) + glob.glob("/dev/shm/sem.%s*" % prefix):
            os.unlink(f)
    n = sum(int(x) for x in re.findall(r"^REAL .* sequences (\d+)$", out, re.M))
    bad = [l for l in out.splitlines() if l.startswith("REAL-VIOLATION")]
    replay = None
    if bad:
        replay = "%s/%s-real-kernel.txt" % (REPLAYS, prop)
        with open(replay, "w") as f:
            f.write(out)
        print(out)
    s = dict(name="C24.real_kernel", pool=1, bound=-1, target=-1, executions=n, pruned=0, states=0, transitions=n, steps=n, traces=n, max_points=0, outcomes=1, complete=rc == 0, why="",
             wall_s=0, params={}, samples=["%d operation sequences agree with the model on the real kernel" % n], known=[], violation=bool(bad), replay=replay)
    return s, 1 if bad else 3 if rc else 0


def prune_cache(limit=3 << 30):
    try:
        fs = sorted((os.path.getmtime(f), f) for f in glob.glob(CACHE + "/*"))
        total = sum(os.path.getsize(f) for _, f in fs)
        for _, f in fs:
            if total < limit:
                break
            total -= os.path.getsize(f)
            os.unlink(f)
    except OSError:
        pass


def main():
    if sys.argv[1:] == ["setup"]:
        os.makedirs(CACHE, exist_ok=True)
        return 0
    prop = sys.argv[1]
    tier = (sys.argv[2:] + [os.environ.get("VERIF_TIER", "quick")])[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = CONF[prop]
    for d in (BUILD, CACHE, REPLAYS, ROOT + "/evidence"):
        os.makedirs(d, exist_ok=True)
    for f in glob.glob("%s/%s-*" % (REPLAYS, prop)):
        os.unlink(f)
    prune_cache()
    harness = prop.lower()
    bins = build(harness, conf[tier], EDEFS.get(prop, ()))
    tb = time.time() - t0
    res, rc, violation, known = [], 0, None, []
    for t in conf[tier]:
        out = "%s/%s-%s-%d.json" % (BUILD, prop, tier, t)
        if os.path.exists(out):
            os.unlink(out)
        left = TOTAL[tier] - (time.time() - t0 - tb)
        p = subprocess.run([bins[t], tier, "--prop", prop, "--json", out, "--known", KNOWN, "--dir", REPLAYS, "--total", "%.0f" % max(left, 5)])
        if os.path.exists(out):
            for s in json.load(open(out))["scenarios"]:
                s["pool"] = t
                res.append(s)
                known += s["known"]
                if s.get("violation"):
                    violation = s
        if p.returncode not in (0, 1):
            print("no answer: the explorer ended with %d" % p.returncode)
            return 3
        if p.returncode == 1:
            rc = 1
            break
    samples = []
    for s in res:
        samples += ["%s: %s" % (s["name"], x) for x in s["samples"][:2]]
    samples = samples[:12] or ["%s: %d executions" % (s["name"], s["executions"]) for s in res[:5]]
    if prop == "C24" and rc == 0:
        s, rc = real_kernel(prop, tier)
        if rc == 3:
            print("no answer: the run on the real kernel failed")
            return 3
        res.append(s)
        if rc == 1:
            violation = s
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(s["states"] for s in res),
            transitions=sum(s["transitions"] or s["steps"] for s in res),
            traces_validated_against_impl=sum(s["traces"] for s in res),
            samples=samples,
            exhaustive=all(s["complete"] for s in res),
            rule="every execution with at most `bound` deviations from each of the default schedules, and every alternative of the harness's free choices, of the real code; states are distinct happens-before prefixes (scenarios) or distinct component states (searches)",
            build_s=round(tb, 1),
            per_scenario=[{k: s[k] for k in ("name", "pool", "bound", "target", "executions", "pruned", "states", "transitions", "max_points", "outcomes", "complete", "why", "wall_s", "params")} for s in res],
        ),
        assumptions=[a % "/".join(map(str, conf[tier])) if "%s" in a else a for a in ASSUME],
        wall_s=round(time.time() - t0, 2),
        violations=1 if violation else 0,
        known_findings=sorted(set(known)),
    )
    tmp = "%s/evidence/%s.json.tmp" % (ROOT, prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, "%s/evidence/%s.json" % (ROOT, prop))
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    n = sum(s["executions"] for s in res)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    inc = [s["name"] for s in res if not s["complete"]]
    print("OK property=%s tier=%s executions=%d states=%d wall=%.1fs%s" % (prop, tier, n, ev["coverage"]["states"], ev["wall_s"], " incomplete: " + ", ".join(inc) if inc else ""))
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())

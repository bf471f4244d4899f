#!/usr/bin/env python3
"""Builds the allocator under test from /repo's working tree and runs the explorations that decide one property.

  hmc.py check PROPERTY [--tier quick|thorough] [--only SUBSTRING] [-v]
  hmc.py replay FILE
  hmc.py build            (everything the quick checks need)
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HMC_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CXX = "g++"
WRAP = ("mmap mmap64 munmap mprotect pkey_mprotect pkey_alloc pkey_set pkey_get mremap madvise posix_madvise prctl getrandom "
        "sysconf getpagesize pthread_mutex_init pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy "
        "pthread_atfork write abort memset").split()
SPECIAL = ("ANDROID",)     # not macros of the allocator: select how it is built
WRAP_RND = "get_random_u16 get_random_u64 get_random_u16_uniform get_random_u64_uniform".split()
CFG = ("CONFIG_SEAL_METADATA ZERO_ON_FREE WRITE_AFTER_FREE_CHECK SLOT_RANDOMIZE SLAB_CANARY SLAB_QUARANTINE_RANDOM_LENGTH "
       "SLAB_QUARANTINE_QUEUE_LENGTH CONFIG_EXTENDED_SIZE_CLASSES CONFIG_LARGE_SIZE_CLASSES GUARD_SLABS_INTERVAL GUARD_SIZE_DIVISOR "
       "REGION_QUARANTINE_RANDOM_LENGTH REGION_QUARANTINE_QUEUE_LENGTH REGION_QUARANTINE_SKIP_THRESHOLD "
       "FREE_SLABS_QUARANTINE_RANDOM_LENGTH CONFIG_CLASS_REGION_SIZE N_ARENA CONFIG_STATS CONFIG_SELF_INIT").split()
LONG = {"REGION_QUARANTINE_SKIP_THRESHOLD", "CONFIG_CLASS_REGION_SIZE"}


def read_mk(name):
    d = {}
    for line in open(os.path.join(REPO, "config", name + ".mk")):
        m = re.match(r"CONFIG_(\w+)\s*:?=\s*(\S+)", line)
        if m:
            for k in (m.group(1), "CONFIG_" + m.group(1)):
                if k in CFG:
                    d[k] = m.group(2)
    d["CONFIG_SELF_INIT"] = "false"
    return d


def variant(base="default", **kw):
    d = read_mk(base)
    for k, v in kw.items():
        if k in CFG or k in SPECIAL:
            d[k] = str(v).lower() if isinstance(v, bool) else str(v)
    return d


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)
    return r.stdout


class BuildError(Exception):
    pass


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def locked(fn):
    def g(*a, **k):
        os.makedirs(BUILD, exist_ok=True)
        return fn(*a, **k)
    return g


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def compile_all(jobs, workers=8):
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(sh, j) for j in jobs]:
            f.result()


def harness(name="hmc"):
    srcs = sorted(glob.glob(ROOT + "/engine/*.cc") + glob.glob(ROOT + "/drivers/*.cc"))
    hdrs = glob.glob(ROOT + "/engine/*.h") + glob.glob(ROOT + "/drivers/*.h")
    flags = ["-std=c++17", "-O2", "-Wall", "-Wextra", "-fno-strict-aliasing", "-fPIC"]
    d = digest(srcs + hdrs, " ".join(flags))
    out = os.path.join(BUILD, "h-" + d)
    exe = os.path.join(out, "hmc")
    with Lock("h-" + d):
        if os.path.exists(exe):
            return exe
        os.makedirs(out, exist_ok=True)
        objs, jobs = [], []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s)[:-3] + ".o")
            objs.append(o)
            jobs.append([CXX] + flags + ["-c", s, "-o", o])
        compile_all(jobs)
        sh([CXX, "-rdynamic", "-o", exe + ".tmp"] + objs + ["-ldl", "-lpthread"])
        os.rename(exe + ".tmp", exe)
    return exe


def target(cfg, mode="plain"):
    """shared object of the allocator with the given configuration.  mode: plain, sched (instrumented memory accesses),
    cxx (with operator new/delete), rng (real random functions)"""
    csrc = sorted(glob.glob(REPO + "/*.c"))
    allsrc = csrc + sorted(glob.glob(REPO + "/*.cc") + glob.glob(REPO + "/*.h") + glob.glob(REPO + "/include/*") + glob.glob(REPO + "/third_party/*"))
    shims = sorted(glob.glob(ROOT + "/engine/shim*.c*")) + sorted(f for f in glob.glob(ROOT + "/shim/**", recursive=True) if os.path.isfile(f))
    android = cfg.get("ANDROID") == "true"
    defs = ["-D%s=%s" % (k, cfg[k]) for k in CFG]
    cc = "gcc"
    flags = ["-std=gnu17", "-pipe", "-g1", "-O2", "-fPIC", "-w", "-D_GNU_SOURCE", "-I" + REPO + "/include", "-DH_MALLOC_PREFIX", "-ftls-model=initial-exec"] + defs
    if mode == "mte":
        flags += ["-DHAS_ARM_MTE", "-DPROT_MTE=0x20", "-fno-builtin"]
    if android:   # bionic's interface, with memory labels, against stand-in headers
        flags[flags.index("-I" + REPO + "/include"):0] = ["-I" + ROOT + "/shim/android", "-D__ANDROID__", "-DLABEL_MEMORY"]
    d = digest(allsrc + shims, mode + cc + " ".join(flags) + open(__file__).read())
    out = os.path.join(BUILD, "t-" + d)
    so = os.path.join(out, "target.so")
    with Lock("t-" + d):
        if os.path.exists(so):
            return so
        os.makedirs(out, exist_ok=True)
        srcdir = REPO
        if mode == "mte":
            # the tagging instructions are replaced by recording stand-ins; everything else is /repo's text
            srcdir = os.path.join(out, "src")
            shutil.rmtree(srcdir, ignore_errors=True)
            shutil.copytree(REPO, srcdir, ignore=shutil.ignore_patterns(".git", "out*", "test", "androidtest"))
            shutil.copy(ROOT + "/shim/arm_mte.h", srcdir + "/arm_mte.h")
            flags = ["-I" + srcdir + "/include" if f == "-I" + REPO + "/include" else f for f in flags]
        with open(out + "/cfg.c", "w") as f:
            f.write("struct { const char *n; long v; } hmc_cfg[] = {\n")
            for k in CFG + list(SPECIAL):
                v = cfg.get(k, "false")
                f.write('  {"%s", %s},\n' % (k, {"true": "1", "false": "0"}.get(v, v)))
            f.write("  {0, 0}};\n")
        jobs, objs = [], []
        for s in csrc:
            o = os.path.join(out, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            extra = ["-fsanitize=thread"] if mode == "sched" else []
            jobs.append([cc] + flags + extra + ["-c", os.path.join(srcdir, os.path.basename(s)), "-o", o])
        for s in ["cfg.c"]:
            objs.append(out + "/cfg.o")
            jobs.append([cc, "-O1", "-fPIC", "-w", "-c", out + "/cfg.c", "-o", out + "/cfg.o"])
        wraps = list(WRAP)
        if mode != "rng":
            wraps += WRAP_RND
            objs.append(out + "/shim.o")
            jobs.append([cc, "-O1", "-fPIC", "-w", "-c", ROOT + "/engine/shim.c", "-o", out + "/shim.o"])
        else:
            objs.append(out + "/shim_rng.o")
            jobs.append([cc, "-std=gnu17", "-O1", "-fPIC", "-w", "-I" + REPO, "-c", ROOT + "/shim/shim_rng.c", "-o", out + "/shim_rng.o"])
        if mode == "cxx":
            objs.append(out + "/new.o")
            jobs.append([CXX] + ["-std=c++17" if f == "-std=gnu17" else f for f in flags] + ["-fsized-deallocation", "-c", REPO + "/new.cc", "-o", out + "/new.o"])
        if android:
            wraps.append("mallopt")
            objs.append(out + "/fatal.o")
            jobs.append([cc, "-O1", "-fPIC", "-w", "-c", ROOT + "/shim/android/fatal.c", "-o", out + "/fatal.o"])
        if mode == "mte":
            wraps.append("memcpy")
        if mode == "rng":
            wraps.append("chacha_keystream_bytes")
        compile_all(jobs)
        sh([CXX if mode == "cxx" else cc, "-shared", "-o", so + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in wraps] + (["-Wl,-Bsymbolic"] if mode == "cxx" else []))
        os.rename(so + ".tmp", so)
    return so


def prune_build(keep=80):
    try:
        ds = sorted(glob.glob(BUILD + "/[ht]-*"), key=os.path.getmtime)
        ds = [d for d in ds if os.path.isdir(d)]
        for d in ds[:-keep]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def run_job(job, prop, tier, seed, verbose, replay_path=None):
    so = target(job["cfg"], job.get("mode", "plain"))
    exe = harness()
    out = os.path.join(BUILD, "out-%d.json" % os.getpid())
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, so, prop, job["kind"], "out=" + out, "seed=%d" % seed, "thorough=%d" % (tier == "thorough")]
    for k, v in job.get("args", {}).items():
        if isinstance(v, (list, tuple)):
            v = ",".join(map(str, v))
        cmd.append("%s=%s" % (k, v))
    if replay_path:
        cmd.append("replay=" + replay_path)
    limit = job.get("timeout", 100000)
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    pre = ["setarch", "-R"]
    try:
        r = subprocess.run(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=limit)
    except subprocess.TimeoutExpired:
        raise RuntimeError("timed out: " + " ".join(cmd))
    if r.returncode or not os.path.exists(out):
        raise RuntimeError("explorer failed (%d): %s\n%s%s" % (r.returncode, " ".join(cmd), r.stdout[-2000:], r.stderr[-4000:]))
    res = json.load(open(out))
    os.unlink(out)
    res["cmd"] = " ".join(cmd)
    return res


def known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop and k.get("status") == "known"]


def matches(k, job, res):
    return k.get("job", job["name"]) == job["name"] and k["clause"] == res["clause"] and re.search(k["match"], res["msg"])


def check(prop, tier, only=None, verbose=False):
    sys.path.insert(0, ROOT)
    import checks
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = [j for j in checks.jobs(prop, tier) if not only or only in j["name"]]
    meta = checks.META[prop]
    try:
        exe = harness()
        keys = {}
        for j in jobs:
            keys[json.dumps([j["cfg"], j.get("mode", "plain")], sort_keys=True)] = j
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(target, j["cfg"], j.get("mode", "plain")) for j in keys.values()]:
                f.result()
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    tot = dict(states=0, transitions=0, execs=0, probes=0, oracle=0)
    cov, samples, runs, found = {}, [], [], None
    complete = True
    notes = []
    for j in jobs:
        res = run_job(j, prop, tier, seed, verbose)
        for k in tot:
            tot[k] += res.get(k, 0)
        for k, v in res.get("cov", {}).items():
            cov[k] = cov.get(k, 0) + v
        samples += ["%s: %s" % (j["name"], s) for s in res.get("samples", [])[:3]]
        complete &= bool(res.get("complete", True))
        runs.append({"name": j["name"], "kind": j["kind"], "mode": j.get("mode", "plain"), "config": j["cname"], "bounds": j.get("args", {}),
                     "states": res.get("states", 0), "transitions": res.get("transitions", 0), "depth": res.get("depth", 0),
                     "complete_within_bounds": bool(res.get("complete", True)), "wall_s": res.get("wall", 0)})
        if res.get("pruned_at_start"):
            notes.append("%s: start-up failed, nothing explored" % j["name"])
            complete = False
        if verbose:
            print("  %-28s %-10s states %-9d trans %-9d probes %-9d depth %-3d %s %.1fs %s" % (
                j["name"], j["cname"], res.get("states", 0), res.get("transitions", 0), res.get("probes", 0), res.get("depth", 0),
                "complete" if res.get("complete", True) else "capped", res.get("wall", 0), res.get("cov", {}) if verbose > 1 else ""), flush=True)
        if res.get("violated"):
            ks = [k for k in known(prop) if matches(k, j, res)]
            if ks:
                print("KNOWN-FINDING: property=%s %s" % (prop, ks[0]["what"]))
                continue
            found = (j, res)
            break
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "wall_s": round(wall, 2), "violations": 1 if found else 0,
          "assumptions": checks.ASSUMPTIONS + meta.get("assumptions", [])}
    c = {"exhaustive": complete and not found, "runs": runs, "counters": cov, "samples": samples[:40] or ["(none)"]}
    if meta["level"] == "model_checking":
        c.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=cov.get("paths", 0) or tot["execs"],
                 oracle_evaluations=tot["oracle"], probes=tot["probes"], rule=meta["rule"])
    else:
        c.update(evaluations=tot["execs"] + tot["probes"], distinct_nontrivial=cov.get("nontrivial", tot["execs"]), rule=meta["rule"])
    if notes:
        c["notes"] = notes
    ev["coverage"] = c
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    with open(ROOT + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    prune_build()
    if found:
        j, res = found
        os.makedirs(ROOT + "/replays", exist_ok=True)
        path = ROOT + "/replays/%s-%s.json" % (prop, j["name"])
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "job": j, "path": res.get("path", ""), "clause": res["clause"], "msg": res["msg"],
                       "trace": res.get("trace", "")}, f, indent=1)
        print("property %s broken (%s, configuration %s): [%s] %s" % (prop, j["name"], j["cname"], res["clause"], res["msg"]))
        print(res.get("trace", ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("property %s: held on %d states, %d transitions, %d probes%s (%.1f s)" % (
        prop, tot["states"], tot["transitions"], tot["probes"], "" if complete else " (deepest level cut by the time limit)", wall))
    return 0


def replay(path):
    r = json.load(open(path))
    p = os.path.join(BUILD, "replay-path.txt")
    os.makedirs(BUILD, exist_ok=True)
    open(p, "w").write(r["path"])
    res = run_job(r["job"], r["property"], r["tier"], r["seed"], True, p)
    print(res.get("trace", ""))
    if res.get("violated"):
        print("[%s] %s" % (res["clause"], res["msg"]))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        only = None
        verbose = a.count("-v")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if "--only" in a:
            only = a[a.index("--only") + 1]
        try:
            return check(a[1], tier, only, verbose)
        except RuntimeError as e:
            print("CHECK ERROR: %s" % e)
            return 2
        except BuildError as e:
            print("BUILD FAILED\n%s" % e)
            return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "build":
        harness()
        import checks
        for p in checks.META:
            for j in checks.jobs(p, "quick"):
                target(j["cfg"], j.get("mode", "plain"))
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())

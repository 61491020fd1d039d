#!/usr/bin/env python3
"""Decide one property of librsync by deterministic simulation with fault injection.

  check.py <ID>            run the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py build           build every variant of the simulator
  check.py replay <file>   replay a recorded failure
"""
import os, sys, json, glob, hashlib, subprocess, shutil, time, struct, fcntl, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
CC, CXX, OBJCOPY = "/usr/bin/clang", "/usr/bin/clang++", "/usr/bin/objcopy"
NW = 8

REDEF = {s: "sim_" + s for s in """malloc calloc realloc reallocarray free strdup strndup posix_memalign aligned_alloc
 abort exit _exit time gettimeofday clock_gettime fopen freopen fclose fileno fstat stat access open close read write
 lseek fdopen ftruncate fsync isatty unlink rename link mkstemp chmod fchmod stdin stdout stderr printf vprintf puts
 putchar perror getchar""".split()}
REDEF.update({s: "sim_" + s for s in "fopen64 fstat64 stat64 lstat lstat64 open64 remove lseek64".split()})
REDEF["__assert_fail"] = "sim_assert_fail"

COMMON = ["-g1", "-fno-pic", "-fno-omit-frame-pointer", "-pthread"]
LIBF = ["-std=gnu99", "-w", "-Wno-error", "-Wno-int-conversion", "-Wno-implicit-function-declaration", "-Wno-incompatible-function-pointer-types", "-Wno-implicit-int", "-fwrapv", "-fno-zero-initialized-in-bss", "-ftrivial-auto-var-init=pattern", "-fasynchronous-unwind-tables", "-fexceptions"]
ASAN = ["-fsanitize=address", "-mllvm", "-asan-globals=0"]
VARIANTS = {
    # name: (flags for the library, flags for the harness, link flags)
    "asan": (["-O1", "-DNDEBUG", "-fsanitize-coverage=trace-pc-guard"] + ASAN, ["-O1", "-fsanitize=address"], ["-fsanitize=address"]),
    "dbg": (["-O1", "-DDO_RS_TRACE", "-fsanitize-coverage=trace-pc-guard"] + ASAN, ["-O1", "-fsanitize=address"], ["-fsanitize=address"]),
    "fast": (["-O2", "-DNDEBUG", "-fsanitize-coverage=trace-pc-guard,no-prune"], ["-O2"], []),
}
# property: (variant, runs quick, runs thorough, wall-clock guard in seconds quick, thorough)
PROPS = json.load(open(os.path.join(HERE, "sim", "budget.json")))
REAL = ["all of librsync (src/*.c and src/blake2/*.c of the working tree)"]
STUBS_ALL = ["heap (tracking allocator with failure plan)", "clock", "abort/exit", "files (stdio streams over an in-memory file system with fault plan)"]
COMPONENTS = {
    "C12": (["all of librsync", "rdiff.c main() with the real libpopt and the real stdio buffering of glibc"], STUBS_ALL + ["process (kill = unwinding at a basic block, then only written bytes survive)"]),
}
for _p in ("C13", "C14", "C21"):
    COMPONENTS[_p] = COMPONENTS["C12"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def die(msg, code=2):
    print(msg)
    sys.exit(code)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def config_h():
    """config.h as the project's own build system generates it."""
    ins = sorted(glob.glob(REPO + "/CMakeLists.txt") + glob.glob(REPO + "/src/config.h.in") + glob.glob(REPO + "/cmake/**/*", recursive=True))
    key = digest(*[rd(p) for p in ins if os.path.isfile(p)])
    d = os.path.join(BUILD, "conf-" + key)
    if os.path.exists(d + "/config.h"):
        return d
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(BUILD, "cmake-tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    src = None
    try:
        r = sh(["cmake", "-S", REPO, "-B", tmp, "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_RDIFF=ON", "-DBUILD_SHARED_LIBS=ON"], timeout=300)
        if r.returncode == 0 and os.path.exists(tmp + "/src/config.h"):
            src = tmp + "/src/config.h"
            for extra in glob.glob(tmp + "/src/*.h"):
                shutil.copy(extra, d)
    except Exception:
        pass
    if src is None:
        shutil.copy(os.path.join(SIM, "config_fallback.h"), d + "/config.h")
    shutil.rmtree(tmp, ignore_errors=True)
    return d


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(variant)


def build_locked(variant):
    conf = config_h()
    libflags, hflags, ldflags = VARIANTS[variant]
    hdrs = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/blake2/*.h") + glob.glob(conf + "/*.h"))
    hkey = digest(*[rd(p) for p in hdrs])
    simh = digest(*[rd(p) for p in sorted(glob.glob(SIM + "/*.h"))])
    inc = ["-I" + conf, "-I" + REPO + "/src", "-I" + REPO + "/src/blake2"]
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    mapf = os.path.join(BUILD, "redefine.syms")
    with open(mapf, "w") as f:
        for a, b in sorted(REDEF.items()):
            f.write("%s %s\n" % (a, b))
    jobs = []
    lib = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/blake2/*.c"))
    for c in lib:
        fl = COMMON + LIBF + libflags + inc + (["-Dmain=rdiff_main"] if os.path.basename(c) == "rdiff.c" else [])
        o = os.path.join(odir, "%s-%s-%s.o" % (variant, os.path.basename(c), digest(rd(c), hkey, fl, REDEF)))
        jobs.append((c, [CC] + fl, o, True))
    for c in sorted(glob.glob(SIM + "/*.cc") + glob.glob(SIM + "/*.c")):
        cpp = c.endswith(".cc")
        uses_lib = cpp and os.path.basename(c) in ("core.cc", "seams.cc", "refmodel.cc", "main.cc")
        fl = COMMON + hflags + (["-std=c++17", "-Wall"] if cpp else ["-std=gnu99"]) + inc + ['-DSIM_VARIANT="%s"' % variant]
        o = os.path.join(odir, "%s-%s-%s.o" % (variant, os.path.basename(c), digest(rd(c), simh, "" if uses_lib else hkey, fl)))
        jobs.append((c, [CXX if cpp else CC] + fl, o, False))
    exe = os.path.join(BUILD, "sim-%s-%s" % (variant, digest(*[j[2] for j in jobs])))
    if os.path.exists(exe):
        os.utime(exe)
        return exe

    def one(j):
        c, cmd, o, islib = j
        if os.path.exists(o):
            os.utime(o)
            return None
        tmp = o + ".tmp%d.o" % os.getpid()
        r = sh(cmd + ["-c", c, "-o", tmp])
        if r.returncode:
            return "compile of %s failed:\n%s" % (c, r.stdout[-3000:])
        if islib:
            r = sh([OBJCOPY, "--redefine-syms=" + mapf, "--rename-section", ".data=simdata", "--rename-section", ".bss=simbss", tmp])
            if r.returncode:
                return "objcopy of %s failed:\n%s" % (c, r.stdout[-2000:])
        os.rename(tmp, o)
        return None
    with ThreadPoolExecutor(NW) as ex:
        for e in ex.map(one, jobs):
            if e:
                die("BUILD-FAILED " + e)
    r = sh([CXX, "-no-pie", "-pthread"] + ldflags + [j[2] for j in jobs] + ["-lpopt", "-o", exe + ".tmp"])
    if r.returncode:
        die("BUILD-FAILED link:\n" + r.stdout[-4000:])
    os.rename(exe + ".tmp", exe)
    r = sh([exe, "selftest"])
    if r.returncode:
        os.unlink(exe)
        die("SELFTEST-FAILED " + r.stdout[-1000:])
    # bound the cache
    for pat, keep in (("/sim-%s-*" % variant, 3), ("/obj/%s-*" % variant, 400), ("/conf-*", 4)):
        fs = sorted(glob.glob(BUILD + pat), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)
    return exe


def env_for():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=11:quarantine_size_mb=24:malloc_context_size=8:allocator_may_return_null=1:handle_segv=1:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=16384"
    e.pop("SIM_REEXEC", None)
    e["LC_ALL"] = "C"
    return e


def replay(path, trace=False):
    txt = open(path).read()
    variant = re.search(r"^variant (\S+)", txt, re.M).group(1)
    exe = build(variant)
    return subprocess.run([exe, "replay", path] + (["trace"] if trace else []), env=env_for()).returncode


def run_check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    variant = cfg["variant"]
    runs = int(os.environ.get("SIM_RUNS", cfg["quick"] if tier == "quick" else cfg["thorough"]))
    guard = 400 if tier == "quick" else int(os.environ.get("SIM_GUARD", "780"))
    exe = build(variant)
    tbuild = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    env = env_for()
    t1 = time.time()
    ps = []
    for w in range(NW):
        log = open("%s/w%d.log" % (work, w), "w")
        ps.append(subprocess.Popen([exe, "worker", pid, str(seed), str(w), str(NW), str(runs), str(guard), "0" if tier == "quick" else "1",
                                    "%s/w%d" % (work, w)], env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL))
    rc = [None] * NW
    found = None
    deadline = None
    while any(r is None for r in rc):
        time.sleep(0.05)
        for i, p in enumerate(ps):
            if rc[i] is None:
                rc[i] = p.poll()
        if deadline is None and any(r == 1 for r in rc):
            # a violation is in hand: let workers that already hold a candidate finish, stop the rest
            deadline = time.time() + 1
        if deadline is not None and time.time() > deadline:
            for i, p in enumerate(ps):
                if rc[i] is None:
                    subprocess.run(["pkill", "-9", "-P", str(p.pid)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    p.kill()
                    p.wait()
                    rc[i] = -9
        if time.time() - t1 > guard + 300:
            for p in ps:
                subprocess.run(["pkill", "-9", "-P", str(p.pid)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                p.kill()
            die("TIMEOUT of the simulation workers")
    # gather
    tot = {"runs": 0, "choices": 0, "sim_seconds": 0, "blocks": 0}
    counters, samples, hashes, edges, etotal = {}, [], {}, None, 0
    sets = {"states": set(), "scheds": set(), "nontriv": set()}
    for w in range(NW):
        f = "%s/w%d.json" % (work, w)
        if not os.path.exists(f):
            continue
        d = json.load(open(f))
        for k in tot:
            tot[k] += d[k]
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += d["samples"]
        hashes.update(d["hashes"])
        etotal = max(etotal, d["edges_total"])
        bits = int(d["edges"] or "0", 2)
        edges = bits if edges is None else edges | bits
        for k in sets:
            b = rd("%s/w%d.%s" % (work, w, k))
            sets[k].update(struct.unpack("<%dQ" % (len(b) // 8), b))
    wall_sim = time.time() - t1
    violations = 0
    bad = [w for w in range(NW) if rc[w] == 1 and os.path.exists("%s/w%d.replay" % (work, w))]
    errs = [w for w in range(NW) if rc[w] not in (0, 1, -9)]
    lines = []
    if bad:
        def size(w):
            t = open("%s/w%d.replay" % (work, w)).read()
            return (1 if re.search(r"^range ", t, re.M) else 0, int(re.search(r"^choices (\d+)", t, re.M).group(1)))
        for w in sorted(bad, key=size):
            src = "%s/w%d.replay" % (work, w)
            txt = open(src).read()
            rdir = os.path.join(EVID, "replays")
            os.makedirs(rdir, exist_ok=True)
            sd = re.search(r"^seed (\d+)", txt, re.M).group(1)
            dst = os.path.join(rdir, "%s-%s.replay" % (pid, sd))
            shutil.copy(src, dst)
            r = sh([exe, "replay", dst], env=env, timeout=600)
            if r.returncode == 1:
                found = (dst, r.stdout, txt)
                break
            lines.append("replay of %s did not reproduce: %s" % (dst, r.stdout[-500:]))
    # determinism: the first seeds again, in one other process
    nd = min(40, runs) if tier == "quick" else min(200, runs)
    mism = checked = 0
    if not bad and not errs:
        log = open("%s/det.log" % work, "w")
        r = subprocess.run([exe, "worker", pid, str(seed), "0", "1", str(nd), "60", "0" if tier == "quick" else "1", "%s/det" % work], env=env, stdout=log, stderr=log)
        if r.returncode == 0:
            h2 = json.load(open("%s/det.json" % work))["hashes"]
            for k, v in h2.items():
                if k in hashes:
                    checked += 1
                    mism += v != hashes[k]
        else:
            mism = -1
    wall = time.time() - t0
    if found:
        violations = 1
    real, stub = COMPONENTS.get(pid, (REAL, STUBS_ALL))
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    other = {k: v for k, v in counters.items() if not k.startswith("fault.")}
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": violations,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(sets["nontriv"]), "rule": cfg["rule"],
            "samples": samples[:8] or ["(no non-trivial run before the violation)"],
            "simulated_runs_per_hour": int(tot["runs"] / max(wall_sim, 0.01) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(wall_sim, 0.01) * 3600),
            "simulated_time_s": tot["sim_seconds"], "library_basic_blocks_executed": tot["blocks"], "choices_made": tot["choices"],
            "faults_injected": faults, "other_counters": other,
            "distinct_schedules": len(sets["scheds"]),
            "distinct_states": len(sets["states"]),
            "state_measure": "set of library basic-block edges executed by one API call, combined with its result and the emptiness of the four buffer quantities; distinct_schedules: sequence of (input offered, output space, end-of-input) or task switches per run",
            "library_edges_reached": bin(edges).count("1") if edges else 0, "library_edges_total": etotal,
            "determinism_recheck": {"seeds_rerun_in_another_process": checked, "log_hash_mismatches": mism},
            "components_real": real, "components_stubbed": stub, "variant": variant, "workers": NW, "build_s": round(tbuild, 2),
        },
        "assumptions": ["the compiler (clang 18) and libc behave as documented", "reference models in /verif/sim/refmodel.cc are right (self-test with published vectors at every build)"],
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    code = 0
    if found:
        dst, out, txt = found
        print(out.strip())
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        code = 1
    elif bad or errs:
        for w in set(bad + errs):
            print("worker %d rc=%s: %s" % (w, rc[w], open("%s/w%d.log" % (work, w)).read()[-1500:]))
        for l in lines:
            print(l)
        code = 2
    else:
        print("OK property=%s tier=%s seed=%d runs=%d distinct_nontrivial=%d schedules=%d states=%d edges=%d/%d faults=%d wall=%.1fs determinism=%d/%d" % (
            pid, tier, seed, tot["runs"], len(sets["nontriv"]), len(sets["scheds"]), len(sets["states"]),
            ev["coverage"]["library_edges_reached"], etotal, sum(faults.values()), wall, checked - max(mism, 0), checked))
    if os.environ.get("SIM_SLOW"):
        for w in range(NW):
            sys.stdout.write("".join(l for l in open("%s/w%d.log" % (work, w), errors="replace") if l.startswith("SLOW")))
    shutil.rmtree(work, ignore_errors=True)
    return code


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "build":
        for v in VARIANTS:
            print(build(v))
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2], len(sys.argv) > 3)
    if sys.argv[1] not in PROPS:
        die("unknown property " + sys.argv[1])
    return run_check(sys.argv[1])


if __name__ == "__main__":
    sys.exit(main())

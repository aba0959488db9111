#!/usr/bin/env python3
"""Driver of the simulation checks: builds the simulator from /repo's working tree, runs seeded
simulations on all cores, gates and minimises violations, writes evidence/<id>.json.

usage: run.py check ID [--tier quick|thorough] [--runs N] [--seconds S]
       run.py replay FILE          (prints the trace of a replay file)
       run.py build ID...
"""
import os, sys, json, hashlib, subprocess, time, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.environ.get("SIM_CACHE", os.path.join(VERIF, "build"))
NCPU = max(2, min(16, os.cpu_count() or 8))

CXX = "clang++"
CFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address,array-bounds", "-fno-sanitize-recover=array-bounds", "-fno-omit-frame-pointer", "-w", "-include", os.path.join(SIM, "gnuc.hpp"),
          "-I" + os.path.join(REPO, "include")]
COV = ["-fsanitize-coverage=trace-pc-guard"]
LINK = ["-fsanitize=address,array-bounds", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]

# simulated threads: the library in an instrumented shared object, everything else uninstrumented
SOFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fPIC", "-fsanitize=thread", "-ftls-model=initial-exec", "-w", "-DCONC",
           "-include", os.path.join(SIM, "conc_pre.hpp"), "-include", os.path.join(SIM, "gnuc.hpp"), "-I" + os.path.join(REPO, "include")]
EXFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-DCONC", "-include", os.path.join(SIM, "gnuc.hpp"), "-I" + os.path.join(REPO, "include")]
SOWRAP = """malloc calloc realloc free _Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm
_ZdlPvRKSt9nothrow_t _ZdaPvRKSt9nothrow_t __cxa_allocate_exception __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_atexit
__cxa_thread_atexit pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock
pthread_rwlock_unlock pthread_once sched_yield memcpy memmove memset memcmp memchr bcmp strlen strcmp strncmp strchr strstr strcpy strncpy strcat
vsnprintf snprintf sprintf strtok localtime gmtime asctime ctime setlocale setenv rand srand""".split()

from checks import CHECKS   # per property configuration


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SIM):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".c")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(" ".join(CFLAGS + COV + LINK + SOFLAGS + EXFLAGS + SOWRAP).encode())
    return h.hexdigest()[:16]


def compile_one(args):
    src, obj, flags = args[:3]
    base = args[3] if len(args) > 3 else CFLAGS
    if os.path.exists(obj):
        return
    tmp = obj + ".tmp%d" % os.getpid()
    if src.endswith(".c"):
        cmd = ["clang", "-O2", "-fPIC", "-w"]
    else:
        cmd = [CXX] + base + flags
    r = sh(cmd + ["-c", os.path.join(SIM, src), "-o", tmp])
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr.decode(errors="replace")[:4000]))
    os.rename(tmp, obj)


def build(ids):
    """Build the binaries of the given properties from the current working tree; returns id -> path."""
    key = source_hash()
    out = os.path.join(CACHE, key)
    os.makedirs(out, exist_ok=True)
    # keep the cache small
    olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if re.fullmatch(r"[0-9a-f]{16}", d) and d != key), key=os.path.getmtime)
    for d in olds[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    jobs, binaries = {}, {}
    for pid in ids:
        def objects(units, kind, base, extra):
            objs = []
            for u in units:
                src, defs = (u, []) if isinstance(u, str) else (u[0], list(u[1:]))
                obj = os.path.join(out, kind + re.sub(r"\.c(pp)?$", "", src) + "".join(defs).replace("-D", "_").replace("=", "") + ".o")
                jobs[obj] = (src, obj, defs + ([] if src == "core.cpp" else extra), base)
                objs.append(obj)
            return objs
        units = CHECKS[pid]["units"] + ["core.cpp"]
        if "so" in CHECKS[pid]:
            binaries[pid] = (os.path.join(out, pid), objects(units, "ex_", EXFLAGS, []), objects(CHECKS[pid]["so"], "so_", SOFLAGS, COV))
        else:
            binaries[pid] = (os.path.join(out, pid), objects(units, "", CFLAGS, COV), None)
    with ThreadPoolExecutor(NCPU) as ex:
        # the biggest translation units first
        list(ex.map(compile_one, sorted(jobs.values(), key=lambda j: 0 if "scan_tu" in j[0] else 1)))
    res = {}
    for pid, (exe, objs, so) in binaries.items():
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            if so:
                lib = os.path.join(out, "lib%ssut.so" % pid)
                # a symbol version of its own keeps the executable from binding to the instrumented std:: templates in the library
                ver = os.path.join(out, "sut.ver")
                with open(ver, "w") as f:
                    f.write("SUT_1 { global: *; };\n")
                r = sh([CXX, "-shared", "-Wl,--version-script=" + ver, "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,relro", "-Wl,-soname,lib%ssut.so" % pid, "-o", lib + ".tmp"] + ["-Wl,--wrap=" + w for w in SOWRAP] + so)
                if r.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (lib, r.stderr.decode(errors="replace")[:4000]))
                os.rename(lib + ".tmp", lib)
                r = sh([CXX, "-rdynamic", LINK[1], "-o", tmp] + objs + ["-Wl,--no-as-needed", "-lstdc++", lib, "-Wl,-rpath," + out, "-ldl"])
            else:
                r = sh([CXX] + LINK + ["-o", tmp] + objs)
            if r.returncode != 0:
                raise BuildError("linking %s failed:\n%s" % (pid, r.stderr.decode(errors="replace")[:4000]))
            os.rename(tmp, exe)
        res[pid] = exe
    return res


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:quarantine_size_mb=8:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=2:symbolize=0"
ENV_SYM = dict(ENV)
ENV_SYM["ASAN_OPTIONS"] = ENV["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")


def read_state(fn):
    import struct
    try:
        with open(fn, "rb") as f:
            return struct.unpack("<QQQ", f.read(24))
    except Exception:
        return (0, 0, 0)


def run_workers(pid, exe, seed, runs, seconds, work):
    """Runs the simulations; returns (list of candidate failing plan files, list of worker results, errors)."""
    nw = NCPU
    procs = []
    cands, results, errors = [], [], []
    deadline = time.time() + seconds + 60

    def start(w, frm, gen):
        prefix = os.path.join(work, "w%d_%d" % (w, gen))
        st = prefix + ".state"
        left = max(1.0, deadline - 60 - time.time())
        err = open(prefix + ".stderr", "wb")
        p = subprocess.Popen([exe, "run", str(seed), str(frm), str(runs), str(nw), st, prefix, "%.1f" % left],
                             stdout=subprocess.DEVNULL, stderr=err, env=ENV)
        return dict(w=w, gen=gen, p=p, prefix=prefix, st=st, last=(-1, time.time()))

    for w in range(min(nw, runs)):
        procs.append(start(w, w, 0))
    crashes = 0
    crashed_runs = 0
    while procs:
        time.sleep(0.02)
        for pr in list(procs):
            rc = pr["p"].poll()
            cur = read_state(pr["st"])
            if rc is None:
                if cur[0] != pr["last"][0]:
                    pr["last"] = (cur[0], time.time())
                    continue
                elif time.time() - pr["last"][1] > 40:
                    pr["p"].kill(); pr["p"].wait(); rc = -999
                else:
                    continue
            procs.remove(pr)
            if rc == 0:
                results.append(pr["prefix"])
                continue
            if rc == 4:
                errors.append("nondeterminism: " + open(pr["prefix"] + ".stderr").read()[:500])
                continue
            if rc == 3:
                errors.append("worker usage error: " + open(pr["prefix"] + ".stderr").read()[:500])
                continue
            # crash or hang of a run: the plan is regenerated from the seed
            crashes += 1
            crashed_runs += cur[1]
            fn = pr["prefix"] + ".crash"
            g = sh([exe, "gen", str(seed), str(cur[0])], env=ENV)
            open(fn, "wb").write(g.stdout)
            cands.append(fn)
            if crashes < 3 and time.time() < deadline - 60:
                procs.append(start(pr["w"], cur[0] + nw, pr["gen"] + 1))
    for f in sorted(os.listdir(work)):
        if ".fail" in f:
            cands.append(os.path.join(work, f))
    return cands, results, errors


def merge(results):
    import array
    tot = dict(runs=0, nontrivial=0, twice=0, events=0, simtime_us=0, edges_total=0, edges_hit=0, capped=False)
    counters, hashes, samples = {}, set(), []
    edges = None
    for pre in results:
        try:
            j = json.load(open(pre + ".json"))
        except Exception:
            continue
        for k in ("runs", "nontrivial", "twice", "events", "simtime_us"):
            tot[k] += j[k]
        tot["capped"] |= j["capped"]
        tot["edges_total"] = max(tot["edges_total"], j["edges_total"])
        for k, v in j["counters"].items():
            counters[k] = counters.get(k, 0) + v
        a = array.array("Q"); a.frombytes(open(pre + ".hashes", "rb").read()); hashes.update(a)
        e = open(pre + ".edges", "rb").read()
        if edges is None:
            edges = bytearray(e)
        else:
            for i, b in enumerate(e):
                if b:
                    edges[i] = 1
        if len(samples) < 3:
            samples += [s for s in open(pre + ".samples", errors="replace").read().split("----\n") if s.strip()][:1]
    tot["edges_hit"] = sum(edges) if edges else 0
    return tot, counters, hashes, samples


def parse_class(fn):
    for l in open(fn, errors="replace"):
        if l.startswith("# class "):
            return l[8:].strip()
    return "unknown"


def replay(exe, fn):
    r = sh([exe, "replay", fn], env=ENV_SYM)
    out = r.stdout.decode(errors="replace").split("\n", 1)
    if r.returncode == 1 and out[0].startswith("VIOLATED "):
        return out[0][9:].strip(), (out[1].strip() if len(out) > 1 else "")
    if r.returncode == 0:
        return None, ""
    raise RuntimeError("replay of %s failed: rc=%d %s" % (fn, r.returncode, r.stderr.decode(errors="replace")[:400]))


def known_findings():
    fn = os.path.join(VERIF, "known_findings.json")
    return json.load(open(fn)) if os.path.exists(fn) else {"findings": [], "fixed": []}


def check(pid, tier, runs=None, seconds=None):
    t0 = time.time()
    cfg = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if runs is None:
        runs = cfg["runs"][tier]
    if seconds is None:
        seconds = cfg.get("seconds", {}).get(tier, 60 if tier == "quick" else 600)
    exe = build([pid])[pid]
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="sim_%s_" % pid)
    try:
        # recorded findings: fixed replays, excluded from the generated workload
        known_seen = 0
        for k in known_findings()["findings"]:
            if k["property"] != pid:
                continue
            cls, msg = replay(exe, os.path.join(VERIF, k["replay"]))
            if cls is not None and cls == k["class"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                known_seen += 1
            elif cls is not None:
                print("VIOLATION property=%s replay=%s" % (pid, os.path.join(VERIF, k["replay"])))
                print("  class %s: %s" % (cls, msg))
                return 1
        t1 = time.time()
        cands, results, errors = run_workers(pid, exe, seed, runs, seconds, work)
        t_run = time.time() - t1
        # cross process determinism: the same seeds in two fresh processes give the same traces
        det = []
        nsamp = 24 if tier == "quick" else 200
        if not cands and not errors:
            outs = [sh([exe, "hash", str(seed), "0", str(min(nsamp, runs))], env=ENV).stdout for _ in range(2)]
            det = outs[0].split(b"\n")
            if outs[0] != outs[1]:
                errors.append("nondeterminism across processes")
        violations = []
        seen = set()
        rdir = os.path.join(VERIF, "replays")
        for c in cands:
            if len(violations) >= 3:
                break
            # gate: must reproduce twice in fresh processes
            a, _ = replay(exe, c)
            b, _ = replay(exe, c)
            if a is None or a != b:
                errors.append("violation in %s does not reproduce (%s/%s)" % (os.path.basename(c), a, b))
                continue
            if a in seen:
                continue
            seen.add(a)
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, "%s-%s-%d.plan" % (pid, re.sub(r"[^A-Za-z0-9_-]", "_", a), seed))
            sh([exe, "minimize", c, dst, "3000", "60"], env=ENV)
            cls, msg = replay(exe, dst) if os.path.exists(dst) else (None, "")
            if cls != a:
                shutil.copy(c, dst)
                cls, msg = replay(exe, dst)
                if cls != a:
                    errors.append("minimised violation does not reproduce")
                    continue
            violations.append((cls, msg, dst))
        tot, counters, hashes, samples = merge(results)
        wall = time.time() - t0
        faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
        probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")}
        counts = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("count.")}
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": tot["runs"],
                "distinct_nontrivial": len(hashes),
                "rule": cfg["rule"],
                "samples": samples[:3] if samples else ["(no run met the rule)"],
                "simulated_runs_per_hour": int(tot["runs"] * 3600 / max(t_run, 0.001)),
                "seeds_per_hour": int(tot["runs"] * 3600 / max(t_run, 0.001)),
                "simulated_time_s": tot["simtime_us"] / 1e6,
                "events": tot["events"],
                "faults_injected": faults,
                "probes": probes,
                "counts": counts,
                "executed_twice_same_trace": tot["twice"],
                "cross_process_same_trace": max(0, len(det) - 1),
                "control_flow_edges_hit": tot["edges_hit"],
                "control_flow_edges_instrumented": tot["edges_total"],
                "stopped_by_time": tot["capped"],
                "known_findings_seen": known_seen,
                "real_components": cfg["real"],
                "stub_components": cfg["stub"],
                "build_s": round(t_build, 1), "simulation_s": round(t_run, 1),
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for cls, msg, dst in violations:
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            print("  class %s: %s" % (cls, msg[:1500]))
        if violations:
            return 1
        if errors:
            for e in errors:
                print("ERROR: " + e)
            return 2
        if tot["runs"] == 0:
            print("ERROR: no run was executed")
            return 2
        print("%s held on %d runs (%d distinct non-trivial traces), %.1f s (build %.1f s)" % (pid, tot["runs"], len(hashes), wall, t_build))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if len(argv) < 2:
        print(__doc__); return 2
    try:
        if argv[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            runs = seconds = None
            i = 2
            while i < len(argv):
                if argv[i] == "--tier":
                    tier = argv[i + 1]; i += 2
                elif argv[i] == "--runs":
                    runs = int(argv[i + 1]); i += 2
                elif argv[i] == "--seconds":
                    seconds = float(argv[i + 1]); i += 2
                else:
                    print(__doc__); return 2
            return check(argv[1], tier, runs, seconds)
        if argv[0] == "build":
            ids = list(CHECKS) if argv[1] == "all" else argv[1:]
            build(ids)
            return 0
        if argv[0] in ("replay", "trace"):
            pid = None
            for l in open(argv[1]):
                if l.startswith("# property "):
                    pid = l.split()[2]
            exe = build([pid])[pid]
            return subprocess.run([exe, argv[0], argv[1]], env=ENV_SYM).returncode
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

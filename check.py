#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

check.py <PROPERTY>          build the simulation of this property from /repo's working tree, run seeded simulations,
                             gate and report violations, write evidence/<PROPERTY>.json
check.py --setup             build the simulator runtime (optional, only saves time)
check.py --selftest [PROP]   determinism of every simulation over many seeds, processes and worker counts
check.py --replay FILE       execute a replay file against the current tree

VERIF_SEED and VERIF_TIER (quick, thorough) select the seed and the depth.
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LVSIM_REPO", "/repo")
BUILD = os.environ.get("LVSIM_BUILD", os.path.join(VERIF, "build"))
WORKERS = 8
sys.path.insert(0, VERIF)
from props import PROPS, REAL, STUB  # noqa: E402

WRAPS = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign", "abort", "exit",
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"]

# The configurations of the library that are simulated.
VARIANTS = {
    # shipped default: no bounds checks, assertions off
    "rel": dict(defs=["-DNDEBUG"], config=[]),
    # debug build with bounds checks
    "chk": dict(defs=[], config=["LVARRAY_BOUNDS_CHECK"]),
    # release build with bounds checks: assertions are off, index checks are on
    "chkrel": dict(defs=["-DNDEBUG"], config=["LVARRAY_BOUNDS_CHECK"]),
    # two memory spaces: CUDA, CHAI and umpire configuration compiled for the simulated host and device
    "dev": dict(defs=["-DNDEBUG", "-include", "cuda_fp16.h"], config=["LVARRAY_USE_CUDA", "LVARRAY_USE_CHAI", "LVARRAY_USE_UMPIRE"]),
    "devchk": dict(defs=["-include", "cuda_fp16.h"], config=["LVARRAY_USE_CUDA", "LVARRAY_USE_CHAI", "LVARRAY_USE_UMPIRE", "LVARRAY_BOUNDS_CHECK"]),
    # CHAI buffers without a device
    "chai": dict(defs=["-DNDEBUG"], config=["LVARRAY_USE_CHAI", "LVARRAY_USE_UMPIRE"]),
    # error reporting with source locations
    "a2lchk": dict(defs=[], config=["LVARRAY_ADDR2LINE_EXEC", "LVARRAY_BOUNDS_CHECK"]),
    # a debugger can show arrays
    "tv": dict(defs=["-DNDEBUG"], config=["LVARRAY_USE_TOTALVIEW_OUTPUT"]),
    "tvchk": dict(defs=[], config=["LVARRAY_USE_TOTALVIEW_OUTPUT", "LVARRAY_BOUNDS_CHECK"]),
    "a2l": dict(defs=["-DNDEBUG"], config=["LVARRAY_ADDR2LINE_EXEC"]),
}


class CheckError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build_runtime():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "sim", "sim.cpp")
    obj = os.path.join(BUILD, "sim-%s.o" % sha(src, os.path.join(VERIF, "sim", "sim.hpp")))
    if not os.path.exists(obj):
        tmp = "%s.%d" % (obj, os.getpid())
        run(["clang++", "-std=c++17", "-O2", "-fno-pie", "-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def write_config(path, variant):
    """LvArrayConfig.hpp as CMake would write it from the repository's template."""
    with open(os.path.join(REPO, "src", "LvArrayConfig.hpp.in")) as f:
        text = f.read()
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        cm = f.read()
    for part in ("MAJOR", "MINOR", "PATCHLEVEL"):
        m = re.search(r"set\(\s*LVARRAY_VERSION_%s\s+(\d+)" % part, cm)
        text = text.replace("@LVARRAY_VERSION_%s@" % part, m.group(1) if m else "0")
    on = set(VARIANTS[variant]["config"])

    def cmakedefine(m):
        name, rest = m.group(1), m.group(2)
        if name not in on:
            return "/* #undef %s */" % name
        return "#define %s%s" % (name, rest.replace("@LVARRAY_ADDR2LINE_EXEC@", "/usr/bin/addr2line"))
    text = re.sub(r"#cmakedefine\s+(\w+)([^\n]*)", cmakedefine, text)
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "LvArrayConfig.hpp"), "w") as f:
        f.write(text)


def python_setup():
    """Compile and link flags of the interpreter and NumPy in this sandbox, and where NumPy and SciPy are."""
    version = "%d.%d" % sys.version_info[:2]
    include = sysconfig.get_path("include", scheme="posix_prefix", vars={"base": "/usr", "installed_base": "/usr"})
    sites = glob.glob("/opt/veriftools/pyvenv/lib/python%s/site-packages" % version) + ["/usr/lib/python3/dist-packages"]
    site = [d for d in sites if os.path.exists(os.path.join(d, "numpy", "_core", "include", "numpy", "arrayobject.h")) and os.path.exists(os.path.join(d, "scipy"))]
    if not os.path.exists(os.path.join(include, "Python.h")) or not site:
        raise CheckError("the headers of Python %s or NumPy are not there" % version)
    return ["-I" + include, "-I" + os.path.join(site[0], "numpy", "_core", "include"), '-DLVSIM_SITE="%s"' % site[0], '-DLVSIM_PYDIR="%s"' % os.path.join(REPO, "src", "python")], ["-lpython" + version]


def build(prop):
    """Build the simulation binaries of a property from the working tree; returns {name: path}."""
    spec = PROPS[prop]
    out = os.path.join(BUILD, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs, links = [], []
    variants = {}
    for b in spec["bins"]:
        v = b.get("variant", "rel")
        if v not in variants:
            cfg = os.path.join(out, "cfg-" + v)
            write_config(cfg, v)
            flags = ["-std=c++14", "-O1", "-g1", "-fsanitize=thread,bounds", "-fsanitize-trap=bounds", "-fno-pie", "-DLVSIM", "-w",
                     "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "scen"),
                     "-I" + os.path.join(REPO, "src"), "-I" + cfg] + VARIANTS[v]["defs"]
            variants[v] = (flags, [])
            for src in (os.path.join(REPO, "src", "system.cpp"), os.path.join(REPO, "src", "umpireInterface.cpp"),
                        os.path.join(VERIF, "scen", "common.cpp")):
                obj = os.path.join(out, "%s-%s.o" % (v, os.path.basename(src)))
                jobs.append(["clang++"] + flags + ["-c", src, "-o", obj])
                variants[v][1].append(obj)
        flags, libs = variants[v]
        link = []
        if b.get("python"):
            more, link = python_setup()
            flags = flags + more
        obj = os.path.join(out, b["name"] + ".o")
        jobs.append(["clang++"] + flags + b.get("defs", []) + ["-c", os.path.join(VERIF, "scen", b["src"]), "-o", obj])
        extra = []
        for e in b.get("extra", []):
            eo = os.path.join(out, b["name"] + "-" + os.path.basename(e) + ".o")
            jobs.append(["clang++", "-std=c++17", "-O2", "-fno-pie", "-w", "-I" + os.path.join(VERIF, "sim"), "-c", os.path.join(VERIF, e), "-o", eo])
            extra.append(eo)
        for e in b.get("units", []):
            eo = os.path.join(out, b["name"] + "-" + e + ".o")
            jobs.append(["clang++"] + flags + b.get("defs", []) + ["-c", os.path.join(VERIF, "scen", e), "-o", eo])
            extra.append(eo)
        if b.get("python"):
            for e in sorted(glob.glob(os.path.join(REPO, "src", "python", "*.cpp"))):
                eo = os.path.join(out, b["name"] + "-" + os.path.basename(e) + ".o")
                jobs.append(["clang++"] + flags + ["-c", e, "-o", eo])
                extra.append(eo)
        links.append((b, obj, extra, libs, link))
    with ThreadPoolExecutor(WORKERS) as ex:
        rt = ex.submit(build_runtime)
        list(ex.map(run, jobs))
        runtime = rt.result()
    bins = {}
    for b, obj, extra, libs, link in links:
        exe = os.path.join(out, b["name"])
        wraps = ["-Wl,--wrap=" + w for w in WRAPS + b.get("wraps", [])]
        run(["clang++", "-no-pie", obj] + extra + libs + [runtime] + wraps + ["-ldl", "-lpthread"] + link + ["-o", exe])
        bins[b["name"]] = exe
    return bins


def known_findings():
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what failed>'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path, errors="replace") as f:
            for line in f:
                m = re.match(r"known:\s+property=(\w+)\s+key=(\S+)\s+(.*)", line.strip())
                if m:
                    out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def symbolise(exe, text):
    def one(m):
        try:
            r = subprocess.run(["addr2line", "-Cfie", exe, m.group(1)], stdout=subprocess.PIPE, text=True, timeout=20).stdout.split("\n")
            frames = ["%s (%s)" % (re.sub(r"<.*>", "<>", r[i])[:80], os.path.basename(r[i + 1])) for i in range(0, min(len(r) - 1, 8), 2)]
            return "[%s]" % " <- ".join(frames)
        except Exception:
            return m.group(0)
    return re.sub(r"\[pc (0x[0-9a-f]+)\]", one, text)


def common_args(prop):
    keys = ",".join(sorted(known_findings().get(prop, {})))
    return ["--known", keys] if keys else []


def simulate(prop, bins, tier, seed, t_end):
    spec = PROPS[prop]
    out = os.path.join(BUILD, prop)
    results = []
    for b in spec["bins"]:
        exe = bins[b["name"]]
        total = b[tier]
        stop = os.path.join(out, b["name"] + ".stop")
        procs = []
        left = max(5.0, t_end - time.time())
        for w in range(WORKERS):
            count = total // WORKERS + (1 if w < total % WORKERS else 0)
            res = os.path.join(out, "%s-%d.json" % (b["name"], w))
            cmd = [exe, "run", "--seed", str(seed), "--first", str(w), "--stride", str(WORKERS), "--count", str(count),
                   "--time", "%.1f" % left, "--out", res, "--stopfile", stop, "--stepcap", str(b.get("stepcap", 12000000))] + common_args(prop)
            procs.append((w, res, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        bad = False
        for w, res, p in procs:
            text, _ = p.communicate()
            if p.returncode not in (0, 3, 4) or not os.path.exists(res):
                for _, _, q in procs:
                    q.kill()
                raise CheckError("simulation %s worker %d died (%s): %s" % (b["name"], w, p.returncode, text[-2000:]))
            with open(res, errors="replace") as f:
                r = json.load(f)
            r["path"] = res
            r["bin"] = b
            results.append(r)
            if p.returncode != 0:
                bad = True
                open(stop, "w").close()
        if bad:
            break
    return results


def gate(prop, bins, r, seed):
    """Minimise, then replay in a fresh process; returns (replay path, class, message)."""
    exe = bins[r["bin"]["name"]]
    raw = r["path"] + ".replay"
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    final = os.path.join(rdir, "%s-%s-seed%d-run%d.replay" % (prop, r["bin"]["name"], seed, r["bad_run"]))
    cap = ["--stepcap", str(r["bin"].get("stepcap", 12000000))] + common_args(prop)
    m = subprocess.run([exe, "minimise", raw, final, "--time", "25"] + cap, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    note = m.stdout.strip()
    if m.returncode != 0:
        shutil.copy(raw, final)
    ok = False
    for candidate in (final, raw):
        if candidate == raw:
            shutil.copy(raw, final)
        replays = []
        for _ in range(2):
            p = subprocess.run([exe, "replay", final] + cap, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                # the code under test may have written something of its own, e.g. that an exception was not caught
                j = json.loads(p.stdout[p.stdout.rindex('{"status"'):].split("\n")[0])
            except Exception:
                raise CheckError("replay of %s did not answer: %s" % (final, p.stdout[-500:]))
            replays.append((p.returncode, j))
        ok = all(c == 3 and j["class"] == r["class"] and j["hash"] == j["expected_hash"] for c, j in replays)
        if ok:
            break
    if not ok:
        raise CheckError("the violation found in run %d of %s (%s: %s) does not replay from its file: %s" % (r["bad_run"], r["bin"]["name"], r["class"], r["message"], replays))
    return final, replays[0][1]["class"], symbolise(exe, replays[0][1]["message"]), note


def determinism(prop, bins, seed, n):
    """The same seeds in two fresh processes must give the same event hashes."""
    checked = 0
    for name, exe in bins.items():
        outs = []
        cap = ["--stepcap", str([b for b in PROPS[prop]["bins"] if b["name"] == name][0].get("stepcap", 12000000))] + common_args(prop)
        ps = [subprocess.Popen([exe, "hashes", "--seed", str(seed), "--first", "0", "--count", str(n)] + cap, stdout=subprocess.PIPE, text=True, errors="replace") for _ in range(2)]
        for p in ps:
            outs.append(p.communicate()[0])
        if outs[0].count("\n") != n:
            raise CheckError("simulation %s gave %d of %d event hashes" % (name, outs[0].count("\n"), n))
        if outs[0] != outs[1]:
            a, b = outs[0].split("\n"), outs[1].split("\n")
            diff = [(x, y) for x, y in zip(a, b) if x != y][:3]
            raise CheckError("simulation %s is not deterministic: %s" % (name, diff))
        checked += n
    return checked


def distinct(results, ext):
    seen = set()
    for r in results:
        p = r["path"] + ext
        if os.path.exists(p):
            with open(p, "rb") as f:
                data = f.read()
            seen.update((r["bin"]["name"], x) for x in struct.unpack("<%dQ" % (len(data) // 8), data))
    return len(seen)


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    evidence = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    bins = build(prop)
    t_built = time.time()
    results = simulate(prop, bins, tier, seed, t0 + (420 if tier == "quick" else 14000))
    t_sim = time.time()
    bad = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] in ("internal", "nondeterministic")]
    runs = sum(r["runs"] for r in results)
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    known = {}
    for r in results:
        known.update(r["known"])
    det = 0
    if not bad and not errors:
        det = determinism(prop, bins, seed, 40 if tier == "quick" else 400)
    violation = None
    if bad:
        r = min(bad, key=lambda x: (len(open(x["path"] + ".replay", "rb").read()), x["bad_run"]))
        violation = gate(prop, bins, r, seed)
    sim_wall = max(t_sim - t_built, 1e-3)
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": distinct(results, ".hashes"),
        "rule": spec["rule"] + " Every run is a fresh process image whose operations, scheduling, allocator behaviour, environment and faults are drawn from one PRNG "
                "(seed, run number). Two runs are distinct when the hash over their logged operations, allocations, faults and context switches differs.",
        "samples": [s for r in results for s in r["samples"]][:4],
        "seeds": "VERIF_SEED=%d, run numbers 0..%d per simulation" % (seed, max(b[tier] for b in spec["bins"]) - 1),
        "runs_and_seeds_per_hour": int(runs / sim_wall * 3600),
        "simulated_time_steps": sum(r["steps"] for r in results),
        "simulated_time_unit": "one step = one memory access, atomic operation, allocation or system call of the code under test seen by the simulator (the code has no clock)",
        "longest_run_steps": max(r["max_steps"] for r in results),
        "context_switches": sum(r["switches"] for r in results),
        "simulated_threads": sum(r["threads"] for r in results),
        "distinct_interleavings": distinct(results, ".scheds"),
        "interleaving_measure": "hash of the sequence of (thread, thread, step of the switch) of all context switches of a run",
        "runs_with_faults": sum(r["runs_with_faults"] for r in results),
        "runs_without_faults": runs - sum(r["runs_with_faults"] for r in results),
        "faults_fired": {k[2:]: v for k, v in sorted(counters.items()) if k.startswith("f:")},
        "reach_probes": {k[2:]: v for k, v in sorted(counters.items()) if k.startswith("p:")},
        "simulations": {b["name"]: {"runs": sum(r["runs"] for r in results if r["bin"]["name"] == b["name"]), "configuration": b.get("variant", "rel")} for b in spec["bins"]},
        "determinism_runs_compared": det,
        "real_components": spec.get("real", REAL),
        "stub_components": spec.get("stub", STUB),
        "build_s": round(t_built - t0, 2),
    }
    missing = [p for p in spec.get("probes", []) if not counters.get("p:" + p) and not counters.get("f:" + p)]
    coverage["probes_never_reached"] = missing
    with open(evidence + ".tmp", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
                   "assumptions": spec.get("assumptions", []) + ["sequentially consistent execution of the simulated threads plus happens-before race detection",
                                                                "the stand-ins listed under stub_components behave as the real libraries are documented to"],
                   "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}, f, indent=1)
    os.rename(evidence + ".tmp", evidence)
    if violation:
        path, cls, msg, note = violation
        print("violation class %s: %s" % (cls, msg))
        print(note)
        with open(path, errors="replace") as f:
            trace = f.read().split("trace\n", 1)[-1]
        print(trace[-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        return 1
    if errors:
        r = errors[0]
        print("ERROR: simulation %s run %d: %s %s %s" % (r["bin"]["name"], r["bad_run"], r["status"], r["class"], symbolise(bins[r["bin"]["name"]], r["message"])))
        return 2
    listed = known_findings().get(prop, {})
    for k in sorted(listed):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
    if missing:
        print("note: probes never reached: %s" % ", ".join(missing))
    print("%s held on %d simulated runs (%d distinct non-trivial), %d steps, %d context switches, faults %s, %.1f s" %
          (prop, runs, coverage["distinct_nontrivial"], coverage["simulated_time_steps"], coverage["context_switches"], coverage["faults_fired"], time.time() - t0))
    return 0


def selftest(props):
    worst = 0
    for prop in props:
        bins = build(prop)
        for name, exe in bins.items():
            b = [x for x in PROPS[prop]["bins"] if x["name"] == name][0]
            cap = ["--stepcap", str(b.get("stepcap", 12000000))] + common_args(prop)
            for seed in range(1, 7):
                jobs = []
                # one process for all, four processes for parts, and the same again: all must agree
                jobs.append(subprocess.Popen([exe, "hashes", "--seed", str(seed), "--first", "0", "--count", "200"] + cap, stdout=subprocess.PIPE, text=True, errors="replace"))
                for k in range(4):
                    jobs.append(subprocess.Popen([exe, "hashes", "--seed", str(seed), "--first", str(50 * k), "--count", "50"] + cap, stdout=subprocess.PIPE, text=True, errors="replace",
                                                 env=dict(os.environ, PADDING="x" * (37 * k))))
                o = [j.communicate()[0] for j in jobs]
                if o[0].count("\n") != 200 or o[0] != "".join(o[1:]):
                    print("NONDETERMINISTIC", prop, name, seed)
                    a, c = o[0].split("\n"), "".join(o[1:]).split("\n")
                    print([(x, y) for x, y in zip(a, c) if x != y][:3])
                    worst = 1
        print("deterministic:", prop)
    return worst


def main():
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    if len(sys.argv) < 2:
        print(__doc__)
        return 64
    try:
        if sys.argv[1] == "--setup":
            build_runtime()
            return 0
        if sys.argv[1] == "--selftest":
            return selftest(sys.argv[2:] or sorted(PROPS))
        if sys.argv[1] == "--replay":
            with open(sys.argv[2], errors="replace") as f:
                binary = f.readline().split()[1]
            prop = [p for p in PROPS if any(b["name"] == binary for b in PROPS[p]["bins"])][0]
            bins = build(prop)
            p = subprocess.run([bins[binary], "replay", sys.argv[2], "-v"] + common_args(prop), stdout=subprocess.PIPE, text=True, errors="replace")
            print(symbolise(bins[binary], p.stdout))
            return 1 if p.returncode == 3 else 0
        return check(sys.argv[1])
    except CheckError as e:
        print("ERROR:", e)
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main())

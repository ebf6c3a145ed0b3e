#!/usr/bin/env python3
"""Builds the simulator and the code under test, searches seeds for a violation of one
property, minimises and confirms what it finds and writes the evidence.

  check.py --setup             build everything
  check.py C01                 decide a property (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE       execute a replay file again
  check.py --selftest [C01..]  determinism over many seeds, processes and worker counts
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
SIM = os.path.join(VERIF, "sim")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)

MODELS2 = ["BouncingBall", "Dahlquist", "Feedthrough", "Resource", "Stair", "VanDerPol"]
MODELS3 = MODELS2 + ["Clocks", "Roberts", "StateSpace"]

# example programs: name, model, FMI version, sources, defines
PROGRAMS = [("%s_%s" % (m, t), m, v, ["simulate_fmi%d_%s.c" % (v, t), m + ".c"], [])
            for v, ms in ((2, MODELS2), (3, MODELS2 + ["StateSpace"])) for m in ms for t in ("cs", "me")]
PROGRAMS += [(p, m, 3, [p + ".c", m + ".c"], []) for p, m in (
    ("cs_early_return", "BouncingBall"), ("cs_event_mode", "BouncingBall"), ("cs_intermediate_update", "BouncingBall"),
    ("cs_reconfiguration", "StateSpace"), ("scs_synchronous", "Clocks"))]
PROGRAMS += [("jacobian", "VanDerPol", 3, ["jacobian.c"], []), ("import_shared_library", "VanDerPol", 3, ["import_shared_library.c"], []),
             ("import_static_library", "VanDerPol", 3, ["import_static_library.c"], [])]
# the Model Exchange programs take the number of states and event indicators from NX and NZ, which nothing defines
PROGRAMS += [(m + "_me_nx", m, v, ["simulate_fmi%d_me.c" % v, m + ".c"], ["-DNX=%d" % nx, "-DNZ=%d" % nz])
             for m, nx, nz in (("BouncingBall", 2, 1), ("Dahlquist", 1, 0), ("VanDerPol", 2, 0)) for v in (2, 3)]
PROGRAMS += [("StateSpace_me_nx", "StateSpace", 3, ["simulate_fmi3_me.c", "StateSpace.c"], ["-DNX=3"])]

# property: variant of the simulator, runs per tier
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

WRAP = ["malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "free", "strdup", "strndup",
        "fopen", "fopen64", "fclose", "realpath", "dlopen", "dlsym", "dlclose", "dlerror"]


class BuildError(Exception):
    pass


def tool(names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise BuildError("none of %s is installed" % names)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


IDLE = re.compile(r"\b[1-9][0-9]{8,9}[uUlL]{0,3}\b")


def digest(parts, files):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fp:
            h.update(fp.read())
    return h.hexdigest()[:20]


def headers():
    return glob.glob(REPO + "/include/*.h")


def par(jobs):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()


def cached(name, key, make):
    """build/<name>-<key>, made once; older versions of the same thing are dropped"""
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(out):
        try:
            os.utime(out)
        except OSError:
            pass
        return out
    tmp = out + ".tmp%d" % os.getpid()
    make(tmp)
    os.replace(tmp, out)
    old = sorted((p for p in glob.glob(os.path.join(BUILD, name + "-*")) if ".tmp" not in p), key=os.path.getmtime)
    for p in old[:-3]:
        os.remove(p)
    return out


def build():
    """returns {variant: (executable, library directory)}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked()


def build_locked():
    cc = tool(["clang-18", "clang"])
    cxx = tool(["clang++-18", "clang++"])
    result = {}
    simh = glob.glob(SIM + "/*.h") + glob.glob(SIM + "/fmi/*.h")
    variants = {
        "asan": dict(c=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"], l=["-fsanitize=address"]),
        "tsan": dict(c=["-O1", "-g"], l=[]),
    }
    fmu_flags = {
        "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"],
        "tsan": ["-g", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
    }
    wrap = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
    jobs = []
    objs = {"asan": [], "tsan": []}
    fmus = {"asan": {}, "tsan": {}}
    imp = {"asan": None, "tsan": None}

    def obj(var, f):
        flags = ["-std=c++17", "-Wall", "-Wno-unused-function"] + variants[var]["c"]
        if os.path.basename(f).startswith("p_imp"):
            inc = ["-I" + REPO + "/include", "-I" + SIM]
            key = digest([cxx, flags, inc], [f] + simh + headers())
        else:
            inc = ["-I" + SIM, "-I" + SIM + "/fmi"]
            key = digest([cxx, flags, inc], [f] + simh)
        o = cached("obj-%s-%s" % (var, os.path.basename(f)[:-4]), key,
                   lambda t: sh([cxx] + flags + inc + ["-c", f, "-o", t]))
        objs[var].append(o)

    def shorter(s, d):
        # Clocks burns CPU time in a loop of 1e9 iterations: the same source with fewer of
        # them, or if they are not found the optimiser removes the loop
        if not s.endswith("Clocks/model.c"):
            return [s]
        with open(s) as f:
            text = f.read()
        if not IDLE.search(text):
            return [s, "-O1"]
        copy = os.path.join(d, "model.c")
        with open(copy, "w") as f:
            f.write('#line 1 "%s"\n%s' % (s, IDLE.sub("1000", text)))
        return [copy]

    def fmu(var, m, ver):
        srcs = [REPO + "/src/fmi%dFunctions.c" % ver, REPO + "/src/cosimulation.c", REPO + "/%s/model.c" % m]
        flags = ["-std=gnu11", "-fPIC", "-w", "-DFMI_VERSION=%d" % ver, "-DDISABLE_PREFIX", "-I" + REPO + "/include", "-I" + REPO + "/" + m] + fmu_flags[var]
        key = digest([cc, flags, wrap, IDLE.pattern], srcs + headers() + glob.glob(REPO + "/%s/*.h" % m))

        def make(t):
            with tempfile.TemporaryDirectory(dir=BUILD) as d:
                os_ = []
                for i, s in enumerate(srcs):
                    o = "%s/%d.o" % (d, i)
                    sh([cc] + flags + ["-o", o, "-c"] + shorter(s, d))
                    os_.append(o)
                link = ["-fsanitize=address"] if var == "asan" else []
                sh([cc, "-shared", "-Wl,-Bsymbolic"] + link + wrap + os_ + ["-lm", "-o", t])
        fmus[var]["%s%d.so" % (m, ver)] = cached("fmu-%s-%s%d" % (var, m, ver), key, make)

    def importer(var):
        srcs = [REPO + "/src/FMI.c", REPO + "/src/FMI2.c", REPO + "/src/FMI3.c"]
        flags = ["-std=gnu11", "-fPIC", "-w", "-I" + REPO + "/include"] + fmu_flags[var]
        key = digest([cc, flags, wrap], srcs + headers())

        def make(t):
            with tempfile.TemporaryDirectory(dir=BUILD) as d:
                os_ = []
                for i, s in enumerate(srcs):
                    o = "%s/%d.o" % (d, i)
                    sh([cc] + flags + ["-c", s, "-o", o])
                    os_.append(o)
                link = ["-fsanitize=address"] if var == "asan" else []
                sh([cc, "-shared", "-Wl,-Bsymbolic"] + link + wrap + os_ + ["-lm", "-o", t])
        imp[var] = cached("fmu-%s-importer" % var, key, make)

    def program(name, model, ver, srcs, defs):
        # an example program with the importer library, as a shared library with its main renamed
        srcs = [REPO + "/examples/" + s for s in srcs]
        prefix = ["-DDISABLE_PREFIX"]
        if name == "import_static_library":
            srcs += [REPO + "/src/fmi3Functions.c", REPO + "/src/cosimulation.c", REPO + "/VanDerPol/model.c"]
            prefix = []
        elif name != "import_shared_library":
            srcs += [REPO + "/src/FMI.c", REPO + "/src/FMI%d.c" % ver]
        flags = ["-std=gnu11", "-fPIC", "-w", "-Dmain=example_main", "-DFMI_VERSION=%d" % ver] + prefix + ["-I" + REPO + "/include", "-I" + REPO + "/" + model] + defs + fmu_flags["asan"]
        key = digest([cc, flags, wrap], srcs + headers() + glob.glob(REPO + "/%s/*.h" % model) + glob.glob(REPO + "/examples/*.h"))

        def make(t):
            with tempfile.TemporaryDirectory(dir=BUILD) as d:
                os_ = []
                for i, s in enumerate(srcs):
                    o = "%s/%d.o" % (d, i)
                    sh([cc] + flags + ["-c", s, "-o", o])
                    os_.append(o)
                sh([cc, "-shared", "-Wl,-Bsymbolic", "-fsanitize=address"] + wrap + os_ + ["-lm", "-o", t])
        fmus["asan"]["ex-%s%d.so" % (name, ver)] = cached("ex-%s%d" % (name, ver), key, make)

    for a in PROGRAMS:
        jobs.append(lambda a=a: program(*a))
    for var in variants:
        for f in sorted(glob.glob(SIM + "/*.cpp")):
            jobs.append(lambda var=var, f=f: obj(var, f))
        for m in MODELS2:
            jobs.append(lambda var=var, m=m: fmu(var, m, 2))
        for m in MODELS3:
            jobs.append(lambda var=var, m=m: fmu(var, m, 3))
        jobs.append(lambda var=var: importer(var))
    par(jobs)
    for var in variants:
        os_ = sorted(objs[var])
        key = digest([cxx, variants[var]["l"], [os.path.basename(o) for o in os_]], [])
        exe = cached("exe-" + var, key, lambda t: sh([cxx, "-rdynamic"] + variants[var]["l"] + os_ + ["-ldl", "-lm", "-o", t]))
        # a directory with the libraries under their plain names
        names = dict(fmus[var], **{"importer.so": imp[var]})
        key = digest([sorted((k, os.path.basename(v)) for k, v in names.items())], [])
        d = os.path.join(BUILD, "libs-%s-%s" % (var, key))
        if not os.path.isdir(d):
            tmp = d + ".tmp%d" % os.getpid()
            os.makedirs(tmp)
            for k, v in names.items():
                shutil.copyfile(v, os.path.join(tmp, k))
            os.replace(tmp, d)
            olds = sorted((p for p in glob.glob(os.path.join(BUILD, "libs-%s-*" % var)) if ".tmp" not in p), key=os.path.getmtime)
            for p in olds[:-3]:
                shutil.rmtree(p, ignore_errors=True)
        else:
            os.utime(d)
        result[var] = (exe, d)
    return result


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:exitcode=77:allocator_may_return_null=1:"
           "abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:print_summary=0:quarantine_size_mb=16",
           LC_ALL="C")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def sim_env(prop):
    # a known finding is a kind of violation of a property whose message has all the given parts
    lines = ["\t".join([k["id"], k["code"]] + k["match"]) + "\n" for k in load_known() if k["property"] == prop]
    return dict(ENV, SIM_KNOWN="".join(lines))


def search(exe, libs, prop, seed, runs, wall, workers, scratch, hashes=False):
    procs = []
    env = sim_env(prop)
    if hashes:
        env["SIM_HASHES"] = "1"
    for w in range(workers):
        out = os.path.join(scratch, "w%d.json" % w)
        procs.append((out, subprocess.Popen([exe, "run", prop, str(seed), str(w), str(workers), str(runs), str(wall), libs, out],
                                            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = []
    for out, p in procs:
        _, err = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            raise RuntimeError("worker failed (%s): %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
        with open(out) as f:
            res.append(json.load(f))
    return res


def one(exe, libs, prop, choices, scratch):
    f = os.path.join(scratch, "one.txt")
    with open(f, "w") as fp:
        fp.write("\n".join(map(str, choices)) + "\n")
    r = subprocess.run([exe, "one", prop, libs, f, "-v"], env=sim_env(prop), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise RuntimeError("replay failed: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    t0 = time.time()
    print("property=%s seed=%d tier=%s" % (prop, seed, tier), flush=True)
    ev_file = os.path.join(EVIDENCE, prop + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if os.path.exists(ev_file):
        os.remove(ev_file)
    built = build()
    tb = time.time() - t0
    exe, libs = built[spec["variant"]]
    runs, wall = spec[tier]
    with tempfile.TemporaryDirectory(prefix="verif-sim-") as scratch:
        ts = time.time()
        res = search(exe, libs, prop, seed, runs, wall, WORKERS, scratch)
        wall_search = time.time() - ts
        # determinism: a sample of the seeds again, in other processes and with another worker count
        sample = max(20, min(200, runs // 50))
        os.mkdir(scratch + "/d1")
        os.mkdir(scratch + "/d2")
        a = search(exe, libs, prop, seed, sample, 60, WORKERS, scratch + "/d1", True)
        b = search(exe, libs, prop, seed, sample, 60, max(1, WORKERS // 2 - 1), scratch + "/d2", True)
        ha = dict(x for r in a for x in map(tuple, r["hash_list"]))
        hb = dict(x for r in b for x in map(tuple, r["hash_list"]))
        common = set(ha) & set(hb)
        bad = sorted(i for i in common if ha[i] != hb[i])
        viols = [v for r in res for v in r["violations"]]
        reported, knowns, replay_path = None, {}, None
        if any(v["code"] == "error" for v in viols):
            print("ERROR: a run was ended from outside: %s" % viols, flush=True)
            return 2
        if bad and not viols:
            print("ERROR: not deterministic: seed indices %s" % bad[:10], flush=True)
            return 2
        for k in load_known():
            runs_of = sum(r["known"].get(k["id"], 0) for r in res)
            if k["property"] == prop and runs_of:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
                knowns[k["id"]] = runs_of
        if viols:
            reported = min(viols, key=lambda v: v["index"])
        if reported is not None:
            replay_path = confirm(exe, libs, prop, seed, reported, spec, scratch)
            if replay_path is None:
                print("ERROR: violation at seed index %d (%s: %s) did not reproduce exactly" % (reported["index"], reported["code"], reported["message"]), flush=True)
                return 2
    feats, scheds, hashes = set(), set(), set()
    for r in res:
        feats.update(r["features"])
        scheds.update(r["schedules"])
        hashes.update(r["hashes"])

    def total(k):
        return sum(r[k] for r in res)

    def merged(k):
        m = {}
        for r in res:
            for n, c in r[k].items():
                m[n] = m.get(n, 0) + c
        return dict(sorted(m.items()))
    n = total("runs")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(hashes),
            "rule": "evaluations = simulated runs (one derived seed each); distinct_nontrivial = runs whose recorded history of calls, "
                    "results, faults and context switches differs from every other run (64-bit hash of the history)",
            "samples": [s for r in res for s in r["samples"]][:8],
            "seeds_per_hour": round(n / max(wall_search, 1e-9) * 3600),
            "search_wall_s": round(wall_search, 3),
            "build_wall_s": round(tb, 3),
            "workers": WORKERS,
            "fmi_calls_into_real_code": total("calls"),
            "choices_drawn": total("choices"),
            "simulated_seconds": round(total("sim_seconds"), 6),
            "schedule_decisions": total("switches"),
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure": spec["schedule_measure"],
            "distinct_features": len(feats),
            "distinct_features_measure": spec["feature_measure"],
            "faults_injected": merged("faults"),
            "runs_per_fault_kind": merged("fault_runs"),
            "runs_with_faults": total("faulty_runs"),
            "runs_without_faults": n - total("faulty_runs"),
            "rare_condition_probes": merged("probes"),
            "determinism_seeds_compared": len(common),
            "determinism_mismatches": len(bad),
            "real_components": spec["real"],
            "stub_components": spec["stub"],
        },
        "assumptions": spec["assumptions"],
        "violations": 1 if reported else 0,
        "wall_s": round(time.time() - t0, 3),
    }
    if knowns:
        ev["coverage"]["runs_per_known_finding"] = knowns
    with open(ev_file, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not reported and n < min(runs, spec.get("min_runs", 50)):
        print("ERROR: only %d runs were possible" % n, flush=True)
        return 2
    if reported:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path), flush=True)
        return 1
    print("held: %d runs, %d distinct histories, %d schedules, %.1f s" % (n, len(hashes), len(scheds), time.time() - t0), flush=True)
    return 0


def confirm(exe, libs, prop, seed, v, spec, scratch):
    """minimises, replays twice in fresh processes and writes the replay file"""
    with open(v["choices"]) as f:
        raw = [int(x) for x in f.read().split()]
    first = one(exe, libs, prop, raw, scratch)
    if not first["violation"] or first["code"] != v["code"]:
        return None
    small = os.path.join(scratch, "small.txt")
    budget = 45 if v["code"] != "hang" else 90
    subprocess.run([exe, "shrink", prop, libs, v["choices"], small, str(budget)], env=sim_env(prop), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ch = raw
    if os.path.exists(small):
        with open(small) as f:
            ch = [int(x) for x in f.read().split()]
    a = one(exe, libs, prop, ch, scratch)
    b = one(exe, libs, prop, ch, scratch)
    if not (a["violation"] and b["violation"] and a["code"] == b["code"] == v["code"] and a["hash"] == b["hash"] and a["message"] == b["message"]):
        ch = raw
        a = one(exe, libs, prop, ch, scratch)
        b = one(exe, libs, prop, ch, scratch)
        if not (a["violation"] and b["violation"] and a["code"] == b["code"] == v["code"] and a["hash"] == b["hash"] and a["message"] == b["message"]):
            return None
    path = os.path.join(REPLAYS, "%s-%d-%d.json" % (prop, seed, v["index"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": seed, "index": v["index"], "run_seed": v["seed"], "code": a["code"], "message": a["message"],
                   "hash": a["hash"], "original_length": len(raw), "choices": ch, "trace": a["trace"]}, f, indent=1)
        f.write("\n")
    print("violated at seed %d index %d (%s): %s" % (seed, v["index"], v["seed"], a["message"]))
    for line in a["trace"][-25:]:
        print("  | " + line)
    print("  %d choices, minimised to %d" % (len(raw), len(ch)), flush=True)
    return path


def replay(path):
    with open(path) as f:
        r = json.load(f)
    exe, libs = build()[CHECKS[r["property"]]["variant"]]
    with tempfile.TemporaryDirectory(prefix="verif-sim-") as scratch:
        a = one(exe, libs, r["property"], r["choices"], scratch)
    for line in a["trace"]:
        print("  | " + line)
    print("%s: %s" % (a["code"], a["message"]))
    exact = a["violation"] and a["code"] == r["code"] and a["message"] == r["message"] and a["hash"] == r["hash"]
    print("reproduced exactly" if exact else "reproduced, history differs" if a["violation"] else "not reproduced")
    if a["violation"]:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0


def selftest(props):
    built = build()
    rc = 0
    for p in props or sorted(CHECKS):
        exe, libs = built[CHECKS[p]["variant"]]
        n = 400
        hs = []
        with tempfile.TemporaryDirectory(prefix="verif-sim-") as scratch:
            for k, w in enumerate((8, 3, 1)):
                d = "%s/%d" % (scratch, k)
                os.mkdir(d)
                r = search(exe, libs, p, 7, n, 600, w, d, True)
                hs.append(dict(x for q in r for x in map(tuple, q["hash_list"])))
        diff = [i for i in hs[0] if any(h.get(i) != hs[0][i] for h in hs)]
        print("%s: %d seeds with 8, 3 and 1 workers, %d differ" % (p, len(hs[0]), len(diff)), flush=True)
        rc |= bool(diff)
    return 2 if rc else 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            build()
            return 0
        if a[0] == "--replay":
            return replay(a[1])
        if a[0] == "--selftest":
            return selftest(a[1:])
        return check(a[0])
    except BuildError as e:
        print("ERROR: build: %s" % e)
        return 2
    except RuntimeError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

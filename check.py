#!/usr/bin/env python3
"""check.py <property> [--secs N] [--replay FILE]: builds the simulation of the property's harness
from /repo's working tree, searches, reports. Exit 0 held, 1 violation, 2 error of the check."""
import concurrent.futures, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "source")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "_build"))
EVID = os.path.join(HERE, "evidence")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
CORES = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

COMMON = ["-std=c++17", "-fno-omit-frame-pointer", "-fno-pie", "-g1"]
INSTR = COMMON + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                  "-D_GLIBCXX_ASSERTIONS", "-DENABLE_MLPACK=false", "-w",
                  "-I" + os.path.join(HERE, "sim/include"), "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "harness"), "-I" + SRC, "-I" + os.path.join(REPO, "profile")]
PLAIN = COMMON + ["-O2", "-w", "-I" + os.path.join(HERE, "sim")]


def die(msg):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def content(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0" + content(p) + b"\0")
    return h.hexdigest()


def repo_units(which):
    out = []
    for d in which:
        p = os.path.join(SRC, d)
        for r, ds, fs in os.walk(p):
            ds.sort()
            out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(".cpp")]
    return out


def build(prop):
    chk = CHECKS[prop]
    os.makedirs(BUILD, exist_ok=True)
    ver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    heads = (".hpp", ".h", ".hxx", ".inl", ".tpp", ".ipp")
    rhead = sha(tree_hash(SRC, heads), tree_hash(os.path.join(REPO, "profile"), heads) if chk.get("profile") else "")
    shead = sha(tree_hash(os.path.join(HERE, "sim"), (".hpp",)), tree_hash(os.path.join(HERE, "harness"), (".hpp",)))
    jobs = []
    for f in ("rt", "disk", "main"):
        jobs.append((os.path.join(HERE, "sim", f + ".cpp"), PLAIN, shead))
    for f in chk["harness"]:
        jobs.append((os.path.join(HERE, "harness", f + ".cpp"), INSTR, rhead + shead))
    for f in repo_units(chk["units"]):
        jobs.append((f, INSTR, rhead + shead))
    objs, todo = [], []
    for path, flags, hh in jobs:
        key = sha(ver, " ".join(flags), hh, path, content(path))[:32]
        o = os.path.join(BUILD, os.path.basename(path) + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((path, flags, o))
    # biggest first
    todo.sort(key=lambda t: -(os.path.getsize(t[0]) + (10 ** 6 if "/harness/" in t[0] else 0)))

    def comp(t):
        tmp = t[2] + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + t[1] + ["-c", t[0], "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return t[0] + ":\n" + r.stderr[-3000:]
        os.replace(tmp, t[2])
        return None
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        for e in ex.map(comp, todo):
            if e:
                die("compilation failed: " + e)
    exe = os.path.join(BUILD, "sim-" + sha(*objs)[:32])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, "-no-pie", "-fno-pie", "-rdynamic", "-g", "-o", tmp] + objs + ["-ldl", "-pthread"], capture_output=True, text=True)
        if r.returncode:
            die("link failed: " + r.stderr[-3000:])
        os.replace(tmp, exe)
    prune()
    return exe


def prune():
    # keep the build folder small
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    fs = sorted([f for f in fs if os.path.isfile(f)], key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    while tot > 3 << 30 and fs:
        f = fs.pop(0)
        tot -= os.path.getsize(f)
        try:
            os.remove(f)
        except OSError:
            pass


def symbolize(exe, pcs):
    sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
    if not sym or not pcs:
        return []
    # return addresses: look one byte back
    r = subprocess.run([sym, "--obj=" + exe, "--functions", "--inlining=true"] + [hex(max(0, p - 1)) for p in pcs if p], capture_output=True, text=True)
    out = []
    for blk in r.stdout.split("\n\n"):
        ls = blk.strip().split("\n")
        for i in range(0, len(ls) - 1, 2):
            fn, loc = ls[i], ls[i + 1]
            if fn == "??":
                continue
            out.append((fn, re.sub(r":\d+$", "", loc)))
    return out


def repo_frames(exe, pcs):
    fr = symbolize(exe, pcs)
    return [(fn, loc) for fn, loc in fr if loc.startswith(SRC)]


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) key=(\S+) site=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py <property>")
    prop = sys.argv[1]
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe = build(prop)
    if "--build" in sys.argv:
        print(exe)
        return 0
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        r = subprocess.run([exe, "--replay", f, "--verbose"])
        return r.returncode
    t_build = time.time() - t0
    secs = chk["thorough_secs"] if tier == "thorough" else chk["quick_secs"]
    if "--secs" in sys.argv:
        secs = float(sys.argv[sys.argv.index("--secs") + 1])
    work = os.path.join(EVID, "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = os.path.join(EVID, "replays")
    os.makedirs(rep, exist_ok=True)
    procs = []
    t1 = time.time()
    for i in range(CORES):
        out = os.path.join(work, "s%d.json" % i)
        cmd = [exe, "--property", prop, "--base", str(seed), "--from", str(i), "--step", str(CORES), "--runs", "1000000000", "--secs", str(secs),
               "--minsecs", "30" if tier == "quick" else "120", "--out", out, "--dir", rep, "--maxviol", "2" if tier == "quick" else "4"]
        if tier == "thorough":
            cmd.append("--thorough")
        procs.append((i, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "err%d" % i), "w"))))
    broken = []
    for i, out, p in procs:
        try:
            rc = p.wait(timeout=secs + 600)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        if rc not in (0, 1):
            err = content(os.path.join(work, "err%d" % i)).decode(errors="replace")[-600:]
            broken.append("search process %d ended with %s: %s" % (i, rc, err.strip()))
    t_search = time.time() - t1
    tot = dict(runs=0, steps=0, sim_ns=0, switches=0, preemptions=0, rechecked=0, nontrivial=0)
    ctr, ctr_runs, samples, viols = {}, {}, [], []
    sched, execs, nts, maxsteps = set(), set(), set(), 0

    def u64(path):
        b = content(path) if os.path.exists(path) else b""
        return struct.unpack("<%dQ" % (len(b) // 8), b)
    for i, out, p in procs:
        if not os.path.exists(out):
            broken.append("no result from search process %d" % i)
            continue
        d = json.load(open(out))
        for k in tot:
            tot[k] += d[k]
        maxsteps = max(maxsteps, d["max_steps"])
        for a, b in ((ctr, d["counters"]), (ctr_runs, d["counter_runs"])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        samples += d["samples"][:1]
        sched.update(u64(out + ".sched"))
        execs.update(u64(out + ".execs"))
        nts.update(u64(out + ".nts"))
        if os.path.exists(out + ".viol"):
            viols += [json.loads(l) for l in open(out + ".viol") if l.strip()]
    # ---- violations
    known = known_findings()
    reported, shown_known, lines = {}, set(), []
    for v in viols:
        fr = repo_frames(exe, v["pcs"])
        v["frames"] = ["%s (%s)" % (fn, os.path.relpath(loc.split(":")[0], REPO) + ":" + loc.split(":")[1]) for fn, loc in fr[:8]]
        k = [x for x in known if x[0] == prop and x[1] == v["class"] and (x[2] == "*" or x[2] == v["key"]) and (x[3] == "*" or any(x[3] in f for f in v["frames"] + [v["msg"]]))]
        if k:
            shown_known.add(k[0][4])
            continue
        sig = (v["class"], v["key"])
        if sig in reported:
            continue
        r = subprocess.run([exe, "--replay", v["replay"]], capture_output=True, text=True)
        if r.returncode != 0:
            broken.append("replay in a fresh process does not reproduce %s: %s" % (v["replay"], r.stdout[-300:] + r.stderr[-300:]))
            continue
        with open(v["replay"], "a") as f:
            for x in v["frames"]:
                f.write("# at %s\n" % x)
        reported[sig] = v
    for k in sorted(shown_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for sig, v in reported.items():
        print("violation of %s: %s/%s: %s" % (prop, v["class"], v["key"], v["msg"]))
        for x in v["frames"]:
            print("    at", x)
        print("    seed %d; choices (workload, schedule, faults) %s minimised to %s in %d runs" % (v["seed"], v["before"], v["after"], v["trials"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    for p_ in chk.get("probes", []):
        if tot["runs"] > 200 and not ctr.get(p_) and not reported:
            lines.append("probe %s was never hit" % p_)
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(nts),
            "rule": chk["rule"] + " An execution is distinct when the hash of its complete event log (choices, context switches, I/O results, verdict) is new.",
            "samples": samples[:3],
            "simulated_runs_per_hour": int(tot["runs"] / max(t_search, 1e-6) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(t_search, 1e-6) * 3600),
            "simulated_seconds": tot["sim_ns"] / 1e9,
            "simulated_steps": tot["steps"],
            "longest_run_steps": maxsteps,
            "distinct_executions": len(execs),
            "distinct_interleavings": len(sched),
            "interleaving_measure": "hash of the sequence of context switches (from, to) of an execution",
            "context_switches": tot["switches"], "forced_preemptions": tot["preemptions"],
            "faults_fired": {k[6:]: v for k, v in sorted(ctr.items()) if k.startswith("fault.")},
            "runs_with_fault": {k[6:]: v for k, v in sorted(ctr_runs.items()) if k.startswith("fault.")},
            "probes": {k: v for k, v in sorted(ctr.items()) if not k.startswith("fault.")},
            "probes_never_hit": lines,
            "executions_run_twice_and_compared": tot["rechecked"],
            "real_components": chk["real"], "stubbed_components": chk["stub"],
            "build_s": round(t_build, 2), "search_s": round(t_search, 2), "search_processes": CORES,
        },
        "assumptions": COMMON_ASSUMPTIONS + chk.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s: %d runs, %d distinct non-trivial, %d interleavings, %.0f s build, %.0f s search, faults %s" % (
        prop, tot["runs"], len(nts), len(sched), t_build, t_search, json.dumps(ev["coverage"]["faults_fired"])))
    for l in lines:
        print("note:", l)
    if reported:
        return 1
    if broken:
        for b in broken:
            print("ERROR:", b, file=sys.stderr)
        return 2
    if tot["runs"] == 0 or not nts:
        die("nothing was explored")
    return 0


if __name__ == "__main__":
    sys.exit(main())
